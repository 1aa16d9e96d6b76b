// Declaration win (27-point rule), for every position.
#include "sympos.h"
BASIC_INIT
static SymPos P; static Position pos;
bool nyugyoku(const Position& pos);
HARNESS h_nyu() {
    int us = sym_param("us", 0), K = sym_param("ksq", 0);
    symBoard(P, us, K); preds(P); oneOppKing(P, 1); symHands(P);
    pos.st_ = &pos.startState_; pos.turn_ = (Color)us; pos.gamePly_ = 1;
    sym_policy("forkidx", 40); pos.set(P.pc, P.hand); sym_policy("forkidx", 0);
    sym_simplify(&pos, sizeof pos);
    uint32_t chk = attacked(P, K, !us, -1, -1) & 1;
    // king adjacency: the library never counts a king as a checking piece; such positions do not occur
    for (int d = 0; d < 8; d++) { int x = FL(K) + RDF[d], y = RK(K) + RDR[d]; if (ON(x, y)) sym_assume(!(P.opp[SQ(x, y)] & P.t[T_K][SQ(x, y)])); }
    bool got = nyugyoku(pos);
    uint32_t n = 0, big = 0;
    for (int s = 0; s < 81; s++) if (zone(us, RK(s)) && s != K) { n += P.own[s]; big += P.own[s] & (P.t[T_B][s] | P.t[T_R][s] | P.t[T_H][s] | P.t[T_D][s]); }
    uint32_t pts = n + 4 * big + P.hand[us][0] + P.hand[us][1] + P.hand[us][2] + P.hand[us][3] + P.hand[us][4] + 5 * (P.hand[us][5] + P.hand[us][6]);
    uint32_t exp = (zone(us, RK(K)) ? 1u : 0u) & !chk & (n >= 10) & (pts >= (us == 0 ? 28u : 27u));
    sym_assert((uint32_t)got == exp, "declaration verdict differs from the 27-point rule");
    sym_reach("end");
}
