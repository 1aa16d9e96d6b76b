// Setting up a position: everything derived from pieces, hands and turn is what the rules say.
#include "canon.h"
BASIC_INIT
static SymPos P; static Position pos, q;
static void bbIs(const Bitboard& b, const uint8_t* e, const char* l, uint64_t tag) {
    uint64_t w[2] = {0, 0}; for (int s = 0; s < 81; s++) w[s >= 63] |= (uint64_t)(e[s] & 1) << (s >= 63 ? s - 63 : s);
    sym_assert_tag(((b.p(0) ^ w[0]) | (b.p(1) ^ w[1])) == 0, l, tag);
}
static NOINLINE void derived(const Position& p, int us, int K, int O) {
    uint64_t diff = 0; for (int s = 0; s < 81; s++) diff |= (uint64_t)(p.piece((Square)s) ^ P.pc[s]);
    sym_assert(diff == 0, "pieces of a position");
    for (int k = 1; k < 15; k++) bbIs(p.bbOf((PieceType)k), P.t[k], "squares of a piece type", k);
    bbIs(p.bbOf((Color)us), us == P.us ? P.own : P.opp, "squares of the side to move", 0); bbIs(p.bbOf((Color)!us), us == P.us ? P.opp : P.own, "squares of the other side", 0);
    uint8_t occ[81], gold[81];
    for (int s = 0; s < 81; s++) { occ[s] = P.own[s] | P.opp[s]; gold[s] = P.t[T_G][s] | P.t[T_PP][s] | P.t[T_PL][s] | P.t[T_PN][s] | P.t[T_PS][s]; }
    bbIs(p.occupiedBB(), occ, "occupied squares", 0); bbIs(p.goldsBB(), gold, "golds", 0);
    uint32_t hd = 0; for (int c = 0; c < 2; c++) for (int i = 0; i < 7; i++) hd |= p.hand((Color)c).numOf((HandPiece)i) ^ (uint32_t)P.hand[c][i];
    sym_assert(hd == 0, "hands of a position");
    sym_assert(p.turn() == us, "side to move");
    sym_assert(p.kingSquare((Color)us) == K && p.kingSquare((Color)!us) == O, "king squares");
    uint64_t w[2] = {0, 0}; if (K < 81) attackersRef(P, K, !us, w, false);
    sym_assert(((p.checkersBB().p(0) ^ w[0]) | (p.checkersBB().p(1) ^ w[1])) == 0, "checking pieces");
    sym_assert(p.inCheck() == ((w[0] | w[1]) != 0), "in check?");
    sym_assert(p.st_->hand.value() == p.hand((Color)us).value(), "hand of the side to move");
}
HARNESS h_set() {
    int us = sym_param("us", 0), K = sym_param("ks", 76), O = sym_param("ok", 4);
    symBoard2(P, us, K, O); preds(P); symHands(P);
    pos.st_ = &pos.startState_; pos.turn_ = (Color)us; pos.gamePly_ = (int)sym_bits("ply", 16);
    // whatever the object held before must not show
    pos.st_->continuousCheck[0] = 6; pos.st_->pliesFromNull = 9; pos.hand_[0].set(0x3ffffff); pos.piece_[40] = WDragon; pos.byTypeBB_[Dragon] = Bitboard(5, 5); pos.byTypeBB_[0] = Bitboard(~0ull >> 1, 7);
    int ply = pos.gamePly_;
    sym_policy("forkidx", 40); pos.set(P.pc, P.hand); sym_policy("forkidx", 0);
    derived(pos, us, K, O);
    sym_assert(pos.gamePly_ == ply, "move number");
    sym_assert(pos.st_ == &pos.startState_ && pos.st_->continuousCheck[0] == 0 && pos.st_->continuousCheck[1] == 0 && pos.st_->pliesFromNull == 0, "fresh history");
    // changing the side to move
    sym_policy("forkidx", 40); pos.setTurn((Color)!us); sym_policy("forkidx", 0);
    derived(pos, !us, O, K);
    sym_reach("end");
}
// keys: few pieces, one path per piece / count, so that no sums of symbolic keys arise
static NOINLINE int pick(const char* n, int cnt) { uint64_t x = sym_bits(n, 5); sym_assume(x < (uint64_t)cnt); for (int i = 0; i < cnt - 1; i++) if (x == (uint64_t)i) return i; return cnt - 1; }
HARNESS h_key() {
    int us = sym_param("us", 0), n = sym_param("n", 2), s0 = sym_param("s0", 30), st = sym_param("st", 17), hi = sym_param("hp", -1);
    sym_policy("nomerge", 1);
    P.us = us; for (int s = 0; s < 81; s++) P.pc[s] = Empty;
    int sq[4]; static char nm[] = "p0";
    for (int i = 0; i < n; i++) { sq[i] = (s0 + i * st) % 81; nm[1] = '0' + i; int v = pick(nm, 29); v = v < 15 ? v : v + 2; P.pc[sq[i]] = (Piece)v; }
    for (int c = 0; c < 2; c++) for (int i = 0; i < 7; i++) P.hand[c][i] = 0;
    if (hi >= 0) { int cap = hi == 0 ? 19 : hi < 5 ? 5 : 3; P.hand[0][hi] = pick("h0", cap); P.hand[1][hi] = pick("h1", cap); }
    pos.st_ = &pos.startState_; pos.turn_ = (Color)us;
    pos.set(P.pc, P.hand);
    uint64_t key = 0, hk = 0;
    for (int i = 0; i < n; i++) { int v = P.pc[sq[i]]; if (v) key += Position::zobrist_[v & 15][sq[i]][v >> 4]; }
    if (us) key ^= 1;
    if (hi >= 0) for (int c = 0; c < 2; c++) hk += P.hand[c][hi] * Position::zobHand_[hi][c];
    sym_assert(pos.getBoardKey() == key, "board key is the sum of its pieces' keys");
    sym_assert(pos.getKey() == key + hk, "position key is board key plus hand keys");
    pos.setTurn((Color)!us);
    sym_assert(pos.getBoardKey() == (key ^ 1) && pos.getKey() == (key ^ 1) + hk, "key after changing the side to move");
    sym_reach("end");
}
// no two (piece, square) or hand keys coincide, and none touches the bit of the side to move
HARNESS h_zobrist() {
    uint64_t k1 = sym_bits("k1", 4), s1 = sym_bits("s1", 7), c1 = sym_bits("c1", 1);
    sym_assume((k1 >= 1) & (k1 < 15) & (s1 < 81));
    int k2 = sym_param("k", 1), c2 = sym_param("c", 0);
    for (int s2 = 0; s2 < 81; s2++) {
        uint64_t z1 = Position::zobrist_[k1][s1][c1], z2 = Position::zobrist_[k2][s2][c2];
        sym_assert_tag(sym_or(z1 != z2, (k1 == (uint64_t)k2) & (s1 == (uint64_t)s2) & (c1 == (uint64_t)c2)) & !(z1 & 1), "two pieces share a key", s2);
    }
    sym_reach("end");
}
