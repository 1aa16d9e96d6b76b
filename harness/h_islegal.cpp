// The legality test for a single move: true exactly for the moves the rules allow, for every board (own king square, origin and claimed piece fixed per run).
#include "canon.h"
BASIC_INIT
static SymPos P; static Position pos;
extern "C" __attribute__((used)) bool stub__ZNK8Position19isPawnDropCheckMateE5Color6Square(const Position* p, Color us, Square sq) {
    uint32_t r = 0; for (int i = 0; i < 81; i++) r |= eqi(sq, i) & sym_uf("pdm", i); return r & 1;
}
static uint32_t pdm(int to) { if (sym_native()) return pos.isPawnDropCheckMate((Color)P.us, (Square)to); return sym_uf("pdm", to); }
static NOINLINE uint32_t legal(uint32_t mv, const Bitboard& pinned) { Move m(mv); if (!pos.moveIsPseudoLegal<false>(m)) return 0; return pos.pseudoLegalMoveIsLegal<false, false>(m, pinned) ? 1 : 0; }
static int US, K, O;
static NOINLINE void setup() {
    US = sym_param("us", 0); K = sym_param("ks", 76); O = sym_param("ok", 4);
    symBoard2(P, US, K, O); preds(P); symHands(P);
    sym_assume(!(attacked(P, O, US, -1, -1) & 1));
    canonical(pos, P, K, O);
    uint64_t w[2]; attackersRef(P, K, !US, w, true); pos.st_->checkersBB = Bitboard(w[0], w[1]);
    // at most two pieces give check (no more can arise in a game)
    uint32_t g1 = 0, g2 = 0, g3 = 0; for (int q = 0; q < 81; q++) { uint32_t b = (w[q >= 63] >> (q >= 63 ? q - 63 : q)) & 1; g3 |= g2 & b; g2 |= g1 & b; g1 |= b; }
    sym_assume(!(g3 & 1));
}
HARNESS h_board() {
    setup();
    int from = sym_param("from", 30), k = sym_param("k", T_S);
    Bitboard pinned = pos.pinnedBB();
    for (int to = 0; to < 81; to++) {
        if (to == from || to == O) continue;
        uint32_t ok = P.own[from] & P.t[k][from] & !P.own[to] & reaches(P, k, US, from, to) & 1;
        if (ok) ok &= 1u & !(from == K ? attacked(P, to, !US, K, -1) : attacked(P, K, !US, from, to));
        uint32_t mv = to | from << 7 | k << 16 | ((uint32_t)P.pc[to] & 15) << 20;
        sym_assert_tag(legal(mv, pinned) == (mustPro(k, US, RK(to)) ? 0 : ok), "legality of a move differs from the rules", mv & 0x7fff);
        bool pz = canPro(k) && (zone(US, RK(from)) || zone(US, RK(to)));
        sym_assert_tag(legal(mv | 0x4000, pinned) == (pz ? ok : 0), "legality of a promoting move differs from the rules", (mv & 0x7fff) | 0x4000);
    }
    sym_reach("end");
}
HARNESS h_drop() {
    setup();
    int i = sym_param("hp", 0), k = dropPT[i];
    Bitboard pinned = pos.pinnedBB();
    for (int to = 0; to < 81; to++) {
        uint32_t ok = (P.hand[US][i] != 0) & P.emp[to] & 1;
        if (mustPro(k, US, RK(to))) ok = 0;
        else if (ok) ok &= 1u & !attacked(P, K, !US, -1, to);
        if (k == T_P && ok) {
            for (int r = 0; r < 9; r++) { int s = SQ(FL(to), r); ok &= 1u & !(P.own[s] & P.t[T_P][s]); }
            if (ON(FL(to), RK(to) + (US ? 1 : -1)) && SQ(FL(to), RK(to) + (US ? 1 : -1)) == O) ok &= 1u & !pdm(to);
        }
        sym_assert_tag(legal(to | (80 + k) << 7, pinned) == ok, "legality of a drop differs from the rules", to | (80 + k) << 7);
    }
    // things that cannot be dropped
    for (int q = 8; q < 15; q++) { int to = sym_param("to", 40); sym_assert_tag(!legal(to | (80 + q) << 7, pinned), "drop of a piece that is never in hand", q); }
    sym_reach("end");
}
