// Pawn-drop mate: the verdict of the real code against "no legal reply exists", for every position (attacked king's square fixed per run).
#include "canon.h"
BASIC_INIT
static SymPos P; static Position pos;
HARNESS h_pdm() {
    int us = sym_param("us", 0), them = !us, O = sym_param("ok", 4);
    int sq = SQ(FL(O), RK(O) + (us == 0 ? 1 : -1)); // where the pawn is dropped
    anyBoard2(P, us, O, T_K); preds(P); symHands(P);
    // at most one king of ours, not next to theirs
    uint32_t seen = 0, two = 0; for (int s = 0; s < 81; s++) { uint32_t k = P.own[s] & P.t[T_K][s]; two |= seen & k; seen |= k; sym_assume(!(P.opp[s] & P.t[T_K][s] & (s != O))); }
    sym_assume(!(two & 1));
    sym_assume(P.emp[sq] & 1);
    sym_assume(!(attacked(P, O, us, -1, -1) & 1)); // the side not to move is not in check (this also keeps the kings apart)
    canonical(pos, P, 81, O);
    uint64_t w[2] = {0, 0};
    pos.st_->checkersBB = Bitboard(w[0], w[1]);
    uint32_t escape = 0;
    for (int d = 0; d < 8; d++) {
        int x = FL(O) + RDF[d], y = RK(O) + RDR[d]; if (!ON(x, y)) continue;
        int s = SQ(x, y);
        escape |= !P.opp[s] & !(attacked(P, s, us, O, s == sq ? -1 : sq)) & 1;
    }
    for (int from = 0; from < 81; from++) {
        if (from == O || from == sq) continue;
        uint32_t r = 0; bool geo = false;
        for (int k = 1; k < 15; k++) if (k != T_K) { uint32_t q = reaches(P, k, them, from, sq); r |= q & P.t[k][from]; }
        uint32_t cap = r & P.opp[from] & 1;
        if (!(cap)) continue;
        escape |= cap & !attacked(P, O, us, from, sq) & 1;
    }
    bool got = pos.isPawnDropCheckMate((Color)us, (Square)sq);
    sym_assert((got ? 1u : 0u) == (!escape & 1u), "pawn-drop mate verdict differs from the rules");
    sym_reach("end");
}
