// The complete legal-move list as users get it (MoveList<LegalAll>) on boards with two symbolic pieces: complements h_movegen,
// which decides generator and filter separately on full boards.
#include "canon.h"
BASIC_INIT
static SymPos P; static Position pos;
static const int codes[27] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 17, 18, 19, 20, 21, 22, 23, 25, 26, 27, 28, 29, 30};
// one path per value
static NOINLINE int pick(const char* n, int cnt) { uint64_t x = sym_bits(n, 5); sym_assume(x < (uint64_t)cnt); for (int i = 0; i < cnt - 1; i++) if (x == (uint64_t)i) return i; return cnt - 1; }
static NOINLINE int count(MoveList<LegalAll>& ml, uint32_t v) { int c = 0; ExtMove *e = ml.begin() + ml.size(); for (ExtMove* x = ml.begin(); x != e; ++x) c += x->move.value() == v; return c; }
static bool dead(int c, int s) { return mustPro(c & 15, c >> 4, RK(s)); }
HARNESS h_legalall() {
    int us = sym_param("us", 0), K = sym_param("ks", 76), O = sym_param("ok", 4), A = sym_param("a", 67), B = sym_param("b", 49);
    int C = sym_param("c", -1), CC = sym_param("cc", 0), D = sym_param("d", -1), DC = sym_param("dc", 0);
    sym_policy("nomerge", 1);
    P.us = us; for (int s = 0; s < 81; s++) P.pc[s] = Empty;
    for (auto& h : P.hand) for (int& x : h) x = 0;
    P.pc[K] = (Piece)code(T_K, us); P.pc[O] = (Piece)code(T_K, !us);
    if (C >= 0) P.pc[C] = (Piece)CC;
    if (D >= 0) P.pc[D] = (Piece)DC;
    int a = codes[pick("pa", 27)], b = codes[pick("pb", 27)];
    if (dead(a, A) || dead(b, B)) return;
    P.pc[A] = (Piece)a; P.pc[B] = (Piece)b;
    int h = sym_param("hand", 0); if (h == 9) { int m = pick("hd", 4); h = m == 0 ? 0 : m == 1 ? 1 : m == 2 ? 0x36 : 0x7f; }
    for (int i = 0; i < 7; i++) P.hand[us][i] = h >> i & 1;
    preds(P);
    if (attacked(P, O, us, -1, -1)) return; // not a position with us to move
    canonical(pos, P, K, O);
    uint64_t w[2]; attackersRef(P, K, !us, w, true); pos.st_->checkersBB = Bitboard(w[0], w[1]);
    bool incheck = w[0] || w[1];
    MoveList<LegalAll> ml(pos);
    uint32_t bad = 0; int total = 0;
    for (int from = 0; from < 81; from++) {
        if (!P.own[from]) continue;
        int k = P.pc[from] & 15;
        for (int to = 0; to < 81; to++) {
            if (to == from || P.own[to] || to == O || !reaches(P, k, us, from, to)) continue;
            bool safe = from == K ? !attacked(P, to, !us, K, -1) : !attacked(P, K, !us, from, to);
            uint32_t mv = to | from << 7 | k << 16 | (P.pc[to] & 15) << 20;
            int non = safe && !mustPro(k, us, RK(to)), pro = safe && canPro(k) && (zone(us, RK(from)) || zone(us, RK(to)));
            if (count(ml, mv) != non) { bad |= 1; }
            if (count(ml, mv | 0x4000) != pro) { bad |= 2; }
            total += non + pro;
        }
    }
    for (int i = 0; i < 7; i++) if (P.hand[us][i]) for (int to = 0; to < 81; to++) {
        int k = dropPT[i]; if (!P.emp[to] || mustPro(k, us, RK(to))) continue;
        bool ok = !incheck || !attacked(P, K, !us, -1, to);
        if (k == T_P) {
            for (int r = 0; r < 9; r++) if (P.own[SQ(FL(to), r)] && P.t[T_P][SQ(FL(to), r)]) ok = false;
            int kr = RK(to) + (us == 0 ? -1 : 1);
            if (ok && SQ(FL(to), kr) == O) { // a pawn drop giving check: not if it mates
                bool esc = false;
                for (int d = 0; d < 8; d++) { int x = FL(O) + RDF[d], y = RK(O) + RDR[d]; if (!ON(x, y)) continue; int s = SQ(x, y); if (!P.opp[s] && !attacked(P, s, us, O, s == to ? -1 : to)) esc = true; }
                for (int f = 0; f < 81; f++) if (P.opp[f] && f != O && reaches(P, P.pc[f] & 15, !us, f, to) && !attacked(P, O, us, f, to)) esc = true;
                ok = esc;
            }
        }
        if (count(ml, to | (80 + k) << 7) != (ok ? 1 : 0)) bad |= 4;
        total += ok;
    }
    sym_assert(bad == 0, "legal move list differs from the rules (missing, extra, duplicated or mislabelled move)");
    sym_assert((int)ml.size() == total, "number of legal moves differs from the rules");
    sym_reach("end");
}
