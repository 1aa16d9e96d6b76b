#include "canon.h"
BASIC_INIT
#define DF RDF
#define DR RDR
struct Occ { uint64_t w[2]; };
static Bitboard mkBB(const Occ& o) { return Bitboard(o.w[0], o.w[1]); }
// expected set of squares reached from sq along direction d with occupancy o
static NOINLINE void ray(const Occ& o, int sq, int d, Occ& out) {
    int f = FL(sq), r = RK(sq);
    uint64_t open = 1;
    for (;;) {
        f += DF[d]; r += DR[d];
        if (!ON(f, r)) return;
        int s = SQ(f, r);
        if (s < 63) out.w[0] |= open << s; else out.w[1] |= open << (s - 63);
        open &= ~bbit(o.w, s) & 1;
    }
}
static void eq(const Bitboard& b, const Occ& e, const char* l, uint64_t tag) {
    sym_assert_tag((b.p(0) ^ e.w[0]) == 0 && (b.p(1) ^ e.w[1]) == 0, l, tag);
}
HARNESS h_sliders() {
    int sq = sym_param("sq", 40);
    Occ o; o.w[0] = sym_bits("occ0", 63); o.w[1] = sym_bits("occ1", 18);
    Bitboard occ = mkBB(o);
    Square s = (Square)sq;
    Occ e;
    e = {{0, 0}}; for (int d = 0; d < 4; d++) ray(o, sq, d, e); eq(rookAttack(s, occ), e, "rook attack", sq);
    e = {{0, 0}}; ray(o, sq, 0, e); ray(o, sq, 1, e); eq(rookAttackFile(s, occ), e, "rook file attack", sq);
    e = {{0, 0}}; for (int d = 4; d < 8; d++) ray(o, sq, d, e); eq(bishopAttack(s, occ), e, "bishop attack", sq);
    e = {{0, 0}}; ray(o, sq, 0, e); eq(lanceAttack(Black, s, occ), e, "black lance attack", sq);
    e = {{0, 0}}; ray(o, sq, 1, e); eq(lanceAttack(White, s, occ), e, "white lance attack", sq);
    sym_reach("end");
}

static void put(Occ& o, int s) { if (s < 63) o.w[0] |= 1ULL << s; else o.w[1] |= 1ULL << (s - 63); }
// attacksFrom for every piece type and colour, and the fixed tables
HARNESS h_from() {
    int sq = sym_param("sq", 40);
    Occ o; o.w[0] = sym_bits("occ0", 63); o.w[1] = sym_bits("occ1", 18);
    Bitboard occ = mkBB(o);
    for (int c = 0; c < 2; c++) for (int k = 1; k < 15; k++) {
        Occ e = {{0, 0}};
        for (int t = 0; t < 81; t++) if (stepOK(k, c, FL(t) - FL(sq), RK(t) - RK(sq))) put(e, t);
        for (int d = 0; d < 8; d++) if (slideOK(k, c, d)) ray(o, sq, d, e);
        eq(Position::attacksFrom((PieceType)k, (Color)c, (Square)sq, occ), e, "attacks of a piece", (c * 16 + k) * 81 + sq);
    }
    Occ none = {{0, 0}}, e;
    for (int t = 0; t < 81; t++) { // squares strictly between two squares on a line, none otherwise
        e = none;
        for (int d = 0; d < 8; d++) for (int n = 1; n < 9; n++) if (FL(t) - FL(sq) == n * DF[d] && RK(t) - RK(sq) == n * DR[d]) for (int i = 1; i < n; i++) put(e, SQ(FL(sq) + i * DF[d], RK(sq) + i * DR[d]));
        eq(betweenBB((Square)sq, (Square)t), e, "squares between two squares", sq * 81 + t);
    }
    for (int c = 0; c < 2; c++) { e = none; ray(none, sq, c, e); eq(lanceAttackToEdge((Color)c, (Square)sq), e, "lance line", sq); }
    e = none; for (int d = 0; d < 4; d++) ray(none, sq, d, e); eq(rookAttackToEdge((Square)sq), e, "rook lines", sq);
    e = none; for (int d = 4; d < 8; d++) ray(none, sq, d, e); eq(bishopAttackToEdge((Square)sq), e, "bishop lines", sq);
    sym_reach("end");
}
// who attacks a square, on any board
static SymPos P; static Position pos;
HARNESS h_to() {
    int sq = sym_param("sq", 40);
    anyBoard(P, 0); preds(P);
    canonical(pos, P, 0, 0);
    uint64_t b[2], w[2]; attackersRef(P, sq, 0, b, true); attackersRef(P, sq, 1, w, true);
    Occ e = {{b[0], b[1]}}; eq(pos.attackersTo(Black, (Square)sq), e, "first player's attackers", sq);
    e = {{w[0], w[1]}}; eq(pos.attackersTo(White, (Square)sq), e, "second player's attackers", sq);
    sym_assert_tag(pos.attackersToIsAny(Black, (Square)sq) == ((b[0] | b[1]) != 0), "is a square attacked (first player)?", sq);
    sym_assert_tag(pos.attackersToIsAny(White, (Square)sq) == ((w[0] | w[1]) != 0), "is a square attacked (second player)?", sq);
    e = {{b[0] | w[0], b[1] | w[1]}}; eq(pos.attackersTo((Square)sq, pos.occupiedBB()), e, "all attackers", sq);
    attackersRef(P, sq, 0, b, false); attackersRef(P, sq, 1, w, false);
    e = {{b[0], b[1]}}; eq(pos.attackersToExceptKing(Black, (Square)sq), e, "first player's attackers except the king", sq);
    e = {{w[0], w[1]}}; eq(pos.attackersToExceptKing(White, (Square)sq), e, "second player's attackers except the king", sq);
    sym_reach("end");
}
