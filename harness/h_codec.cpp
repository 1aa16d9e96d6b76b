// Move codecs, policy labels, hand arithmetic: the functions of cshogi.h / hand.hpp over all their inputs.
#include "common.h"
#include "cshogi.h"
BASIC_INIT
static const int dropPT[7] = {1, 2, 3, 4, 7, 5, 6}; // piece type dropped, by hand-piece index pawn lance knight silver gold bishop rook
// ---- P13 ------------------------------------------------------------------------------------------------
static Position pos;
HARNESS h_move_fields() { // a move built by the board carries exactly what it was built from
    uint64_t from = sym_bits("from", 7), to = sym_bits("to", 7), pro = sym_bits("pro", 1);
    sym_assume(from < 81); sym_assume(to < 81); sym_assume(from != to);
    uint64_t pf = sym_bits("pf", 5), pt = sym_bits("pt", 5);
    sym_assume((pf & 15) >= 1); sym_assume((pf & 15) <= 14); sym_assume((pt & 15) <= 14); sym_assume(pt != 16);
    sym_assume(!pro | ((pf & 15) <= 6));
    for (int s = 0; s < 81; s++) pos.piece_[s] = (Piece)sym_ite((uint64_t)s == from, pf, sym_ite((uint64_t)s == to, pt, 0));
    __Board* b = (__Board*)&pos; // only the pieces are read
    int m = (int)(pro ? makePromoteMove<Capture>(pieceToPieceType(pos.piece((Square)from)), (Square)from, (Square)to, pos).value()
                      : makeNonPromoteMove<Capture>(pieceToPieceType(pos.piece((Square)from)), (Square)from, (Square)to, pos).value());
    sym_assert((uint64_t)__move_to(m) == to, "destination of a board move");
    sym_assert((uint64_t)__move_from(m) == from, "origin of a board move");
    sym_assert((uint64_t)__move_cap(m) == (pt & 15), "captured piece of a board move");
    sym_assert((uint64_t)__move_from_piece_type(m) == (pf & 15), "moving piece of a board move");
    sym_assert(__move_is_promotion(m) == (bool)pro, "promotion flag of a board move");
    sym_assert(!__move_is_drop(m), "board move seen as a drop");
    Move M((u32)m);
    sym_assert((uint64_t)M.pieceTypeTo() == (pf & 15) + 8 * pro, "piece after the move");
    sym_assert(M.isCapture() == ((pt & 15) != 0), "capture flag");
    sym_assert(M.isCaptureOrPromotion() == (((pt & 15) != 0) | (pro != 0)), "capture-or-promotion flag");
    // 16-bit form and back, given the position
    unsigned short h = __move16(m);
    sym_assert((uint64_t)h == (to | from << 7 | pro << 14), "16-bit form of a board move");
    sym_assert((int)move16toMove(Move(h), pos).value() == m, "16-bit form does not restore the move");
    unsigned short y = __move16_to_psv(h);
    sym_assert((uint64_t)y == (to | from << 7 | pro << 15), "packed-sfen form of a board move");
    sym_assert(__move16_from_psv(y) == h, "packed-sfen form does not convert back");
    sym_assert((int)move16toMove(Move(__move16_from_psv(y)), pos).value() == m, "packed-sfen form does not restore the move");
    int r = __move_rotate(m);
    sym_assert((uint64_t)__move_to(r) == 80 - to && (uint64_t)__move_from(r) == 80 - from, "rotated squares");
    sym_assert((r ^ m) >> 14 == 0, "rotation changes something besides the squares");
    sym_assert(__move_rotate(r) == m, "rotating twice");
    sym_reach("end");
}
HARNESS h_move_drop() {
    int i = sym_param("hp", 0); uint64_t to = sym_bits("to", 7); sym_assume(to < 81);
    int k = dropPT[i];
    int m = (int)makeDropMove((PieceType)k, (Square)to).value();
    sym_assert((uint64_t)__move_to(m) == to, "destination of a drop");
    sym_assert(__move_is_drop(m), "drop not seen as a drop");
    sym_assert(__move_drop_hand_piece(m) == i, "dropped hand piece");
    sym_assert(__hand_piece_to_piece_type(__move_drop_hand_piece(m)) == k, "dropped piece type");
    sym_assert(!__move_is_promotion(m), "drop with promotion");
    sym_assert(__move_cap(m) == 0, "drop with a capture");
    Move M((u32)m);
    sym_assert((int)M.pieceTypeDropped() == k && (int)M.handPieceDropped() == i && (int)M.pieceTypeTo() == k, "dropped piece type of the move");
    unsigned short h = __move16(m);
    for (int s = 0; s < 81; s++) pos.piece_[s] = (Piece)(s & 1 ? BPawn : Empty); // the position is irrelevant for a drop
    sym_assert((int)h == m, "16-bit form of a drop");
    sym_assert((int)move16toMove(Move(h), pos).value() == m, "16-bit form does not restore the drop");
    unsigned short y = __move16_to_psv(h);
    sym_assert((uint64_t)y == (to | (uint64_t)k << 7 | 1u << 14), "packed-sfen form of a drop");
    sym_assert(__move16_from_psv(y) == h, "packed-sfen form does not convert back");
    int r = __move_rotate(m);
    sym_assert((uint64_t)__move_to(r) == 80 - to && __move_from(r) == __move_from(m) && (r ^ m) >> 14 == 0, "rotated drop");
    sym_assert(__move_rotate(r) == m, "rotating a drop twice");
    sym_reach("end");
}
HARNESS h_move16_any() { // for every 16-bit word, the packed-sfen conversions are inverse to each other on their domains
    uint64_t v = sym_bits("v", 16);
    uint64_t to = v & 127, from = (v >> 7) & 127;
    sym_assume(to < 81); sym_assume(from < 88); sym_assume((v >> 15) == 0); sym_assume(!((v >> 14 & 1) & (from >= 81)));
    sym_assert(__move16_from_psv(__move16_to_psv((unsigned short)v)) == v, "packed-sfen conversion is not invertible");
    uint64_t w = sym_bits("w", 16), wf = (w >> 7) & 127, d = w >> 14 & 1;
    sym_assume((w & 127) < 81); sym_assume((d & (wf >= 1) & (wf <= 7) & !(w >> 15)) | (!d & (wf < 81)));
    sym_assert(__move16_to_psv(__move16_from_psv((unsigned short)w)) == w, "packed-sfen conversion is not invertible (reverse)");
    sym_assert(move16toMove(Move(0), pos).value() == 0, "the empty move");
    sym_reach("end");
}
HARNESS h_squares() {
    uint64_t sq = sym_bits("sq", 7); sym_assume(sq < 81);
    int f = __make_file((int)sq), r = __make_rank((int)sq);
    sym_assert(f >= 0 && f < 9 && r >= 0 && r < 9 && (uint64_t)(9 * f + r) == sq, "file and rank of a square");
    uint64_t p = sym_bits("p", 5); sym_assume((p & 15) <= 14);
    sym_assert((uint64_t)__piece_to_piece_type((int)p) == (p & 15), "type of a piece");
    sym_reach("end");
}
// ---- P14 ------------------------------------------------------------------------------------------------
// compass direction, from the mover's side: up, up-left, up-right, left, right, down, down-left, down-right, knight left, knight right
static int dirOf(int df, int dr) { // df>0: towards the mover's left (higher file); dr<0: forward
    if (dr == -2 && df == 1) return 8;
    if (dr == -2 && df == -1) return 9;
    if (dr < 0) return df == 0 ? 0 : df > 0 ? 1 : 2;
    if (dr == 0) return df > 0 ? 3 : 4;
    return df == 0 ? 5 : df > 0 ? 6 : 7;
}
HARNESS h_label() { // origin fixed per run; destination, promotion, side symbolic
    int from = sym_param("from", 0); uint64_t to = sym_bits("to", 7), pro = sym_bits("pro", 1), col = sym_bits("col", 1), hi = sym_bits("hi", 16);
    sym_assume(to < 81); sym_assume(to != (uint64_t)from);
    uint32_t expB = 0, expW = 0, ok = 0;
    for (int t = 0; t < 81; t++) {
        int df = FL(t) - FL(from), dr = RK(t) - RK(from);
        int adf = df < 0 ? -df : df, adr = dr < 0 ? -dr : dr;
        bool line = (df || dr) && (df == 0 || dr == 0 || adf == adr), kb = adf == 1 && dr == -2, kw = adf == 1 && dr == 2;
        uint32_t is = to == (uint64_t)t;
        if (line || kb) { expB |= is ? 81 * dirOf(df, dr) + t : 0; ok |= is & !(uint32_t)col; }
        if (line || kw) { expW |= is ? 81 * dirOf(-df, -dr) + 80 - t : 0; ok |= is & (uint32_t)col; }
    }
    sym_assume(ok & 1);
    uint32_t exp = (uint32_t)sym_ite(col != 0, expW, expB) + (uint32_t)pro * 810;
    int m = (int)(to | (uint64_t)from << 7 | pro << 14 | hi << 16);
    int l = __dlshogi_make_move_label(m, (int)col);
    sym_assert((uint32_t)l == exp, "label of a board move is not its direction plane and destination");
    sym_assert(l >= 0 && l < 1620, "label range of a board move");
    // the label of the rotated move for the other side is the same
    sym_assert(__dlshogi_make_move_label(__move_rotate(m), (int)col ^ 1) == l, "label is not invariant under rotation and colour swap");
    sym_reach("end");
}
HARNESS h_label_drop() {
    uint64_t k = sym_bits("k", 3), to = sym_bits("to", 7), col = sym_bits("col", 1); sym_assume(to < 81); sym_assume(k >= 1);
    int m = (int)(to | (80 + k) << 7);
    int l = __dlshogi_make_move_label(m, (int)col);
    sym_assert((uint64_t)l == 81 * (20 + k - 1) + (col ? 80 - to : to), "label of a drop");
    sym_assert(l >= 1620 && l < 2187, "label range of a drop");
    sym_assert(__dlshogi_make_move_label(__move_rotate(m), (int)col ^ 1) == l, "drop label is not invariant under rotation and colour swap");
    sym_reach("end");
}
// ---- P21 ------------------------------------------------------------------------------------------------
static const int MX[7] = {18, 4, 4, 4, 4, 2, 2};
struct HN { uint64_t n[7]; };
static HN symHand(char c) {
    HN h; static char nm[] = "h00"; nm[1] = c;
    for (int k = 0; k < 7; k++) { nm[2] = '0' + k; h.n[k] = sym_bits(nm, k == 0 ? 5 : k < 5 ? 3 : 2); sym_assume(h.n[k] <= (uint64_t)MX[k]); }
    return h;
}
static Hand mk(const HN& h) { Hand r(0); for (int k = 0; k < 7; k++) r.orEqual((int)h.n[k], (HandPiece)k); return r; }
static void same(const Hand& h, const HN& e, const char* l) {
    uint32_t ok = 1; for (int k = 0; k < 7; k++) ok &= h.numOf((HandPiece)k) == e.n[k];
    ok &= h.numOf<HPawn>() == e.n[0]; ok &= h.numOf<HLance>() == e.n[1]; ok &= h.numOf<HKnight>() == e.n[2]; ok &= h.numOf<HSilver>() == e.n[3];
    ok &= h.numOf<HGold>() == e.n[4]; ok &= h.numOf<HBishop>() == e.n[5]; ok &= h.numOf<HRook>() == e.n[6];
    sym_assert(ok, l);
}
HARNESS h_hand() {
    HN a = symHand('a'), b = symHand('b');
    Hand A = mk(a), B = mk(b);
    same(A, a, "hand counts");
    uint32_t eq = 1, sup = 1, anyx = 0;
    for (int k = 0; k < 7; k++) { eq &= a.n[k] == b.n[k]; sup &= a.n[k] >= b.n[k]; if (k) anyx |= a.n[k] != 0; sym_assert_tag((A.exists((HandPiece)k) != 0) == (a.n[k] != 0), "hand piece existence", k); }
    sym_assert((A.exists<HPawn>() != 0) == (a.n[0] != 0) && (A.exists<HLance>() != 0) == (a.n[1] != 0) && (A.exists<HKnight>() != 0) == (a.n[2] != 0) && (A.exists<HSilver>() != 0) == (a.n[3] != 0)
        && (A.exists<HGold>() != 0) == (a.n[4] != 0) && (A.exists<HBishop>() != 0) == (a.n[5] != 0) && (A.exists<HRook>() != 0) == (a.n[6] != 0), "hand piece existence (by type)");
    sym_assert((A.exceptPawnExists() != 0) == (anyx & 1), "any piece besides pawns");
    sym_assert((A == B) == (eq & 1), "hand equality");
    sym_assert((A != B) == !(eq & 1), "hand inequality");
    sym_assert(A.isEqualOrSuperior(B) == (sup & 1), "hand superiority");
    for (int k = 0; k < 7; k++) {
        Hand C = A; HN c = a; C.plusOne((HandPiece)k); c.n[k]++;
        if (a.n[k] < (uint64_t)MX[k]) { same(C, c, "adding one piece"); C.minusOne((HandPiece)k); same(C, a, "adding and removing one piece"); }
    }
    Hand D = A; D.setPP(B, A); // proof-piece helper: replaces the kinds the other side lacks
    HN d; for (int k = 0; k < 7; k++) d.n[k] = a.n[k] == 0 ? b.n[k] : a.n[k];
    same(D, d, "proof pieces");
    sym_reach("end");
}
