// Positions that are concrete except for a few squares or hand counts chosen by symbolic values (one path per choice).
#pragma once
#include "canon.h"
static Position pos, q; static Piece pc[81]; static int hand[2][7];
static const int codes[27] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 17, 18, 19, 20, 21, 22, 23, 25, 26, 27, 28, 29, 30};
static NOINLINE int pick(const char* n, int cnt) { uint64_t x = sym_bits(n, 5); sym_assume(x < (uint64_t)cnt); for (int i = 0; i < cnt - 1; i++) if (x == (uint64_t)i) return i; return cnt - 1; }
static uint32_t seed; static uint32_t rnd() { seed = seed * 1664525u + 1013904223u; return seed >> 8; }
static const int total[7] = {18, 4, 4, 4, 4, 2, 2};
static int left_[7];
// A concrete base position (from the seed) that leaves at least two pieces of every kind for the symbolic part.
static void base(int us, int K, int O, int a, int b) {
    for (auto& x : pc) x = Empty;
    for (auto& h : hand) for (int& x : h) x = 0;
    pc[K] = (Piece)code(T_K, us); pc[O] = (Piece)code(T_K, !us);
    for (int i = 0; i < 7; i++) left_[i] = total[i] - 2;
    seed = (uint32_t)sym_param("seed", 1);
    for (int n = 0; n < 70; n++) {
        int s = rnd() % 81, c = codes[1 + rnd() % 26]; int h = hpOf[c & 15];
        uint32_t r = rnd();
        if (left_[h] == 0) continue;
        if (r % 3 == 0) { hand[r >> 4 & 1][h]++; left_[h]--; }
        else if (r % 3 == 1 && pc[s] == Empty && s != a && s != b && s != K && s != O) { pc[s] = (Piece)c; left_[h]--; }
    }
}
static NOINLINE void same(const char* lab) {
    const Position &x = pos, &y = q; uint64_t d = 0;
    for (int s = 0; s < 81; s++) d |= (uint64_t)(x.piece((Square)s) ^ y.piece((Square)s));
    d |= x.hand(Black).value() ^ y.hand(Black).value(); d |= x.hand(White).value() ^ y.hand(White).value();
    d |= (uint64_t)(x.turn() ^ y.turn()); d |= x.getKey() ^ y.getKey(); d |= x.getBoardKey() ^ y.getBoardKey();
    d |= (uint64_t)(x.kingSquare(Black) ^ y.kingSquare(Black)) | (uint64_t)(x.kingSquare(White) ^ y.kingSquare(White));
    sym_assert(d == 0, lab);
    d = 0;
    for (int k = 0; k < 15; k++) d |= (x.byTypeBB_[k].p(0) ^ y.byTypeBB_[k].p(0)) | (x.byTypeBB_[k].p(1) ^ y.byTypeBB_[k].p(1));
    for (int c = 0; c < 2; c++) d |= (x.byColorBB_[c].p(0) ^ y.byColorBB_[c].p(0)) | (x.byColorBB_[c].p(1) ^ y.byColorBB_[c].p(1));
    d |= (x.goldsBB_.p(0) ^ y.goldsBB_.p(0)) | (x.goldsBB_.p(1) ^ y.goldsBB_.p(1)) | (x.checkersBB().p(0) ^ y.checkersBB().p(0)) | (x.checkersBB().p(1) ^ y.checkersBB().p(1)) | (x.st_->hand.value() ^ y.st_->hand.value());
    sym_assert(d == 0, "derived state after decoding");
}
