// Neural-network inputs: piece planes and dlshogi features, for every board and hand.
#include "canon.h"
#define private public
#include "cshogi.h"
#undef private
BASIC_INIT
static SymPos P;
static float f1[2 * 31 * 81], f2[57 * 81 + 62 * 81], pl[28 * 81], pr[28 * 81];
static uint32_t bitsOf(const float& f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static uint32_t oneIf(uint32_t c) { return sym_ite(c & 1, 0x3f800000u, 0); }
alignas(16) static char brd[sizeof(__Board)];
static __Board& B = *(__Board*)brd;
static int view(int s) { return P.us ? 80 - s : s; } // the square as the side to move sees it
HARNESS h_planes() {
    int us = sym_param("us", 0); anyBoard(P, us); preds(P); symHands(P);
    canonical(B.pos, P, 0, 0);
    B.piece_planes((char*)pl); B.piece_planes_rotate((char*)pr);
    std::vector<int> v = B.pieces();
    sym_assert(v.size() == 81, "pieces() has 81 entries");
    for (int s = 0; s < 81; s++) { sym_assert_tag(v[s] == (int)P.pc[s] && B.piece(s) == (int)P.pc[s], "pieces()", s); }
    for (int c = 0; c < 2; c++) for (int k = 1; k < 15; k++) for (int s = 0; s < 81; s++) {
        uint32_t is = P.t[k][s] & (c == us ? P.own[s] : P.opp[s]);
        sym_assert_tag(bitsOf(pl[(c * 14 + k - 1) * 81 + s]) == oneIf(is), "piece plane", (c * 14 + k - 1) * 81 + s);
        int c2 = us ? !c : c; // side to move first
        sym_assert_tag(bitsOf(pr[(c2 * 14 + k - 1) * 81 + view(s)]) == oneIf(is), "piece plane (rotated)", (c2 * 14 + k - 1) * 81 + view(s));
    }
    for (int c = 0; c < 2; c++) { std::vector<int> h = B.pieces_in_hand(c); sym_assert(h.size() == 7, "hand has 7 entries"); for (int i = 0; i < 7; i++) sym_assert_tag(h[i] == P.hand[c][i], "pieces_in_hand", c * 7 + i); }
    sym_reach("end");
}
static const int cap[7] = {8, 4, 4, 4, 4, 2, 2};
HARNESS h_features() {
    int us = sym_param("us", 0); anyBoard(P, us); preds(P); symHands(P);
    int what = sym_param("what", 1);
    canonical(B.pos, P, 0, 0);
    uint32_t chk = sym_bits("chk", 1); B.pos.st_->checkersBB = Bitboard((uint64_t)chk, 0);
    for (auto& x : f1) x = 5; for (auto& x : f2) x = 5; // a reused buffer
    sym_policy("forkidx", 40); B._dlshogi_make_input_features((char*)f1, (char*)f2); sym_policy("forkidx", 0);
    sym_note("done", 0);
    if (what & 1) for (int c = 0; c < 2; c++) for (int s = 0; s < 81; s++) {
        int c2 = c != us; int v = view(s);
        const uint8_t* side = c == us ? P.own : P.opp;
        float* base = f1 + c2 * 31 * 81;
        for (int k = 1; k < 15; k++) sym_assert_tag(bitsOf(base[(k - 1) * 81 + v]) == oneIf(P.t[k][s] & side[s]), "piece plane of the features", ((c2 * 31) + k - 1) * 81 + v);
    }
    if (what & 2) for (int c = 0; c < 2; c++) for (int s = sym_param("s0", 0); s < sym_param("s1", 81); s++) {
        int c2 = c != us; int v = view(s);
        float* base = f1 + c2 * 31 * 81;
        uint64_t w[2]; attackersRef(P, s, c, w, true);
        const uint8_t* side = c == us ? P.own : P.opp;
        for (int k = 1; k < 15; k++) {
            uint32_t a = 0; for (int q = 0; q < 81; q++) a |= (uint32_t)(w[q >= 63] >> (q >= 63 ? q - 63 : q)) & P.t[k][q] & 1;
            sym_assert_tag(bitsOf(base[(14 + k - 1) * 81 + v]) == oneIf(a), "attack plane", (c2 * 31 + 14 + k - 1) * 81 + v);
        }
        uint32_t g1 = 0, g2 = 0, g3 = 0;
        for (int q = 0; q < 81; q++) { uint32_t b = (w[q >= 63] >> (q >= 63 ? q - 63 : q)) & 1; g3 |= g2 & b; g2 |= g1 & b; g1 |= b; }
        sym_assert_tag(bitsOf(base[28 * 81 + v]) == oneIf(g1), "attack count plane 1", v);
        sym_assert_tag(bitsOf(base[29 * 81 + v]) == oneIf(g2), "attack count plane 2", v);
        sym_assert_tag(bitsOf(base[30 * 81 + v]) == oneIf(g3), "attack count plane 3", v);
    }
    if (what & 4) {
        for (int c = 0; c < 2; c++) {
            int c2 = c != us, o = 0;
            for (int i = 0; i < 7; i++) { for (int n = 0; n < cap[i]; n++) for (int s = 0; s < 81; s++) sym_assert_tag(bitsOf(f2[(c2 * 28 + o + n) * 81 + s]) == oneIf(P.hand[c][i] > n), "hand plane", c2 * 28 + o + n); o += cap[i]; }
        }
        for (int s = 0; s < 81; s++) sym_assert(bitsOf(f2[56 * 81 + s]) == oneIf(chk), "check plane");
    }
    sym_reach("end");
}
// entering-king planes: king inside the far three ranks, pieces still needed there (10), points still needed (28 / 27)
HARNESS h_nyufeat() {
    int us = sym_param("us", 0), part = sym_param("part", 0), only = sym_param("only", -1); anyBoard(P, us);
    if (only >= 0) for (int s = 0; s < 81; s++) if (only == 0 ? s % 9 > 2 : s % 9 < 6) P.pc[s] = Empty; // only this side's target zone is free
    if (only >= 0) for (int s = 0, k = 0; s < 81; s++) if (only == 0 ? s % 9 <= 2 : s % 9 >= 6) if (++k > sym_param("lim", 27)) P.pc[s] = Empty;
    preds(P); symHands(P); if (only >= 0) for (int& x : P.hand[!only]) x = 0;
    __dlshogi_use_nyugyoku_features(true);
    sym_assert(__dlshogi_get_features1_num() == 62 && __dlshogi_get_features2_num() == 119, "number of planes");
    canonical(B.pos, P, 0, 0);
    B.pos.st_->checkersBB = Bitboard(0, 0);
    for (auto& x : f2) x = 5; // a reused buffer
    sym_policy("forkidx", 40); B._dlshogi_make_input_features((char*)f1, (char*)f2); sym_policy("forkidx", 0);
    for (int c = 0; c < 2; c++) {
        int c2 = c != us; const uint8_t* side = c == us ? P.own : P.opp; const float* base = f2 + (57 + c2 * 31) * 81;
        uint32_t kings = 0; uint64_t w[2] = {0, 0}, g[2] = {0, 0};
        for (int s = 0; s < 81; s++) if (c == 0 ? s % 9 <= 2 : s % 9 >= 6) {
            kings += side[s] & P.t[T_K][s] & 1; int o = s >= 63 ? s - 63 : s;
            w[s >= 63] |= (uint64_t)(side[s] & 1) << o; g[s >= 63] |= (uint64_t)(side[s] & (P.t[T_B][s] | P.t[T_R][s] | P.t[13][s] | P.t[14][s]) & 1) << o;
        }
        uint32_t n = __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) - (kings & 1), big = __builtin_popcountll(g[0]) + __builtin_popcountll(g[1]);
        sym_assume(kings <= 1);
        const int* h = P.hand[c];
        int rest = 10 - (int)n, pts = (c == 0 ? 28 : 27) - (int)((n - big) + h[0] + h[1] + h[2] + h[3] + h[4] + (big + h[5] + h[6]) * 5);
        static const char* const over = "entering-king planes when more than enough";
        if (part == 0) for (int s = 0; s < 81; s++) sym_assert_tag(bitsOf(base[s]) == oneIf(kings), "king-has-entered plane", s);
        if (part == 0 || part == 1) for (int k = 0; k < 10; k++) {
            uint32_t ok = 1; for (int s = 0; s < 81; s++) ok &= bitsOf(base[(1 + k) * 81 + s]) == oneIf((rest < 0 ? 0 : rest) == k);
            sym_assert_tag(sym_or(ok, rest < 0), "pieces-needed planes", k); if (k == 0) sym_assert_tag(sym_or(ok, rest >= 0), over, 0);
        }
        if (part == 0 || part == 2) for (int k = 0; k < 20; k++) {
            uint32_t ok = 1; for (int s = 0; s < 81; s++) ok &= bitsOf(base[(11 + k) * 81 + s]) == oneIf((pts < 0 ? 0 : pts) == k);
            sym_assert_tag(sym_or(ok, pts < 0), "points-needed planes", k); if (k == 0) sym_assert_tag(sym_or(ok, pts >= 0), over, 1);
        }
    }
    sym_reach("end");
}
