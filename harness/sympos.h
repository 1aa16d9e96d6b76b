// Symbolic positions and the reference rules of shogi (an independent formulation working on an array of piece codes).
#pragma once
#include "common.h"
// piece type numbers of the public encoding (also used by Python): pawn..rook, gold, king, then promoted
enum { T_P = 1, T_L, T_N, T_S, T_B, T_R, T_G, T_K, T_PP, T_PL, T_PN, T_PS, T_H, T_D };
struct SymPos {
    Piece pc[81];
    int hand[2][7];              // pawn lance knight silver gold bishop rook
    int us;                      // side to move
    uint8_t own[81], opp[81], emp[81];
    uint8_t t[15][81];           // t[k][sq]: piece of type k (any colour)
};
static inline int code(int pt, int color) { return pt | (color << 4); }
static inline int eqi(uint64_t a, uint64_t b) { return (a ^ b) == 0; }

// A free symbolic board.  Own king on ksq (81: none).  Opponent king anywhere (at most one) or nowhere.
static NOINLINE void symBoard(SymPos& p, int us, int ksq) {
    static char nm[] = "p00";
    p.us = us;
    for (int s = 0; s < 81; s++) {
        nm[1] = '0' + s / 10; nm[2] = '0' + s % 10;
        uint64_t v;
        if (s == ksq) v = code(T_K, us);
        else {
            v = sym_bits(nm, 5);
            sym_assume(((v & 15) != 15) & ((v != 16)));
            sym_assume(v != (uint64_t)code(T_K, us));
            int rk = RK(s);
            // no piece without a further move
            if (rk == 0) sym_assume((v != T_P) & (v != T_L) & (v != T_N));
            if (rk == 1) sym_assume(v != T_N);
            if (rk == 8) sym_assume((v != 16 + T_P) & (v != 16 + T_L) & (v != 16 + T_N));
            if (rk == 7) sym_assume(v != 16 + T_N);
        }
        p.pc[s] = (Piece)v;
    }
}
static NOINLINE void preds(SymPos& p) {
    for (int s = 0; s < 81; s++) {
        uint64_t v = p.pc[s], ty = v & 15, c = (v >> 4) & 1;
        int e = ty == 0;
        p.emp[s] = e; p.own[s] = (!e) & (c == (uint64_t)p.us); p.opp[s] = (!e) & (c != (uint64_t)p.us);
        for (int k = 1; k < 15; k++) p.t[k][s] = ty == (uint64_t)k;
    }
}
static NOINLINE void oneOppKing(const SymPos& p, int need) {
    uint32_t seen = 0, two = 0;
    for (int s = 0; s < 81; s++) { uint32_t k = p.t[T_K][s] & p.opp[s]; two |= seen & k; seen |= k; }
    sym_assume(two == 0);
    if (need) sym_assume(seen != 0);
}
static NOINLINE void symHands(SymPos& p) {
    static const int mx[7] = {18, 4, 4, 4, 4, 2, 2};
    static char nm[] = "h00";
    for (int c = 0; c < 2; c++) for (int k = 0; k < 7; k++) {
        nm[1] = '0' + c; nm[2] = '0' + k;
        uint64_t v = sym_bits(nm, k == 0 ? 5 : k < 5 ? 3 : 2);
        sym_assume(v <= (uint64_t)mx[k]);
        p.hand[c][k] = (int)v;
    }
}
// ------------------------------------------------------------------ geometry
static const int RDF[8] = {0, 0, -1, 1, -1, 1, -1, 1};
static const int RDR[8] = {-1, 1, 0, 0, -1, -1, 1, 1};
// does a piece of type k and colour c standing on (f,r) reach, in one step, the square offset (df,dr)?
static inline bool stepOK(int k, int c, int df, int dr) {
    if (c) dr = -dr; // now "forward" is dr == -1
    switch (k) {
    case T_P: return df == 0 && dr == -1;
    case T_N: return (df == 1 || df == -1) && dr == -2;
    case T_S: return (dr == -1 && df >= -1 && df <= 1) || (dr == 1 && (df == 1 || df == -1));
    case T_G: case T_PP: case T_PL: case T_PN: case T_PS:
        return (dr == -1 && df >= -1 && df <= 1) || (dr == 0 && (df == 1 || df == -1)) || (dr == 1 && df == 0);
    case T_K: case T_H: case T_D: return df >= -1 && df <= 1 && dr >= -1 && dr <= 1 && (df || dr);
    case T_L: return df == 0 && dr == -1;
    case T_B: return (df == 1 || df == -1) && (dr == 1 || dr == -1);
    case T_R: return ((df == 0) + (dr == 0)) == 1 && df >= -1 && df <= 1 && dr >= -1 && dr <= 1;
    }
    return false;
}
// may a piece of type k, colour c slide in direction d?
static inline bool slideOK(int k, int c, int d) {
    switch (k) {
    case T_L: return c == 0 ? d == 0 : d == 1;
    case T_B: case T_H: return d >= 4;
    case T_R: case T_D: return d < 4;
    }
    return false;
}
static inline bool canPro(int k) { return k >= T_P && k <= T_R; }
static inline bool zone(int c, int r) { return c == 0 ? r <= 2 : r >= 6; }
// must the piece promote (no further move) when arriving on rank r?
static inline bool mustPro(int k, int c, int r) { int rr = c == 0 ? r : 8 - r; return ((k == T_P || k == T_L) && rr == 0) || (k == T_N && rr <= 1); }

// Is (f,r)'s piece of colour `c` attacking along direction d at distance dist (square s, target reached by going d)?
// returns 0/1 possibly symbolic; tc selects the attackers' predicate array
static inline uint32_t rayAtt(const SymPos& p, const uint8_t* side, int c, int s, int d, int dist) {
    // the attacker stands on s; it reaches the target by moving in direction opposite to the scan direction d
    int od = d ^ 1; if (d >= 4) od = 11 - d;
    uint32_t a = 0;
    for (int k = 1; k < 15; k++) {
        bool ok = slideOK(k, c, od) || (dist == 1 && stepOK(k, c, RDF[od], RDR[od]));
        if (ok) a |= p.t[k][s];
    }
    return a & side[s];
}
// Is the square T attacked by colour c (side = predicate array of that colour), where
//   empt: square treated as empty, blk: square treated as occupied by a non-attacker (-1: none)?
static NOINLINE uint32_t attacked(const SymPos& p, int T, int c, int empt, int blk) {
    const uint8_t* side = c == p.us ? p.own : p.opp;
    int f = FL(T), r = RK(T);
    uint32_t res = 0;
    for (int d = 0; d < 8; d++) {
        uint32_t open = 1; int x = f, y = r;
        for (int dist = 1;; dist++) {
            x += RDF[d]; y += RDR[d];
            if (!ON(x, y)) break;
            int s = SQ(x, y);
            if (s == blk) break;
            if (s == empt) continue;
            res |= open & rayAtt(p, side, c, s, d, dist);
            open &= p.emp[s];
        }
    }
    int kr = c == 0 ? 2 : -2;
    for (int df = -1; df <= 1; df += 2) {
        int x = f + df, y = r + kr;
        if (!ON(x, y)) continue;
        int s = SQ(x, y);
        if (s == blk || s == empt) continue;
        res |= side[s] & p.t[T_N][s];
    }
    return res;
}
// piece k of colour p.us on `from` reaches `to` (path empty); 0 when geometrically impossible
static NOINLINE uint32_t reaches(const SymPos& p, int k, int c, int from, int to) {
    int df = FL(to) - FL(from), dr = RK(to) - RK(from);
    if (stepOK(k, c, df, dr)) return 1;
    for (int d = 0; d < 8; d++) {
        if (!slideOK(k, c, d)) continue;
        int x = FL(from), y = RK(from); uint32_t open = 1;
        for (;;) {
            x += RDF[d]; y += RDR[d];
            if (!ON(x, y)) break;
            int s = SQ(x, y);
            if (s == to) return open;
            open &= p.emp[s];
        }
    }
    return 0;
}
// A symbolic board with both kings on fixed squares (81: absent) and every other square free.
static NOINLINE void symBoard2(SymPos& p, int us, int own, int opp) {
    static char nm[] = "p00";
    p.us = us;
    for (int s = 0; s < 81; s++) {
        nm[1] = '0' + s / 10; nm[2] = '0' + s % 10;
        uint64_t v;
        if (s == own) v = code(T_K, us);
        else if (s == opp) v = code(T_K, !us);
        else {
            v = sym_bits(nm, 5);
            sym_assume(((v & 15) != 15) & (v != 16) & ((v & 15) != T_K));
            int rk = RK(s);
            if (rk == 0) sym_assume((v != T_P) & (v != T_L) & (v != T_N));
            if (rk == 1) sym_assume(v != T_N);
            if (rk == 8) sym_assume((v != 16 + T_P) & (v != 16 + T_L) & (v != 16 + T_N));
            if (rk == 7) sym_assume(v != 16 + T_N);
        }
        p.pc[s] = (Piece)v;
    }
}
static inline uint32_t bbBit(const Bitboard& b, int s) { return (uint32_t)((s < 63 ? b.p(0) >> s : b.p(1) >> (s - 63)) & 1); }
