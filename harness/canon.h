// A position object holding a given (symbolic) board, built in the canonical representation: used where the property is
// about what is computed from a position, so that the solver need not see through the setters (those are P17's subject).
#pragma once
#include "sympos.h"
static const int hpOf[15] = {-1, 0, 1, 2, 3, 5, 6, 4, -1, 0, 1, 2, 3, 5, 6}; // hand index of a captured piece
static const int dropPT[7] = {T_P, T_L, T_N, T_S, T_G, T_B, T_R};
static Bitboard bbFrom(const uint8_t* e) { uint64_t w[2] = {0, 0}; for (int s = 0; s < 81; s++) w[s >= 63] |= (uint64_t)(e[s] & 1) << (s >= 63 ? s - 63 : s); return Bitboard(w[0], w[1]); }
static NOINLINE void canonical(Position& p, const SymPos& S, int ownK, int oppK) {
    p.st_ = &p.startState_;
    for (int k = 1; k < 15; k++) p.byTypeBB_[k] = bbFrom(S.t[k]);
    p.byColorBB_[S.us] = bbFrom(S.own); p.byColorBB_[!S.us] = bbFrom(S.opp);
    p.byTypeBB_[0] = p.byColorBB_[0] | p.byColorBB_[1];
    p.goldsBB_ = p.bbOf(Gold, ProPawn, ProLance, ProKnight, ProSilver);
    for (int s = 0; s < 81; s++) p.piece_[s] = S.pc[s];
    for (int c = 0; c < 2; c++) { p.hand_[c].set(0); for (int i = 0; i < 7; i++) p.hand_[c].orEqual(S.hand[c][i], (HandPiece)i); }
    p.kingSquare_[S.us] = (Square)ownK; p.kingSquare_[!S.us] = (Square)oppK;
    p.turn_ = (Color)S.us; p.st_->hand = p.hand_[S.us]; p.gamePly_ = 1;
}
// every piece of colour c attacking square K, as bits (kings included when withKing)
static NOINLINE void attackersRef(const SymPos& p, int K, int c, uint64_t w[2], bool withKing) {
    const uint8_t* side = c == p.us ? p.own : p.opp;
    w[0] = w[1] = 0;
    for (int d = 0; d < 8; d++) {
        uint32_t open = 1; int x = FL(K), y = RK(K);
        for (int dist = 1;; dist++) {
            x += RDF[d]; y += RDR[d]; if (!ON(x, y)) break;
            int s = SQ(x, y);
            uint64_t a = open & rayAtt(p, side, c, s, d, dist) & 1;
            if (!withKing) a &= !p.t[T_K][s] & 1;
            w[s >= 63] |= a << (s >= 63 ? s - 63 : s);
            open &= p.emp[s];
        }
    }
    int kr = c == 0 ? 2 : -2;
    for (int df = -1; df <= 1; df += 2) { int x = FL(K) + df, y = RK(K) + kr; if (ON(x, y)) { int s = SQ(x, y); w[s >= 63] |= (uint64_t)(side[s] & p.t[T_N][s] & 1) << (s >= 63 ? s - 63 : s); } }
}
// any board at all: 81 free piece codes
static NOINLINE void anyBoardExcept(SymPos& p, int us, int skip) {
    static char nm[] = "p00";
    p.us = us;
    for (int s = 0; s < 81; s++) {
        if (s == skip) continue;
        nm[1] = '0' + s / 10; nm[2] = '0' + s % 10;
        uint64_t v = sym_bits(nm, 5);
        sym_assume(((v & 15) != 15) & (v != 16));
        p.pc[s] = (Piece)v;
    }
}
static NOINLINE void anyBoard(SymPos& p, int us) { anyBoardExcept(p, us, 81); }
// any board with one piece code fixed
static NOINLINE void anyBoard2(SymPos& p, int us, int oppKing, int type) {
    anyBoardExcept(p, us, oppKing); p.pc[oppKing] = (Piece)code(type, !us);
}
