// Sparse positions around an enemy king, two squares free, and a plain mate search over the legal move list.
#pragma once
#include "bg.h"
static int us, K, O, A, B_;
static bool deadAt(int c, int s) { return mustPro(c & 15, c >> 4, RK(s)); }
// a sparse concrete position around the enemy king (from the seed), two squares of it left free
static void around() {
    us = sym_param("us", 0); O = sym_param("ok", 4); K = sym_param("ks", 76); A = sym_param("a", 3); B_ = sym_param("b", 13);
    for (auto& x : pc) x = Empty;
    for (auto& h : hand) for (int& x : h) x = 0;
    pc[K] = (Piece)code(T_K, us); pc[O] = (Piece)code(T_K, !us);
    for (int i = 0; i < 7; i++) left_[i] = total[i] - (i < 5 ? 2 : 1);
    seed = (uint32_t)sym_param("seed", 1) * 7919u;
    int n = sym_param("np", 9), bat = sym_param("bat", 0);
    if (bat) { // an own slider behind square a as seen from the enemy king, more own pieces, few defenders in hand
        int df = FL(A) - FL(O), dr = RK(A) - RK(O);
        if (df == 0 || dr == 0 || df == dr || df == -dr) {
            int sf = (df > 0) - (df < 0), sr = (dr > 0) - (dr < 0), k = 1 + rnd() % 2, f = FL(A) + sf * k, r = RK(A) + sr * k;
            if (ON(f, r) && pc[SQ(f, r)] == Empty && SQ(f, r) != B_) { int t = sf && sr ? T_B : T_R; left_[hpOf[t]]--; pc[SQ(f, r)] = (Piece)(code(t, us) + (rnd() % 2 ? 8 : 0)); }
        }
    }
    for (int i = 0; i < n; i++) {
        int c = codes[1 + rnd() % 26], h = hpOf[c & 15], s; uint32_t r = rnd();
        if (bat && r % 3 == 0) c = (c & 15) | us << 4;
        if (r & 1) { int f = FL(O) + (int)(rnd() % 5) - 2, k = RK(O) + (int)(rnd() % 5) - 2; if (!ON(f, k)) continue; s = SQ(f, k); } else s = rnd() % 81;
        if (pc[s] != Empty || s == A || s == B_ || !left_[h] || deadAt(c, s)) continue;
        pc[s] = (Piece)c; left_[h]--;
    }
    for (int i = 0; i < 7; i++) for (int c = 0; c < 2; c++) if (left_[i] && rnd() % 4 == 0 && !(bat && c != us && i > 0 && rnd() % 8)) { hand[c][i]++; left_[i]--; }
}
// a position in which a distant check can be answered in about a hundred ways; one square in it is free
static void wide() {
    us = sym_param("us", 0); A = sym_param("a", 3); B_ = sym_param("b", 4);
    for (auto& x : pc) x = Empty;
    for (auto& h : hand) for (int& x : h) x = 0;
    static const char* rows[9] = {"4K4", "9", "9", "9", "2n1n1n2", "1+psgsgs+p1", "k8", "1+p+p+p+p+p+p+p1", "8R"};
    for (int r = 0; r < 9; r++) {
        int f = 8, pro = 0;
        for (const char* c = rows[r]; *c; c++) {
            if (*c == '+') { pro = 8; continue; }
            if (*c >= '1' && *c <= '9') { f -= *c - '0'; continue; }
            int t = 0, low = *c | 32; const char* n = " plnsbrgk"; while (n[t] != low) t++;
            int col = *c >= 'a', s = SQ(f, r); f--;
            if (us) { col = !col; s = 80 - s; }
            pc[s] = (Piece)(code(t, col) + pro); pro = 0;
            if (t == T_K) (col == us ? K : O) = s;
        }
    }
    for (int i = 0; i < 7; i++) hand[!us][i] = 1;
    if (us) { A = 80 - A; B_ = 80 - B_; }
}
static bool free2() { // false: not a position
    int a = codes[pick("pa", 27)], b = codes[pick("pb", 27)];
    if (sym_param("oa", 0) && a >= 16 != us) { if (a) return false; }
    if (deadAt(a, A) || deadAt(b, B_)) return false;
    pc[A] = (Piece)a; pc[B_] = (Piece)b;
    int cnt[7]; for (int i = 0; i < 7; i++) cnt[i] = hand[0][i] + hand[1][i];
    for (int s = 0; s < 81; s++) if (pc[s] != Empty && (pc[s] & 15) != T_K && ++cnt[hpOf[pc[s] & 15]] > total[hpOf[pc[s] & 15]]) return false;
    for (int c = 0; c < 2; c++) for (int f = 0; f < 9; f++) { int n = 0; for (int r = 0; r < 9; r++) n += pc[SQ(f, r)] == code(T_P, c); if (n > 1) return false; }
    pos.st_ = &pos.startState_; pos.turn_ = (Color)us; pos.gamePly_ = 1; pos.set(pc, hand);
    return !pos.attackersToIsAny((Color)us, (Square)O);
}
static NOINLINE bool isLegal(Move m) { MoveList<LegalAll> ml(pos); for (; !ml.end(); ++ml) if (ml.move().value() == m.value()) return true; return false; }
static NOINLINE bool mates(Move m) { StateInfo st; pos.doMove(m, st); bool r = pos.inCheck() && MoveList<LegalAll>(pos).size() == 0; pos.undoMove(m); return r; }
static NOINLINE bool anyMate() { CheckInfo ci(pos); for (MoveList<LegalAll> ml(pos); !ml.end(); ++ml) if (pos.moveGivesCheck(ml.move(), ci) && mates(ml.move())) return true; return false; }
static bool wins(int n);
static NOINLINE bool lost(int n) { // is the side to move, in check, mated within n plies (n even) whatever it does?
    if (!pos.inCheck()) return false;
    for (MoveList<LegalAll> ml(pos); !ml.end(); ++ml) { if (n == 0) return false; StateInfo st; Move m = ml.move(); pos.doMove(m, st); bool z = n >= 4 ? wins(n - 1) : anyMate(); pos.undoMove(m); if (!z) return false; }
    return true;
}
static NOINLINE void keep() { q = pos; }
// a forced mate within n plies by checks alone?
static NOINLINE bool wins(int n) { CheckInfo ci(pos); for (MoveList<LegalAll> ml(pos); !ml.end(); ++ml) { Move m = ml.move(); if (!pos.moveGivesCheck(m, ci)) continue; StateInfo st; pos.doMove(m, st); bool l = lost(n - 1); pos.undoMove(m); if (l) return true; } return false; }
