// Position notations written down independently of the code under test.
#pragma once
#include "bg.h"
static const char* const usiCh[15] = {"", "P", "L", "N", "S", "B", "R", "G", "K", "+P", "+L", "+N", "+S", "+B", "+R"};
static const char* const csaCh[15] = {" * ", "FU", "KY", "KE", "GI", "KA", "HI", "KI", "OU", "TO", "NY", "NK", "NG", "UM", "RY"};
static void num(std::string& s, unsigned v) { if (v >= 10) num(s, v / 10); s.push_back((char)('0' + v % 10)); }
// the notation, written down independently
static NOINLINE std::string sfenRef(int turn, unsigned ply) {
    std::string s;
    for (int r = 0; r < 9; r++) {
        int e = 0;
        for (int f = 8; f >= 0; f--) {
            int c = pc[SQ(f, r)];
            if (!c) { e++; continue; }
            if (e) s.push_back((char)('0' + e)); e = 0;
            for (const char* q = usiCh[c & 15]; *q; q++) s.push_back(*q == '+' || c < 16 ? *q : (char)(*q + 32));
        }
        if (e) s.push_back((char)('0' + e));
        if (r < 8) s.push_back('/');
    }
    s += turn ? " w " : " b ";
    static const int order[7] = {6, 5, 4, 3, 2, 1, 0}; // R B G S N L P
    bool any = false;
    for (int c = 0; c < 2; c++) for (int i : order) if (hand[c][i]) { any = true; if (hand[c][i] > 1) num(s, hand[c][i]); s.push_back("PLNSGBR"[i] + (c ? 32 : 0)); }
    if (!any) s.push_back('-');
    s.push_back(' '); num(s, ply);
    return s;
}
static NOINLINE std::string csaRef(int turn) {
    std::string s;
    for (int r = 0; r < 9; r++) {
        s.push_back('P'); s.push_back((char)('1' + r));
        for (int f = 8; f >= 0; f--) { int c = pc[SQ(f, r)]; if (c) s.push_back(c < 16 ? '+' : '-'); s += csaCh[c & 15]; }
        s.push_back('\n');
    }
    static const char* const hn[7] = {"FU", "KY", "KE", "GI", "KI", "KA", "HI"};
    for (int c = 0; c < 2; c++) for (int i = 0; i < 7; i++) if (hand[c][i]) { s += c ? "P-" : "P+"; for (int k = 0; k < hand[c][i]; k++) { s += "00"; s += hn[i]; } s.push_back('\n'); }
    s += turn ? "-\n" : "+\n";
    return s;
}
static void textIs(const std::string& a, const std::string& b, const char* lab) {
    bool ok = a.size() == b.size(); if (ok) for (size_t i = 0; i < a.size(); i++) ok &= a[i] == b[i];
    sym_assert(ok, lab);
}
static int pieceOf(char c) { for (int i = 1; i < 9; i++) { if (c == usiCh[i][0]) return i; if (c == (char)(usiCh[i][0] + 32)) return i + 16; } return 0; }
static int rturn, rply;
static NOINLINE bool refParse(const std::string& s) {
    for (auto& x : pc) x = Empty; for (auto& h : hand) for (int& x : h) x = 0;
    size_t i = 0; int r = 0, f = 8; bool plus = false; auto at = [&](size_t k) -> char { return k < s.size() ? s[k] : 0; };
    for (;; i++) {
        char c = at(i);
        if (c == ' ' || c == '/') { if (plus || f != -1) return false; if (c == ' ') break; if (++r > 8) return false; f = 8; continue; }
        if (c == '+') { if (plus) return false; plus = true; continue; }
        if (c >= '1' && c <= '9') { if (plus) return false; f -= c - '0'; if (f < -1) return false; continue; }
        int p = pieceOf(c); if (!p || f < 0) return false;
        if (plus) { if ((p & 15) == T_G || (p & 15) == T_K) return false; p += 8; plus = false; }
        pc[SQ(f, r)] = (Piece)p; f--;
    }
    if (r != 8) return false;
    int kb = 0, kw = 0; for (auto x : pc) { kb += x == BKing; kw += x == WKing; } if (kb > 1 || kw > 1) return false;
    i++; char t = at(i); if (t == 'b') rturn = 0; else if (t == 'w') rturn = 1; else return false;
    if (at(i + 1) != ' ') return false; i += 2;
    if (at(i) == '-') i++;
    else for (bool any = false;; any = true) {
        int d = 0, nd = 0; for (; at(i) >= '0' && at(i) <= '9'; i++) { d = d * 10 + at(i) - '0'; if (++nd > 2 || d == 0) return false; }
        int p = pieceOf(at(i));
        if (!p) { if (nd || !any) return false; break; }
        int h = hpOf[p & 15]; if (h < 0 || hand[p >> 4][h]) return false;
        if (!nd) d = 1; if (d > total[h]) return false;
        hand[p >> 4][h] = d; i++;
    }
    if (at(i) != ' ') return false; i++;
    rply = 0; int nd = 0; for (; at(i) >= '0' && at(i) <= '9'; i++) { rply = rply * 10 + at(i) - '0'; if (++nd > 4) return false; }
    return nd && i == s.size();
}
static const char* const bgText[4] = {"lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1", "4k4/9/1+P7/9/9/9/9/6+b2/4K4 w 2R18p 123", "ln1g5/1r1s1k3/1p1p3p1/p1p3p2/7P1/P1PP+b1P2/1P2P4/L1+p1G1R1L/KN1G4L b SN2Pgs2np 80", "9/9/9/9/9/9/9/9/9 b R 7"};
// one path per character of the notation, one more for all others together
static const char alpha[] = "0123456789PLNSBRGKplnsbrgk+-/ bw";
static NOINLINE int pick6(const char* n, int cnt) { uint64_t x = sym_bits(n, 6); sym_assume(x < (uint64_t)cnt); for (int i = 0; i < cnt - 1; i++) if (x == (uint64_t)i) return i; return cnt - 1; }
static NOINLINE char anyChar(int i) {
    static char nm[] = "c0", nk[] = "k0"; nm[1] = nk[1] = '0' + i;
    int k = pick6(nk, 33); if (k < 32) return alpha[k];
    uint64_t c = sym_bits(nm, 8); for (int j = 0; j < 32; j++) sym_assume(c != (uint64_t)alpha[j]);
    return (char)c;
}
