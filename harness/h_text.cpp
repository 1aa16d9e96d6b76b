// Move notation: text -> move and move -> text for USI and CSA, for every text up to the length bound and every move.
#include "canon.h"
BASIC_INIT
static SymPos P; static Position pos;
// The legality test is property P04's subject; here it is an unknown bit L for the one move the reader asks about.
static uint32_t L, asked, got;
extern "C" __attribute__((used)) bool stub__ZNK8Position17moveIsPseudoLegalILb0EEEb4Move(const Position* p, Move m) {
    uint32_t v = m.value(), f = v >> 7 & 127; asked = 1; got = v;
    return (L & !((f >= 88))) & 1; // pieces other than the seven kinds are never in hand
}
extern "C" __attribute__((used)) bool stub__ZNK8Position22pseudoLegalMoveIsLegalILb0ELb0EEEb4MoveRK8Bitboard(const Position* p, Move m, const Bitboard& b) { return L & 1; }
static uint64_t ch[16];
static uint32_t dig(uint64_t c) { return (c >= '1') & (c <= '9'); }
static uint32_t let(uint64_t c) { return (c >= 'a') & (c <= 'i'); }
static int fixedChar(int i) { return i == 0 ? sym_param("c0", 0) : i == 4 ? sym_param("c4", 0) : 0; }
static std::string text(int n) {
    std::string s((size_t)n, 'x'); static char nm[] = "c0";
    for (int i = 0; i < n; i++) { nm[1] = '0' + i; ch[i] = fixedChar(i) > 0 ? (uint64_t)fixedChar(i) : sym_bits(nm, 8); sym_assume(ch[i] != 0);
        if (fixedChar(i) == -1) sym_assume(!dig(ch[i])); // the remaining cases: not a digit / not a first letter of a piece name
        if (fixedChar(i) == -2) { uint32_t is = 0; for (const char* q = "FKGHOTNUR"; *q; q++) is |= ch[i] == (uint64_t)*q; sym_assume(!is); } s[i] = (char)ch[i]; }
    return s;
}
static uint32_t pieceAt(uint32_t sq) { uint32_t r = 0; for (int s = 0; s < 81; s++) r |= (uint32_t)sym_ite(sq == (uint32_t)s, (uint32_t)P.pc[s] & 15, 0); return r; }
static void setup() {
    int us = sym_param("us", 0);
    anyBoard(P, us); preds(P); symHands(P); canonical(pos, P, 76, 4);
    L = sym_bits("legal", 1);
}
static void verdict(uint32_t denotes, uint32_t m, uint32_t res, const char* lab) {
    if (sym_native()) { // the real legality test decides
        bool ok = false;
        if (denotes) { Move mm(m); ok = pos.moveIsPseudoLegal<false>(mm) && pos.pseudoLegalMoveIsLegal<false, false>(mm, pos.pinnedBB()); }
        sym_assert(res == (ok ? m : 0), lab);
    } else sym_assert(res == (uint32_t)sym_ite(denotes & L & 1, m, 0), lab);
}
HARNESS h_usiread() {
    int n = sym_param("n", 4); setup();
    std::string s = text(n);
    uint32_t res = usiToMove(pos, s).value();
    uint32_t den = 0, m = 0;
    if (n == 4 || n == 5) {
        static const char up[] = "PLNSBRG";
        uint32_t sq1 = dig(ch[0]) & let(ch[1]), sq2 = dig(ch[2]) & let(ch[3]);
        uint32_t f = (uint32_t)((ch[0] - '1') * 9 + ch[1] - 'a'), t = (uint32_t)((ch[2] - '1') * 9 + ch[3] - 'a');
        uint32_t bd = sq1 & sq2 & (n == 4 ? 1 : ch[4] == '+');
        uint32_t bm = t | f << 7 | (n == 5 ? 0x4000 : 0) | pieceAt(f) << 16 | pieceAt(t) << 20;
        uint32_t dd = 0, dm = 0;
        if (n == 4) for (int i = 0; i < 7; i++) { uint32_t is = (ch[0] == (uint64_t)up[i]) | (ch[0] == (uint64_t)up[i] + 32); dd |= is; dm |= (uint32_t)sym_ite(is, 81 + i, 0); }
        dd &= (ch[1] == '*') & sq2;
        den = bd | dd; m = (uint32_t)sym_ite(dd & 1, t | dm << 7, bm);
    }
    verdict(den, m, res, "reading a USI move");
    sym_reach("end");
}
static const char* const csa[15] = {"", "FU", "KY", "KE", "GI", "KA", "HI", "KI", "OU", "TO", "NY", "NK", "NG", "UM", "RY"};
HARNESS h_csaread() {
    int n = sym_param("n", 6); setup();
    std::string s = text(n);
    uint32_t res = csaToMove(pos, s).value();
    uint32_t den = 0, m = 0;
    if (n == 6) {
        uint32_t pt = 0, isp = 0;
        for (int k = 1; k < 15; k++) { uint32_t is = (ch[4] == (uint64_t)csa[k][0]) & (ch[5] == (uint64_t)csa[k][1]); isp |= is; pt |= (uint32_t)sym_ite(is, k, 0); }
        uint32_t sq1 = dig(ch[0]) & dig(ch[1]), sq2 = dig(ch[2]) & dig(ch[3]) & isp;
        uint32_t f = (uint32_t)((ch[0] - '1') * 9 + ch[1] - '1'), t = (uint32_t)((ch[2] - '1') * 9 + ch[3] - '1');
        uint32_t from = pieceAt(f), pro = from + 8 == pt;
        uint32_t bd = sq1 & sq2 & ((from == pt) | pro);
        uint32_t bm = t | f << 7 | (uint32_t)sym_ite(pro, 0x4000, 0) | from << 16 | pieceAt(t) << 20;
        uint32_t dd = (ch[0] == '0') & (ch[1] == '0') & sq2 & (pt < 8);
        den = bd | dd; m = (uint32_t)sym_ite(dd & 1, t | (80 + pt) << 7, bm);
    }
    verdict(den, m, res, "reading a CSA move");
    sym_reach("end");
}
// move -> text.  Origin fixed per run (81..87: drops)
HARNESS h_write() {
    int from = sym_param("from", 0), pro = sym_param("pro", 0);
    uint64_t to = sym_bits("to", 7), k = sym_bits("k", 4), cap = sym_bits("cap", 4);
    sym_assume(to < 81); sym_assume(cap < 15);
    if (pro) sym_assume((k >= 1) & (k <= 6)); else sym_assume((k >= 1) & (k < 15));
    uint32_t v = from >= 81 ? (uint32_t)(to | from << 7) : (uint32_t)(to | from << 7 | (pro ? 0x4000 : 0) | k << 16 | cap << 20);
    if (from < 81) sym_assume(to != (uint64_t)from);
    uint64_t tf = 0, tr = 0;
    for (int s = 0; s < 81; s++) { tf |= sym_ite(to == (uint64_t)s, FL(s), 0); tr |= sym_ite(to == (uint64_t)s, RK(s), 0); }
    sym_policy("forkidx", 81); std::string u = Move(v).toUSI(), c = Move(v).toCSA(); sym_policy("forkidx", 0);
    uint32_t ok = 1;
    if (from < 81) {
        sym_assert((int)u.size() == (pro ? 5 : 4), "length of USI text");
        ok &= ((uint8_t)u[0] == '1' + FL(from)) & ((uint8_t)u[1] == 'a' + RK(from));
        if (pro) ok &= u[4] == '+';
    } else { sym_assert(u.size() == 4, "length of USI text"); ok &= (u[0] == "PLNSBRG"[from - 81]) & (u[1] == '*'); }
    ok &= ((uint8_t)u[2] == '1' + tf) & ((uint8_t)u[3] == 'a' + tr);
    sym_assert(ok & 1, "USI text of a move");
    sym_assert(c.size() == 6, "length of CSA text");
    uint32_t cc = from < 81 ? ((uint8_t)c[0] == '1' + FL(from)) & ((uint8_t)c[1] == '1' + RK(from)) : (c[0] == '0') & (c[1] == '0');
    cc &= ((uint8_t)c[2] == '1' + tf) & ((uint8_t)c[3] == '1' + tr);
    uint64_t pt = from < 81 ? k + (pro ? 8 : 0) : from - 80; uint32_t same = 0;
    for (int q = 1; q < 15; q++) same |= (pt == (uint64_t)q) & (c[4] == csa[q][0]) & (c[5] == csa[q][1]);
    sym_assert(cc & same & 1, "CSA text of a move");
    sym_reach("end");
}
