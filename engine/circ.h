// Bit-vector circuits.
#pragma once
#include "core.h"
static inline Lit faS(Lit a, Lit b, Lit c) { return G.XOR(G.XOR(a, b), c); }
static inline Lit faC(Lit a, Lit b, Lit c) {
    if (isC(a)) return a == LT ? G.OR(b, c) : G.AND(b, c);
    if (isC(b)) return b == LT ? G.OR(a, c) : G.AND(a, c);
    if (isC(c)) return c == LT ? G.OR(a, b) : G.AND(a, b);
    return G.OR(G.AND(a, b), G.AND(c, G.XOR(a, b)));
}
static void cAdd(const Lit* a, const Lit* b, Lit cin, unsigned n, Lit* out) {
    Lit c = cin;
    for (unsigned i = 0; i < n; i++) { Lit x = a[i], y = b[i]; Lit s = faS(x, y, c); c = faC(x, y, c); out[i] = s; }
}
static void cSub(const Lit* a, const Lit* b, unsigned n, Lit* out) {
    Lit c = LT;
    for (unsigned i = 0; i < n; i++) { Lit x = a[i], y = NOT(b[i]); Lit s = faS(x, y, c); c = faC(x, y, c); out[i] = s; }
}
static void cMul(const Lit* a, const Lit* b, unsigned n, Lit* out) {
    // add shifted copies selected by the operand with more constant bits
    unsigned ca = 0, cb = 0;
    for (unsigned i = 0; i < n; i++) { ca += isC(a[i]); cb += isC(b[i]); }
    const Lit* sel = ca > cb ? a : b; const Lit* oth = ca > cb ? b : a;
    std::vector<Lit> acc(n, LF), t(n);
    for (unsigned i = 0; i < n; i++) {
        if (sel[i] == LF) continue;
        for (unsigned j = 0; j < n; j++) t[j] = j < i ? LF : G.AND(sel[i], oth[j - i]);
        cAdd(acc.data(), t.data(), LF, n, acc.data());
    }
    for (unsigned i = 0; i < n; i++) out[i] = acc[i];
}
static Lit cEq(const Lit* a, const Lit* b, unsigned n) {
    Lit r = LT;
    for (unsigned i = n; i-- > 0;) r = G.AND(NOT(G.XOR(a[i], b[i])), r);
    return r;
}
static Lit cZero(const Lit* a, unsigned n) {
    Lit r = LT;
    for (unsigned i = n; i-- > 0;) r = G.AND(NOT(a[i]), r);
    return r;
}
static Lit cUlt(const Lit* a, const Lit* b, unsigned n) {
    Lit r = LF;
    for (unsigned i = 0; i < n; i++) r = G.MUX(G.XOR(a[i], b[i]), b[i], r);
    return r;
}
static Lit cSlt(const Lit* a, const Lit* b, unsigned n) {
    std::vector<Lit> x(a, a + n), y(b, b + n);
    x[n - 1] = NOT(x[n - 1]); y[n - 1] = NOT(y[n - 1]);
    return cUlt(x.data(), y.data(), n);
}
static void cDivU(const Lit* a, const Lit* b, unsigned n, Lit* q, Lit* r) {
    // effective width reduction: skip leading constant zeros of the dividend
    std::vector<Lit> rem(n + 1, LF), bb(b, b + n), t(n + 1), qq(n, LF);
    bb.push_back(LF);
    unsigned top = n; while (top > 0 && a[top - 1] == LF) top--;
    for (unsigned i = top; i-- > 0;) {
        for (unsigned j = n; j > 0; j--) rem[j] = rem[j - 1];
        rem[0] = a[i];
        Lit ge = NOT(cUlt(rem.data(), bb.data(), n + 1));
        if (ge != LF) {
            cSub(rem.data(), bb.data(), n + 1, t.data());
            for (unsigned j = 0; j <= n; j++) rem[j] = G.MUX(ge, t[j], rem[j]);
        }
        qq[i] = ge;
    }
    if (q) for (unsigned i = 0; i < n; i++) q[i] = qq[i];
    if (r) for (unsigned i = 0; i < n; i++) r[i] = rem[i];
}
static void cNeg(const Lit* a, unsigned n, Lit* o) { std::vector<Lit> z(n, LF); cSub(z.data(), a, n, o); }
static void cDivS(const Lit* a, const Lit* b, unsigned n, Lit* q, Lit* r) {
    std::vector<Lit> na(n), nb(n), ua(n), ub(n), uq(n), ur(n), nq(n), nr(n);
    cNeg(a, n, na.data()); cNeg(b, n, nb.data());
    Lit sa = a[n - 1], sb = b[n - 1];
    for (unsigned i = 0; i < n; i++) { ua[i] = G.MUX(sa, na[i], a[i]); ub[i] = G.MUX(sb, nb[i], b[i]); }
    cDivU(ua.data(), ub.data(), n, uq.data(), ur.data());
    cNeg(uq.data(), n, nq.data()); cNeg(ur.data(), n, nr.data());
    Lit sq = G.XOR(sa, sb);
    for (unsigned i = 0; i < n; i++) { if (q) q[i] = G.MUX(sq, nq[i], uq[i]); if (r) r[i] = G.MUX(sa, nr[i], ur[i]); }
}
// kind: 0 shl, 1 lshr, 2 ashr
static void cShift(int kind, const Lit* a, const Lit* sh, unsigned n, Lit* out) {
    std::vector<Lit> cur(a, a + n), nx(n);
    Lit fill = kind == 2 ? a[n - 1] : LF;
    unsigned k = 0; Lit over = LF;
    for (; k < n; k++) {
        if ((1ULL << std::min(k, 63u)) >= n) { for (unsigned j = k; j < n; j++) over = G.OR(over, sh[j]); break; }
        if (sh[k] == LF) continue;
        unsigned d = 1u << k;
        for (unsigned i = 0; i < n; i++) {
            Lit m = kind == 0 ? (i >= d ? cur[i - d] : LF) : (i + d < n ? cur[i + d] : fill);
            nx[i] = G.MUX(sh[k], m, cur[i]);
        }
        cur = nx;
    }
    for (unsigned i = 0; i < n; i++) out[i] = G.MUX(over, fill, cur[i]);
}
static void cPop(const Lit* a, unsigned n, Lit* out, unsigned ow) {
    // adder tree over non-constant-zero bits
    std::vector<LV> v;
    for (unsigned i = 0; i < n; i++) if (a[i] != LF) v.push_back({a[i]});
    if (v.empty()) v.push_back({LF});
    while (v.size() > 1) {
        std::vector<LV> w;
        for (size_t i = 0; i + 1 < v.size(); i += 2) {
            size_t m = std::max(v[i].size(), v[i + 1].size()) + 1;
            LV x = v[i], y = v[i + 1]; x.resize(m, LF); y.resize(m, LF);
            LV s(m); cAdd(x.data(), y.data(), LF, m, s.data()); w.push_back(s);
        }
        if (v.size() & 1) w.push_back(v.back());
        v.swap(w);
    }
    for (unsigned i = 0; i < ow; i++) out[i] = i < v[0].size() ? v[0][i] : LF;
}
