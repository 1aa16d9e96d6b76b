// And-inverter graph with structural hashing and local two-level simplification,
// plus bit-vector arithmetic circuits on top of it.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <algorithm>
#include <cstring>
#include <string>
#include <unordered_map>

typedef uint32_t Lit;
static const Lit LF = 0, LT = 1;
static inline Lit NOT(Lit a) { return a ^ 1; }
static inline bool isC(Lit a) { return a < 2; }

struct Node { Lit a, b; };   // variables: a == VARMARK, b == variable index
static const Lit VARMARK = 0xffffffffu;

struct Aig {
    std::vector<Node> n;
    std::vector<uint32_t> tab;
    uint64_t mask = 0;
    uint64_t cnt = 0;
    uint32_t nvars = 0;
    std::vector<uint32_t> varNode; // var index -> node
    // Groups: the bits (at most 8) of one small input.  A node whose support lies in one group carries its truth table
    // and is canonicalised modulo the group's care set (the values the assumptions made so far allow).
    struct TT { uint64_t w[4]; bool operator==(const TT& o) const { return w[0] == o.w[0] && w[1] == o.w[1] && w[2] == o.w[2] && w[3] == o.w[3]; } };
    struct TTH { size_t operator()(const TT& t) const { uint64_t x = t.w[0] * 0x9e3779b97f4a7c15ULL ^ (t.w[1] + 0x7f4a7c15) * 0xbf58476d1ce4e5b9ULL; x ^= (t.w[2] + 0x133111eb) * 0x94d049bb133111ebULL ^ t.w[3] * 0xd6e8feb86659fd93ULL; return x ^ x >> 31; } };
    struct Group { TT care; std::unordered_map<TT, Lit, TTH> tab; std::vector<uint32_t> nodes; };
    std::vector<Group> groups;
    struct GN { int g; TT t; };
    std::vector<GN> gn;
    std::vector<int32_t> gi; // node -> index in gn or -1
    inline int gof(uint32_t id) const { return id < gi.size() ? gi[id] : -1; }
    void setG(uint32_t id, int g, const TT& t) { if (gi.size() <= id) gi.resize(std::max<size_t>(id + 1, gi.size() * 2), -1); gi[id] = gn.size(); gn.push_back({g, t}); groups[g].nodes.push_back(id); }
    int newGroup(const std::vector<Lit>& bits) {
        int g = groups.size(); groups.emplace_back(); TT c; unsigned k = bits.size();
        for (int i = 0; i < 4; i++) { c.w[i] = 0; for (int b = 0; b < 64; b++) if (i * 64 + b < (1 << k)) c.w[i] |= 1ULL << b; }
        groups[g].care = c;
        for (unsigned j = 0; j < k; j++) { TT t; for (int i = 0; i < 4; i++) { t.w[i] = 0; for (int b = 0; b < 64; b++) { int m = i * 64 + b; if (m < (1 << k) && (m >> j & 1)) t.w[i] |= 1ULL << b; } } setG(bits[j] >> 1, g, t); groups[g].tab[t] = bits[j]; }
        return g;
    }
    // narrow the care set of a literal's group (called for assumptions)
    void narrow(Lit l) {
        int x = gof(l >> 1); if (x < 0) return;
        int g = gn[x].g; Group& gr = groups[g];
        for (int i = 0; i < 4; i++) gr.care.w[i] &= (l & 1) ? ~gn[x].t.w[i] : gn[x].t.w[i];
        gr.tab.clear();
        for (uint32_t id : gr.nodes) { TT t = gn[gi[id]].t; for (int i = 0; i < 4; i++) t.w[i] &= gr.care.w[i]; gr.tab.emplace(t, id << 1); }
    }
    Lit groupAnd(Lit a, Lit b, int x, int y) {
        int g = gn[x].g; Group& gr = groups[g]; TT t, u; bool z = true, o = true;
        for (int i = 0; i < 4; i++) { uint64_t p = gn[x].t.w[i], q = gn[y].t.w[i]; if (a & 1) p = ~p; if (b & 1) q = ~q; t.w[i] = p & q & gr.care.w[i]; u.w[i] = ~t.w[i] & gr.care.w[i]; if (t.w[i]) z = false; if (u.w[i]) o = false; }
        if (z) return LF;
        if (o) return LT;
        auto it = gr.tab.find(t); if (it != gr.tab.end()) return it->second;
        it = gr.tab.find(u); if (it != gr.tab.end()) return NOT(it->second);
        uint32_t before = n.size(); Lit r = raw(a, b);
        if ((r >> 1) >= before || gof(r >> 1) < 0) { setG(r >> 1, g, t); gr.tab.emplace(t, r); }
        return r;
    }
    Aig() {
        n.reserve(1 << 22);
        n.push_back({0, 0});
        tab.assign(1 << 22, 0);
        mask = tab.size() - 1;
    }
    static inline uint64_t h(Lit a, Lit b) {
        uint64_t x = ((uint64_t)a << 32) | b;
        x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 32; x *= 0x94d049bb133111ebULL; x ^= x >> 29;
        return x;
    }
    void grow() {
        std::vector<uint32_t> t(tab.size() * 2, 0);
        uint64_t m = t.size() - 1;
        for (uint32_t id : tab) if (id) {
            uint64_t i = h(n[id].a, n[id].b) & m;
            while (t[i]) i = (i + 1) & m;
            t[i] = id;
        }
        tab.swap(t); mask = m;
    }
    Lit var() {
        if (n.size() > 0x7ffffff0u) { fprintf(stderr, "AIG overflow\n"); exit(4); }
        uint32_t id = n.size();
        n.push_back({VARMARK, nvars++});
        varNode.push_back(id);
        return id << 1;
    }
    inline bool isVar(uint32_t id) const { return n[id].a == VARMARK; }
    inline bool isAndNode(uint32_t id) const { return id && n[id].a != VARMARK; }
    Lit raw(Lit a, Lit b) {
        if (a > b) std::swap(a, b);
        uint64_t i = h(a, b) & mask;
        while (tab[i]) {
            const Node& x = n[tab[i]];
            if (x.a == a && x.b == b) return tab[i] << 1;
            i = (i + 1) & mask;
        }
        if (n.size() > 0x7ffffff0u) { fprintf(stderr, "AIG overflow\n"); exit(4); }
        uint32_t id = n.size();
        n.push_back({a, b});
        tab[i] = id;
        if (++cnt * 2 > tab.size()) grow();
        return id << 1;
    }
    Lit AND(Lit a, Lit b, int d = 0) {
        if (a > b) std::swap(a, b);
        if (a == LF) return LF;
        if (a == LT) return b;
        if (a == b) return a;
        if (a == NOT(b)) return LF;
        { int x = gof(a >> 1), y = x < 0 ? -1 : gof(b >> 1); if (y >= 0 && gn[x].g == gn[y].g) return groupAnd(a, b, x, y); }
        if (d < 4) {
            for (int k = 0; k < 2; k++) {
                Lit p = k ? b : a, q = k ? a : b;
                uint32_t pn = p >> 1;
                if (isAndNode(pn)) {
                    Lit x = n[pn].a, y = n[pn].b;
                    if (!(p & 1)) {
                        if (q == x || q == y) return p;
                        if (q == NOT(x) || q == NOT(y)) return LF;
                    } else {
                        if (q == NOT(x) || q == NOT(y)) return q;
                        if (q == x) return AND(x, NOT(y), d + 1);
                        if (q == y) return AND(y, NOT(x), d + 1);
                    }
                }
            }
            uint32_t an = a >> 1, bn = b >> 1;
            if (isAndNode(an) && isAndNode(bn)) {
                Lit x = n[an].a, y = n[an].b, u = n[bn].a, v = n[bn].b;
                if (!(a & 1) && !(b & 1)) {
                    if (x == NOT(u) || x == NOT(v) || y == NOT(u) || y == NOT(v)) return LF;
                } else if ((a & 1) && (b & 1)) {
                    if (x == NOT(u) && y == v) return NOT(y);
                    if (x == NOT(v) && y == u) return NOT(y);
                    if (y == NOT(u) && x == v) return NOT(x);
                    if (y == NOT(v) && x == u) return NOT(x);
                } else {
                    if (a & 1) { std::swap(a, b); std::swap(x, u); std::swap(y, v); }
                    // a = x&y , b = !(u&v)
                    if (u == NOT(x) || u == NOT(y) || v == NOT(x) || v == NOT(y)) return a;
                    if (u == x || u == y) return AND(a, NOT(v), d + 1);
                    if (v == x || v == y) return AND(a, NOT(u), d + 1);
                }
            }
        }
        return raw(a, b);
    }
    inline Lit OR(Lit a, Lit b) { return NOT(AND(NOT(a), NOT(b))); }
    Lit XOR(Lit a, Lit b) {
        if (isC(a)) return a == LF ? b : NOT(b);
        if (isC(b)) return b == LF ? a : NOT(a);
        if (a == b) return LF;
        if (a == NOT(b)) return LT;
        // normalise the signs so that equal functions share structure
        Lit s = (a & 1) ^ (b & 1);
        a &= ~1u; b &= ~1u;
        Lit r = OR(AND(a, NOT(b)), AND(NOT(a), b));
        return r ^ s;
    }
    Lit MUX(Lit s, Lit a, Lit b) { // s ? a : b
        if (s == LT) return a;
        if (s == LF) return b;
        if (a == b) return a;
        if (s & 1) { s ^= 1; std::swap(a, b); }
        if (a == s) a = LT; else if (a == NOT(s)) a = LF;
        if (b == s) b = LF; else if (b == NOT(s)) b = LT;
        if (a == b) return a;
        if (a == LT) return OR(s, b);
        if (a == LF) return AND(NOT(s), b);
        if (b == LF) return AND(s, a);
        if (b == LT) return OR(NOT(s), a);
        if (a == NOT(b)) return XOR(s, b);
        // cofactor one level: if b == AND(!s, x) etc. is handled by AND rules
        Lit r = OR(AND(s, a), AND(NOT(s), b));
        return r;
    }
};

extern Aig G;
typedef std::vector<Lit> LV;
