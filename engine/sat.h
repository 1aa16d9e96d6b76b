// SAT back end: MiniSat (incremental, lazy cone encoding) with kissat as fallback for hard queries.
#pragma once
#include "aig.h"
#include <minisat/core/Solver.h>
#include <unordered_map>
#include <unordered_set>
#include <unistd.h>
#include <sys/wait.h>
#include <time.h>
static inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Sat {
    Minisat::Solver* S = nullptr;
    std::vector<int> nv; // node -> sat var (or -1)
    double time = 0; uint64_t queries = 0, kissats = 0, conflicts = 0;
    int64_t budget = 30000;
    double hardLimit = 300; double deadline = 0;
    std::vector<uint8_t> model; // by AIG var index
    Sat() { reset(); }
    void reset() { delete S; S = new Minisat::Solver(); nv.clear(); }
    Minisat::Lit enc(Lit l) {
        uint32_t id = l >> 1;
        if (nv.size() <= id) nv.resize(std::max<size_t>(id + 1, G.n.size()), -1);
        if (nv[id] < 0) {
            std::vector<uint32_t> st{id};
            while (!st.empty()) {
                uint32_t x = st.back();
                if (nv[x] >= 0) { st.pop_back(); continue; }
                if (x == 0) { nv[x] = S->newVar(); S->addClause(~Minisat::mkLit(nv[x])); st.pop_back(); continue; }
                if (G.isVar(x)) { nv[x] = S->newVar(); st.pop_back(); continue; }
                uint32_t p = G.n[x].a >> 1, q = G.n[x].b >> 1;
                bool rdy = true;
                if (nv[p] < 0) { st.push_back(p); rdy = false; }
                if (nv[q] < 0) { st.push_back(q); rdy = false; }
                if (!rdy) continue;
                nv[x] = S->newVar();
                Minisat::Lit o = Minisat::mkLit(nv[x]), a = Minisat::mkLit(nv[p], G.n[x].a & 1), b = Minisat::mkLit(nv[q], G.n[x].b & 1);
                S->addClause(~o, a); S->addClause(~o, b); S->addClause(o, ~a, ~b);
                st.pop_back();
            }
        }
        return Minisat::mkLit(nv[id], l & 1);
    }
    // returns 1 sat, 0 unsat, -1 unknown
    int solve(const std::vector<Lit>& as, bool wantModel = true, bool hard = true) {
        double t0 = now();
        queries++;
        for (Lit l : as) if (l == LF) { time += now() - t0; return 0; }
        Minisat::vec<Minisat::Lit> mv;
        for (Lit l : as) if (l != LT) mv.push(enc(l));
        uint64_t c0 = S->conflicts;
        S->setConfBudget(budget);
        Minisat::lbool r = S->solveLimited(mv);
        conflicts += S->conflicts - c0;
        int res = r == Minisat::lbool((uint8_t)0) ? 1 : r == Minisat::lbool((uint8_t)1) ? 0 : -1;
        if (res == 1 && wantModel) {
            model.assign(G.nvars, 0);
            for (uint32_t v = 0; v < G.nvars; v++) {
                uint32_t nd = G.varNode[v];
                if (nd < nv.size() && nv[nd] >= 0) model[v] = S->modelValue(nv[nd]) == Minisat::lbool((uint8_t)0);
            }
        }
        if (res == -1 && hard) res = kissat(as);
        time += now() - t0;
        return res;
    }
    // Small-cone query in a fresh solver; the assumptions (conjuncts) are added lazily, when a candidate model violates one.
    // returns 1 / 0 / -1 (give up: use the general path)
    uint64_t lazyQ = 0, lazyAdded = 0;
    struct Mini {
        Minisat::Solver S; std::unordered_map<uint32_t, int> v;
        Minisat::Lit enc(Lit l) {
            std::vector<uint32_t> st{l >> 1};
            while (!st.empty()) {
                uint32_t x = st.back();
                if (v.count(x)) { st.pop_back(); continue; }
                if (x == 0) { int y = S.newVar(); v[x] = y; S.addClause(~Minisat::mkLit(y)); st.pop_back(); continue; }
                if (G.isVar(x)) { v[x] = S.newVar(); st.pop_back(); continue; }
                uint32_t p = G.n[x].a >> 1, q = G.n[x].b >> 1; bool r = true;
                if (!v.count(p)) { st.push_back(p); r = false; }
                if (!v.count(q)) { st.push_back(q); r = false; }
                if (!r) continue;
                int y = S.newVar(); v[x] = y;
                Minisat::Lit o = Minisat::mkLit(y), a = Minisat::mkLit(v[p], G.n[x].a & 1), b = Minisat::mkLit(v[q], G.n[x].b & 1);
                S.addClause(~o, a); S.addClause(~o, b); S.addClause(o, ~a, ~b);
                st.pop_back();
            }
            return Minisat::mkLit(v[l >> 1], l & 1);
        }
    };
    size_t coneSize(Lit l, size_t lim) {
        std::unordered_set<uint32_t> sn; std::vector<uint32_t> st{l >> 1};
        while (!st.empty()) { uint32_t x = st.back(); st.pop_back(); if (!x || !sn.insert(x).second) continue; if (sn.size() > lim) return sn.size(); if (G.isVar(x)) continue; st.push_back(G.n[x].a >> 1); st.push_back(G.n[x].b >> 1); }
        return sn.size();
    }
    std::vector<uint32_t> evStamp; std::vector<uint8_t> evVal; uint32_t evCur = 0;
    bool evalModel(Lit l) {
        std::vector<uint32_t> st{l >> 1};
        while (!st.empty()) {
            uint32_t x = st.back();
            if (evStamp[x] == evCur) { st.pop_back(); continue; }
            if (x == 0) { evStamp[x] = evCur; evVal[x] = 0; continue; }
            if (G.isVar(x)) { evStamp[x] = evCur; evVal[x] = model[G.n[x].b]; continue; }
            uint32_t p = G.n[x].a >> 1, q = G.n[x].b >> 1;
            if (evStamp[p] == evCur) {
                bool pv = evVal[p] ^ (G.n[x].a & 1);
                if (!pv) { evStamp[x] = evCur; evVal[x] = 0; continue; }
                if (evStamp[q] == evCur) { evStamp[x] = evCur; evVal[x] = evVal[q] ^ (G.n[x].b & 1); continue; }
                st.push_back(q); continue;
            }
            st.push_back(p);
        }
        return evVal[l >> 1] ^ (l & 1);
    }
    int solveLazy(const std::vector<Lit>& conj, Lit goal, int64_t confLimit) {
        double t0 = now(); queries++; lazyQ++;
        Mini m; m.S.addClause(m.enc(goal));
        std::vector<uint8_t> in(conj.size(), 0); int res = -1;
        for (int round = 0; round < 400; round++) {
            if ((int64_t)m.S.conflicts >= 2 * confLimit) break; // the general path takes over
            m.S.setConfBudget(confLimit);
            Minisat::lbool r = m.S.solveLimited(Minisat::vec<Minisat::Lit>());
            if (r == Minisat::lbool((uint8_t)1)) { res = 0; break; }
            if (!(r == Minisat::lbool((uint8_t)0))) break;
            model.assign(G.nvars, 0);
            for (auto& kv : m.v) if (kv.first && G.isVar(kv.first)) model[G.n[kv.first].b] = m.S.modelValue(kv.second) == Minisat::lbool((uint8_t)0);
            if (evStamp.size() < G.n.size()) { evStamp.resize(G.n.size()); evVal.resize(G.n.size()); }
            evCur++;
            size_t add = 0;
            for (size_t i = 0; i < conj.size(); i++) if (!in[i] && !evalModel(conj[i])) { in[i] = 1; add++; lazyAdded++; m.S.addClause(m.enc(conj[i])); if (add >= 40) break; }
            if (!add) { res = 1; break; }
        }
        conflicts += m.S.conflicts; time += now() - t0;
        return res;
    }
    int kissat(const std::vector<Lit>& as) {
        kissats++;
        double lim = hardLimit; if (deadline > 0) lim = std::min(lim, deadline - now()); if (lim < 1) return -1;
        // cone-only CNF
        std::vector<uint32_t> order; std::vector<uint32_t> st; std::unordered_map<uint32_t, int> id;
        for (Lit l : as) st.push_back(l >> 1);
        std::vector<std::string> cl;
        while (!st.empty()) {
            uint32_t x = st.back();
            if (id.count(x)) { st.pop_back(); continue; }
            if (x == 0 || G.isVar(x)) { id[x] = id.size() + 1; order.push_back(x); st.pop_back(); continue; }
            uint32_t p = G.n[x].a >> 1, q = G.n[x].b >> 1; bool r = true;
            if (!id.count(p)) { st.push_back(p); r = false; }
            if (!id.count(q)) { st.push_back(q); r = false; }
            if (!r) continue;
            id[x] = id.size() + 1; order.push_back(x); st.pop_back();
        }
        char fn[64]; snprintf(fn, sizeof fn, "/tmp/symq.%d.cnf", getpid());
        FILE* f = fopen(fn, "w");
        size_t nc = as.size();
        for (uint32_t x : order) nc += x == 0 ? 1 : G.isVar(x) ? 0 : 3;
        fprintf(f, "p cnf %zu %zu\n", id.size(), nc);
        auto L = [&](Lit l) { int v = id[l >> 1]; return (l & 1) ? -v : v; };
        for (uint32_t x : order) {
            if (x == 0) fprintf(f, "-%d 0\n", id[x]);
            else if (!G.isVar(x)) {
                int o = id[x], a = L(G.n[x].a), b = L(G.n[x].b);
                fprintf(f, "-%d %d 0\n-%d %d 0\n%d %d %d 0\n", o, a, o, b, o, -a, -b);
            }
        }
        for (Lit l : as) fprintf(f, "%d 0\n", L(l));
        fclose(f);
        char cmd[256]; snprintf(cmd, sizeof cmd, "kissat -q --time=%d %s", (int)lim, fn);
        FILE* p = popen(cmd, "r");
        int res = -1; char line[4096]; std::vector<uint8_t> mv(id.size() + 1, 0);
        while (p && fgets(line, sizeof line, p)) {
            if (!strncmp(line, "s SAT", 5)) res = 1;
            else if (!strncmp(line, "s UNSAT", 7)) res = 0;
            else if (line[0] == 'v') { char* q = line + 1; char* e; for (;;) { long v = strtol(q, &e, 10); if (e == q) break; q = e; if (v > 0 && (size_t)v < mv.size()) mv[v] = 1; } }
        }
        if (p) pclose(p);
        unlink(fn);
        if (res == 1) {
            model.assign(G.nvars, 0);
            for (auto& kv : id) if (kv.first && G.isVar(kv.first)) model[G.n[kv.first].b] = mv[kv.second];
        }
        return res;
    }
};
