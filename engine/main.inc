static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r; }
static void setupGlobals(State& s) {
    zeroPage = new CPage; zeroPage->rc = 1 << 20; zeroPage->conc = true; memset(zeroPage->b, 0, PG);
    junkPage = new CPage; junkPage->rc = 1 << 20; junkPage->conc = true; memset(junkPage->b, 0xCD, PG);
    for (auto& F : *M) { Obj* o = new Obj(1); o->kind = 1; o->name = "function"; s.mem.push_back(o); gObj[&F] = s.mem.size() - 1; o->fn = funcOf(&F); }
    for (auto& gvr : M->globals()) {
        uint64_t sz = DL->getTypeAllocSize(gvr.getValueType());
        Obj* o = mkObj(sz, true, strdup(demangle(gvr.getName().str()).c_str())); s.mem.push_back(o); gObj[&gvr] = s.mem.size() - 1;
    }
    std::function<void(uint32_t, uint64_t, const Constant*)> wr = [&](uint32_t id, uint64_t off, const Constant* C) {
        if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
        if (auto* cs = dyn_cast<ConstantStruct>(C)) { auto* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) wr(id, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
        if (auto* ca = dyn_cast<ConstantArray>(C)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) wr(id, off + i * es, ca->getOperand(i)); return; }
        if (auto* cd = dyn_cast<ConstantDataArray>(C)) { StringRef r = cd->getRawDataValues(); for (size_t i = 0; i < r.size(); i++) storeBits(s, id, off + i, 8, Val((uint64_t)(uint8_t)r[i])); return; }
        storeBits(s, id, off, bw(C->getType()), constVal(C));
    };
    for (auto& gvr : M->globals()) if (gvr.hasInitializer()) wr(gObj[&gvr], 0, gvr.getInitializer());
    nGlobals = s.mem.size();
}
static void callFn(State*& s, const Function* F) { // run to completion on a single concrete state
    Func* f = funcs[funcOf(F)];
    if (f->intr) return;
    // keep a copy of memory after the call: run with a sentinel frame trick
    State* t = s; s = nullptr;
    pushFrame(t, f, -1);
    // execute until the frame stack would be empty: emulate by keeping a base frame
    queue_.clear(); nQueued = 0;
    t->id = 0;
    extern State* runConcrete(State*);
    s = runConcrete(t);
}
// run a single-path (concrete) computation and return the state with an empty stack
State* runConcrete(State* t) {
    // A base frame of a synthetic function that returns immediately would need decoding; instead copy memory on RET.
    // We reuse runState but intercept deletion by holding references to the objects.
    static Func* base = nullptr;
    if (!base) { base = new Func; base->name = "<base>"; base->decoded = true; base->nregs = 1; base->rw.push_back(64); base->idx.push_back(0); base->blocks.resize(1); Inst u; u.op = O_TRAP; base->blocks[0].ins.push_back(u); base->blocks[0].ins.push_back(u); base->blocks[0].live.assign(1, 0); base->blocks[0].liveAt[0] = {}; }
    Frame b; b.f = base; b.block = 0; b.ip = 1; b.d = new FrameData{1, {}}; b.d->regs.resize(1);
    t->fr.insert(t->fr.begin(), b);
    try { runState(t); } catch (Killed&) { if (t->fr.size() == 1) { t->fr.clear(); return t; } die("killed during concrete execution"); }
    die("concrete execution did not return");
}
int main(int argc, char** argv) {
    tStart = now();
    std::string bc, fn, sets, outdir = "."; int jobs = 8; double tmo = 3600; bool doInit = true; double memGB = 0, grace = 30;
    std::vector<std::string> stubs;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--fn") fn = argv[++i]; else if (a == "--sets") sets = argv[++i]; else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--outdir") outdir = argv[++i];
        else if (a == "--timeout") tmo = atof(argv[++i]); else if (a == "--noinit") doInit = false; else if (a == "-v") verbose = true; else if (a == "--stub") stubFns.insert(argv[++i]);
        else if (a == "--mem") memGB = atof(argv[++i]);
        else bc = a;
    }
    SMDiagnostic err; M = parseIRFile(bc, err, Ctx); if (!M) { err.print("engine", errs()); return 4; }
    DL = &M->getDataLayout();
    sat = new Sat;
    State* s = new State;
    try {
        setupGlobals(*s);
        if (doInit) {
            // global constructors, by priority
            std::vector<std::pair<uint64_t, const Function*>> ctors;
            if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
                for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto* cs = cast<ConstantStruct>(ca->getOperand(i)); if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
            std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& c : ctors) callFn(s, c.second);
            if (auto* F = M->getFunction("sym_init")) callFn(s, F);
        }
    } catch (std::exception& e) { fprintf(stderr, "init failed: %s\n", e.what()); return 4; }
    fprintf(stderr, "init done %.2fs inst=%llu objs=%zu\n", now() - tStart, (unsigned long long)nInst, s->mem.size());
    initPhase = false;
    // sets of parameters: one per line "fn k=v k=v"
    std::vector<std::string> lines;
    if (!sets.empty()) { FILE* f = fopen(sets.c_str(), "r"); char b[4096]; while (f && fgets(b, sizeof b, f)) { std::string l = b; while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back(); if (!l.empty()) lines.push_back(l); } if (f) fclose(f); }
    else lines.push_back(fn);
    auto runSet = [&](size_t idx) -> int {
        std::string line = lines[idx], fname; size_t p = 0;
        auto tok = [&]() { while (p < line.size() && line[p] == ' ') p++; size_t q = line.find(' ', p); if (q == std::string::npos) q = line.size(); std::string r = line.substr(p, q - p); p = q; return r; };
        fname = tok(); params.clear(); std::string t;
        while (!(t = tok()).empty()) { size_t e = t.find('='); if (e != std::string::npos) params[t.substr(0, e)] = strtol(t.c_str() + e + 1, 0, 0); }
        double t0 = now(); deadline = t0 + tmo; std::string errStr; uint64_t i0 = nInst;
        const Function* F = M->getFunction(fname);
        double execT = 0; bool fatal = false;
        std::string viol; size_t nv = 0, nq = 0, nunk = 0; std::string unk; std::string reachS, reachIn; size_t nDecided = 0;
        try {
            if (!F) die("no function " + fname);
            State* r = new State(*s); pushFrame(r, funcs[funcOf(F)], -1);
            try { runAll(r); } catch (std::exception& e) { errStr = e.what(); deadline = std::max(deadline, now()) + grace; }
            sat->deadline = deadline;
            execT = now() - t0;
            auto lazy = [&](const Oblig& o) -> int {
                    static size_t cn = 0; static std::vector<Lit> conj; static std::unordered_set<Lit> have;
                    if (cn > o.nassume) { cn = 0; conj.clear(); have.clear(); }
                    for (; cn < o.nassume; cn++) { std::vector<Lit> wl{assumptions[cn]}; while (!wl.empty()) { Lit x = wl.back(); wl.pop_back(); if (x == LT) continue; if (!(x & 1) && G.isAndNode(x >> 1)) { wl.push_back(G.n[x >> 1].a); wl.push_back(G.n[x >> 1].b); } else if (have.insert(x).second) conj.push_back(x); } }
                    return sat->solveLazy(conj, o.viol, 20000);
            };
            auto query = [&](const Oblig& o) { std::vector<Lit> as(assumptions.begin(), assumptions.begin() + o.nassume); as.push_back(o.viol); nq++; if (now() > deadline) die(errStr.empty() ? "timeout while solving" : errStr); double t1 = now(); int q = -1;
                static size_t lazyMax = getenv("SYMX_LAZY") ? atoi(getenv("SYMX_LAZY")) : 20000;
                if (sat->coneSize(o.viol, lazyMax) <= lazyMax) {
                    q = lazy(o);
                }
                else { // big query: an OR of many small differences is decided difference by difference
                    std::vector<Lit> cj, wl{o.viol}; std::unordered_set<Lit> hv;
                    while (!wl.empty()) { Lit x = wl.back(); wl.pop_back(); if (x == LT) continue; if (!(x & 1) && G.isAndNode(x >> 1)) { wl.push_back(G.n[x >> 1].a); wl.push_back(G.n[x >> 1].b); } else if (hv.insert(x).second) cj.push_back(x); }
                    size_t bi = cj.size(); std::vector<Lit> best;
                    for (size_t i = 0; i < cj.size(); i++) { std::vector<Lit> dj, w2{cj[i]}; std::unordered_set<Lit> h2; while (!w2.empty() && h2.size() < 4000) { Lit x = w2.back(); w2.pop_back(); if (!h2.insert(x).second) continue; if ((x & 1) && G.isAndNode(x >> 1)) { w2.push_back(G.n[x >> 1].a ^ 1); w2.push_back(G.n[x >> 1].b ^ 1); } else dj.push_back(x); } if (w2.empty() && dj.size() > best.size()) best = dj, bi = i; }
                    if (best.size() >= 8) {
                        Lit g = LT; for (size_t i = 0; i < cj.size(); i++) if (i != bi) g = G.AND(g, cj[i]);
                        q = 0;
                        for (Lit d : best) { Oblig o2 = o; o2.viol = G.AND(g, d); if (o2.viol == LF) continue; int q2 = -1; if (sat->coneSize(o2.viol, lazyMax) <= lazyMax) q2 = lazy(o2); if (q2 < 0) { std::vector<Lit> a2(as.begin(), as.end() - 1); a2.push_back(o2.viol); q2 = sat->solve(a2); } if (q2 == 1) { q = 1; break; } if (q2 < 0) q = -1; }
                    }
                }
                if (q < 0) q = sat->solve(as); if (verbose && now() - t1 > 1) { std::unordered_set<uint32_t> sn; std::vector<uint32_t> st{o.viol >> 1}; size_t nvv = 0; while (!st.empty()) { uint32_t x = st.back(); st.pop_back(); if (!sn.insert(x).second || !x) continue; if (G.isVar(x)) { nvv++; continue; } st.push_back(G.n[x].a >> 1); st.push_back(G.n[x].b >> 1); } fprintf(stderr, "cone %zu vars %zu ", sn.size(), nvv); } if (verbose && now() - t1 > 1) fprintf(stderr, "query %zu %s tag %llu: %d %.2fs kissat=%llu\n", nq, o.label.substr(0, 60).c_str(), (unsigned long long)o.tag, q, now() - t1, (unsigned long long)sat->kissats); return q; };
            auto modelStr = [&]() { std::string in; for (auto& i : inputs) { uint64_t v = 0; for (unsigned k = 0; k < i.bits; k++) { Lit l = i.v.bit(k); bool bv = isC(l) ? l : (sat->model[G.n[l >> 1].b] ^ (l & 1)); v |= (uint64_t)bv << k; } in += (in.empty() ? "" : ",") + std::string("[\"") + jesc(i.name) + "\"," + std::to_string(v) + "]"; } return in; };
            std::set<std::string> seenReach;
            for (auto& o : reaches) { if (seenReach.count(o.label)) continue; int q = query(o); if (q == 1) { seenReach.insert(o.label); reachIn += (reachIn.empty() ? "" : ",") + std::string("{\"label\":\"") + jesc(o.label) + "\",\"inputs\":[" + modelStr() + "]}"; } }
            std::set<std::string> allReach; for (auto& o : reaches) allReach.insert(o.label);
            for (auto& l : allReach) { reachS += (reachS.empty() ? "" : ","); reachS += "\"" + jesc(l) + "\":" + (seenReach.count(l) ? "true" : "false"); }
            for (auto& o : errorsAt) { int q = query(o); if (q != 0) { if (errStr.empty()) errStr = o.label; break; } }
            if (verbose) for (auto& k : keptAt) if (k.second > 10) fprintf(stderr, "kept x%llu %s\n", (unsigned long long)k.second, k.first.c_str());
            std::map<std::string, int> perLabel;
            if (verbose) { std::map<std::string, int> cnt; for (auto& o : obligs) cnt[o.label]++; for (auto& c : cnt) fprintf(stderr, "oblig x%d %s\n", c.second, c.first.c_str()); }
            size_t ob = 0; static int resetN = getenv("SYMX_RESET") ? atoi(getenv("SYMX_RESET")) : 0;
            for (auto& o : obligs) {
                if (resetN && ob++ % resetN == 0) { if (verbose && ob % (resetN * 10) < (size_t)resetN) fprintf(stderr, "ob %zu t=%.1f\n", ob, now() - t0); sat->reset(); }
                if (perLabel[o.label] >= 2 || nv >= 6) continue;
                int q = query(o);
                nDecided++; if (q == 0) continue;
                if (q < 0) { nDecided--; nunk++; unk = o.label; continue; }
                perLabel[o.label]++; nv++;
                std::string in = modelStr();
                viol += (viol.empty() ? "" : ",\n") + std::string("{\"label\":\"") + jesc(o.label) + "\",\"tag\":" + std::to_string(o.tag) + ",\"inputs\":[" + in + "]}";
            }
        } catch (std::exception& e) { errStr = e.what(); fatal = true; }
        if (execT == 0) execT = now() - t0;
        (void)fatal;
        std::string fl; for (Func* f : funcs) if (f->execCount) { fl += (fl.empty() ? "" : ",") + std::string("\"") + jesc(demangle(f->name)) + "\""; }
        char fnm[512]; snprintf(fnm, sizeof fnm, "%s/%zu.json", outdir.c_str(), idx);
        FILE* o = fopen(fnm, "w"); if (!o) return 4;
        fprintf(o, "{\"set\":\"%s\",\"status\":\"%s\",\"error\":\"%s\",\"unknown\":%zu,\"unknown_label\":\"%s\",\"obligations\":%zu,\"trivial\":%llu,\"queries\":%zu,\"sat_calls\":%llu,\"sat_time\":%.3f,\"kissat\":%llu,\"exec_time\":%.3f,\"total_time\":%.3f,\"nodes\":%zu,\"vars\":%u,\"inst\":%llu,\"forks\":%llu,\"ctforks\":%llu,\"merges\":%llu,\"decided\":%zu,\"reach\":{%s},\"witnesses\":[%s],\"violations\":[%s],\"functions\":[%s]}\n",
                jesc(line).c_str(), nv ? "violation" : !errStr.empty() ? "error" : nunk ? "unknown" : "ok", jesc(errStr).c_str(), nunk, jesc(unk).c_str(), obligs.size(), (unsigned long long)nTrivial, nq, (unsigned long long)sat->queries, sat->time, (unsigned long long)sat->kissats, execT, now() - t0, G.n.size(), G.nvars, (unsigned long long)(nInst - i0), (unsigned long long)nForks, (unsigned long long)nCtForks, (unsigned long long)nMerges, nDecided, reachS.c_str(), reachIn.c_str(), viol.c_str(), fl.c_str());
        fclose(o);
        fprintf(stderr, "[%zu] %s: %s %s viol=%zu obl=%zu triv=%llu exec=%.2fs total=%.2fs sat=%.2fs nodes=%zu inst=%llu forks=%llu/%llu merges=%llu\n", idx, line.c_str(), errStr.empty() ? "done" : "ERROR", errStr.c_str(), nv, obligs.size(), (unsigned long long)nTrivial, execT, now() - t0, sat->time, G.n.size(), (unsigned long long)(nInst - i0), (unsigned long long)nForks, (unsigned long long)nCtForks, (unsigned long long)nMerges);
        return 0;
    };
    if (lines.size() == 1 && jobs == 0) { runSet(0); fflush(nullptr); _exit(0); }
    size_t nextI = 0; int running = 0; std::map<pid_t, size_t> kids;
    while (nextI < lines.size() || running) {
        while (running < jobs && nextI < lines.size()) {
            pid_t p = fork();
            if (p == 0) {
                if (memGB > 0) { rlimit rl; rl.rlim_cur = rl.rlim_max = (rlim_t)(memGB * 1e9); setrlimit(RLIMIT_AS, &rl); }
                int rc = 4; try { rc = runSet(nextI); } catch (...) {} fflush(nullptr); _exit(rc);
            }
            kids[p] = nextI; nextI++; running++;
        }
        int st; pid_t p = wait(&st); if (p > 0) { running--; }
    }
    fflush(nullptr); _exit(0);
}
