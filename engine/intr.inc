static void intrFork(State* s, int reg, unsigned w, size_t lim) { s->fr.back().ip--; forkOnValues(s, reg, w, lim); }
static Val getByte(State* s, const Inst& x, int reg, const Val& base, int64_t off) {
    Inst ld; ld.op = O_LOAD; ld.w = 8; ld.imm = 1; ld.parts.push_back({0, 0, 8});
    Val a = evalBin(O_ADD, 64, false, 64, base, Val((uint64_t)off));
    return doLoad(s, ld, reg, a);
}
// When a single state is left, every other path was infeasible, or is covered by an obligation or a reported error:
// the path condition is then implied by the assumptions and can be dropped (unless a path was cut by an assumption).
static void dropPc(State* s) { if (nQueued == 0 && !restricted) { s->sp.clear(); s->pc.clear(); s->gc.clear(); } }
struct VCache { VNode* tip; std::vector<std::pair<Lit, Val>> slots; std::unordered_map<uint64_t, std::vector<uint32_t>> byVal; std::vector<uint32_t> symb; uint64_t mask; };
static std::map<std::pair<VNode*, uint64_t>, VCache*> vcaches;
static VCache* vcache(VNode* tip, uint64_t mask) {
    auto& c = vcaches[{tip, mask}];
    if (c) return c;
    c = new VCache; c->tip = tip; c->mask = mask; c->slots.resize(tip ? tip->len : 0);
    for (VNode* n = tip; n; n = n->prev) c->slots[n->len - 1] = {n->present, n->data};
    for (uint32_t i = 0; i < c->slots.size(); i++) {
        const Val& d = c->slots[i].second; bool sy = false; uint64_t v = 0;
        for (unsigned k = 0; k < 32; k++) if (mask >> k & 1) { Lit l = d.bit(k); if (l > 1) { sy = true; break; } v |= (uint64_t)l << k; }
        if (sy) c->symb.push_back(i); else c->byVal[v].push_back(i);
    }
    return c;
}
static Lit vEq(const Val& d, uint64_t mask, const Val& v) {
    Lit r = LT;
    for (unsigned k = 32; k-- > 0;) if (mask >> k & 1) r = G.AND(NOT(G.XOR(d.bit(k), v.bit(k))), r);
    return r;
}
static void doIntr(State* s, const Inst& x) {
    Frame* f = &s->fr.back();
    auto A = [&](int i) -> const Val& { return gv(s->fr.back(), x.args[i]); };
    auto ret = [&](const Val& v) { if (x.dst >= 0) { Val t = v; s->fr.back().own(); s->fr.back().d->regs[x.dst] = std::move(t); } };
    auto cst = [&](int i, unsigned w = 64) -> uint64_t { if (A(i).sym()) intrFork(s, x.args[i], w, 4096); return A(i).c; };
    switch (x.intr) {
    case I_NOP: return;
    case I_RET0: ret(Val((uint64_t)0)); return;
    case I_EXPECT: ret(A(0)); return;
    case I_MEMCPY: case I_MEMMOVE: {
        uint64_t n = cst(2); if (!n) { ret(A(0)); return; }
        uint64_t d = cst(0), sr = cst(1); Inst q; Addr S = resolve(s, q, x.args[1], Val(sr), n), D = resolve(s, q, x.args[0], Val(d), n);
        Obj* so = s->mem[S.id];
        if (so->kind == 2 || s->mem[D.id]->kind == 2) {
            if (n > 8) die("memcpy on list");
            Inst ld; ld.op = O_LOAD; ld.w = n * 8; ld.imm = n; ld.parts.push_back({0, 0, (uint32_t)n * 8});
            Val v = doLoad(s, ld, x.args[1], Val(sr)); doStore(s, ld, x.args[0], Val(d), v); ret(Val(d)); return;
        }
        so->rc++; // keep source alive
        Obj* dobj = wobj(*s, D.id);
        if (so == dobj) { // same object: buffer
            std::vector<Val> t; for (uint64_t i = 0; i < n; i++) t.push_back(loadBits(*s, so, S.off + i, 8));
            for (uint64_t i = 0; i < n; i++) storeBits(*s, D.id, D.off + i, 8, t[i]);
        } else {
            uint64_t i = 0;
            while (i < n) {
                // whole aligned pages are shared
                if ((S.off + i) % PG == 0 && (D.off + i) % PG == 0 && n - i >= PG) {
                    Page* p = so->pages[(S.off + i) / PG]; Page*& q2 = wobj(*s, D.id)->pages[(D.off + i) / PG]; if (p != q2) { p->rc++; pgRel(q2); q2 = p; } i += PG;
                } else { storeBits(*s, D.id, D.off + i, 8, loadBits(*s, so, S.off + i, 8)); i++; }
            }
        }
        objRel(so);
        ret(Val(d)); return;
    }
    case I_MEMSET: {
        uint64_t n = cst(2), d = cst(0); if (n) { Inst q; Addr D = resolve(s, q, x.args[0], Val(d), n); LV l(8); toL(A(1), 8, l.data()); Val v = mk(l.data(), 8); for (uint64_t i = 0; i < n; i++) storeBits(*s, D.id, D.off + i, 8, v); }
        ret(Val(d)); return;
    }
    case I_CTPOP: {
        const Val& a = A(0);
        if (!a.sym() && !x.vec && x.w <= 64) { ret(Val((uint64_t)__builtin_popcountll(a.c))); return; }
        LV l(x.w), o(x.w); toL(a, x.w, l.data());
        unsigned e = x.vec ? x.ew : x.w; for (unsigned k = 0; k < x.w; k += e) cPop(l.data() + k, e, o.data() + k, e);
        ret(mk(o.data(), x.w)); return;
    }
    case I_CTLZ: {
        const Val& a = A(0); if (x.vec) die("vector ctlz");
        if (!a.sym()) { unsigned n = 0; for (int i = x.w - 1; i >= 0 && !(a.c >> i & 1); i--) n++; ret(Val((uint64_t)n)); return; }
        Val r((uint64_t)x.w); for (unsigned i = 0; i < x.w; i++) r = muxVal(a.bit(i), Val((uint64_t)(x.w - 1 - i)), r, x.w);
        ret(r); return;
    }
    case I_UMIN: case I_UMAX: case I_SMIN: case I_SMAX: {
        int pr = x.intr == I_UMIN ? CmpInst::ICMP_ULT : x.intr == I_UMAX ? CmpInst::ICMP_UGT : x.intr == I_SMIN ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
        Val c = evalCmp(pr, x.w, x.vec, x.ew, A(0), A(1)); unsigned e = x.vec ? x.ew : x.w; LV o(x.w); Val a = A(0), b = A(1);
        for (unsigned i = 0; i < x.w; i++) o[i] = G.MUX(c.bit(i / e), a.bit(i), b.bit(i)); ret(mk(o.data(), x.w)); return;
    }
    case I_ABS: { LV a(x.w), n(x.w); if (x.vec) die("vec abs"); toL(A(0), x.w, a.data()); cNeg(a.data(), x.w, n.data()); LV o(x.w); for (unsigned i = 0; i < x.w; i++) o[i] = G.MUX(a[x.w - 1], n[i], a[i]); ret(mk(o.data(), x.w)); return; }
    case I_FSHL: case I_FSHR: {
        unsigned w = x.w; if (x.vec) die("vec fsh"); LV c(2 * w), sh(2 * w, LF), o(2 * w); for (unsigned i = 0; i < w; i++) { c[i] = A(1).bit(i); c[w + i] = A(0).bit(i); }
        unsigned lg = 0; while ((1u << lg) < w) lg++; for (unsigned i = 0; i < lg; i++) sh[i] = A(2).bit(i);
        cShift(x.intr == I_FSHL ? 0 : 1, c.data(), sh.data(), 2 * w, o.data()); ret(mk(o.data() + (x.intr == I_FSHL ? w : 0), w)); return;
    }
    case I_BSWAP: { unsigned e = x.vec ? x.ew : x.w; LV o(x.w); for (unsigned k = 0; k < x.w; k += e) for (unsigned i = 0; i < e; i++) o[k + i] = A(0).bit(k + (e / 8 - 1 - i / 8) * 8 + i % 8); ret(mk(o.data(), x.w)); return; }
    case I_BITREV: { unsigned e = x.vec ? x.ew : x.w; LV o(x.w); for (unsigned k = 0; k < x.w; k += e) for (unsigned i = 0; i < e; i++) o[k + i] = A(0).bit(k + e - 1 - i); ret(mk(o.data(), x.w)); return; }
    case I_PTESTZ: { LV l(x.w2); for (unsigned i = 0; i < x.w2; i++) l[i] = G.AND(A(0).bit(i), A(1).bit(i)); LV o(32, LF); o[0] = cZero(l.data(), x.w2); ret(mk(o.data(), 32)); return; }
    case I_PTESTC: { LV l(x.w2); for (unsigned i = 0; i < x.w2; i++) l[i] = G.AND(NOT(A(0).bit(i)), A(1).bit(i)); LV o(32, LF); o[0] = cZero(l.data(), x.w2); ret(mk(o.data(), 32)); return; }
    case I_PTESTNZC: { LV l(x.w2), m(x.w2); for (unsigned i = 0; i < x.w2; i++) { l[i] = G.AND(NOT(A(0).bit(i)), A(1).bit(i)); m[i] = G.AND(A(0).bit(i), A(1).bit(i)); } LV o(32, LF); o[0] = G.AND(NOT(cZero(l.data(), x.w2)), NOT(cZero(m.data(), x.w2))); ret(mk(o.data(), 32)); return; }
    case I_PMOVMSKB: { LV o(32, LF); for (unsigned i = 0; i < x.w2 / 8; i++) o[i] = A(0).bit(i * 8 + 7); ret(mk(o.data(), 32)); return; }
    case I_PSHUFB: {
        LV o(x.w);
        for (unsigned lane = 0; lane < x.w; lane += 128) for (unsigned b = 0; b < 16; b++) {
            uint64_t m = 0; for (unsigned k = 0; k < 8; k++) { Lit l = A(1).bit(lane + b * 8 + k); if (l > 1) die("symbolic pshufb mask"); m |= (uint64_t)l << k; }
            for (unsigned k = 0; k < 8; k++) o[lane + b * 8 + k] = m & 0x80 ? LF : A(0).bit(lane + (m & 15) * 8 + k);
        }
        ret(mk(o.data(), x.w)); return;
    }
    case I_MALLOC: { uint64_t n = cst(0); if (n > (1u << 28)) die("huge allocation"); uint32_t id = newObj(*s, n, false, "heap"); ret(Val(addrOf(id))); return; }
    case I_CALLOC: { uint64_t n = cst(0) * cst(1); uint32_t id = newObj(*s, n, true, "heap"); ret(Val(addrOf(id))); return; }
    case I_FREE: { uint64_t p = cst(0); if (p) { int64_t id = idOf(p); if (id < 0 || id >= (int64_t)s->mem.size() || !s->mem[id] || offOf(p) != 0) { memError(*s, LT, "invalid free"); throw Killed(); } freeObj(*s, id); } return; }
    case I_USUBSAT: case I_UADDSAT: {
        if (x.vec) die("vec sat"); Val r = evalBin(x.intr == I_USUBSAT ? O_SUB : O_ADD, x.w, false, x.w, A(0), A(1));
        Val c = x.intr == I_USUBSAT ? evalCmp(CmpInst::ICMP_ULT, x.w, false, x.w, A(0), A(1)) : evalCmp(CmpInst::ICMP_ULT, x.w, false, x.w, r, A(0));
        ret(muxVal(c.bit(0), x.intr == I_USUBSAT ? Val((uint64_t)0) : Val(maskw(x.w)), r, x.w)); return;
    }
    case I_UADDO: case I_USUBO: case I_SADDO: case I_SSUBO: case I_UMULO: case I_SMULO: {
        unsigned w = x.aw[0]; bool sg = x.intr == I_SADDO || x.intr == I_SSUBO || x.intr == I_SMULO; bool mul = x.intr == I_UMULO || x.intr == I_SMULO; unsigned W = mul ? 2 * w : w + 2;
        LV a(W), b(W), o(W); toL(A(0), w, a.data()); toL(A(1), w, b.data()); for (unsigned i = w; i < W; i++) { a[i] = sg ? a[w - 1] : LF; b[i] = sg ? b[w - 1] : LF; }
        if (mul) cMul(a.data(), b.data(), W, o.data()); else if (x.intr == I_UADDO || x.intr == I_SADDO) cAdd(a.data(), b.data(), LF, W, o.data()); else cSub(a.data(), b.data(), W, o.data());
        Lit ov = LF; for (unsigned i = w; i < W; i++) ov = G.OR(ov, G.XOR(o[i], sg ? o[w - 1] : LF));
        LV r(o.begin(), o.begin() + w); r.push_back(ov); ret(mk(r.data(), w + 1)); return;
    }
    case I_VROR: case I_VRAND: case I_VRADD: {
        Val a = A(0); unsigned n = x.aw[0] / x.ew; LV o(x.ew), t(x.ew); for (unsigned i = 0; i < x.ew; i++) o[i] = a.bit(i);
        for (unsigned e = 1; e < n; e++) { for (unsigned i = 0; i < x.ew; i++) t[i] = a.bit(e * x.ew + i); if (x.intr == I_VRADD) cAdd(o.data(), t.data(), LF, x.ew, o.data()); else for (unsigned i = 0; i < x.ew; i++) o[i] = x.intr == I_VROR ? G.OR(o[i], t[i]) : G.AND(o[i], t[i]); }
        ret(mk(o.data(), x.ew)); return;
    }
    case I_STRLEN: {
        uint64_t p = cst(0);
        for (int64_t i = 0;; i++) {
            Val b = getByte(s, x, x.args[0], Val(p), i); LV l(8); toL(b, 8, l.data()); Lit z = cZero(l.data(), 8); int k = known(*s, z);
            if (k == 0) continue;
            if (k == 1) { ret(Val((uint64_t)i)); return; }
            // fork
            State* t = new State(*s); t->id = ++nStates; nForks++;
            if (addCond(*t, NOT(z))) { t->fr.back().ip--; queue_[keyOf(*t, false)].push_back(t); nQueued++; } else delete t;
            if (!addCond(*s, z)) throw Killed();
            ret(Val((uint64_t)i)); return;
        }
    }
    case I_MEMCMP: case I_STRCMP: {
        bool str = x.intr == I_STRCMP; uint64_t n = str ? 4096 : cst(2); Val p = A(0), q = A(1); std::vector<std::pair<Val, Val>> bs;
        for (uint64_t i = 0; i < n; i++) { Val u = getByte(s, x, x.args[0], p, i), v = getByte(s, x, x.args[1], q, i); bs.push_back({u, v}); if (!u.sym() && !v.sym() && (u.c != v.c || (str && u.c == 0))) break; }
        Val r((uint64_t)0);
        for (size_t i = bs.size(); i-- > 0;) {
            LV a(32, LF), b(32, LF), d(32); toL(bs[i].first, 8, a.data()); toL(bs[i].second, 8, b.data()); cSub(a.data(), b.data(), 32, d.data()); Lit e = cEq(a.data(), b.data(), 8);
            if (str) { Lit z = G.AND(e, cZero(a.data(), 8)); r = muxVal(z, Val((uint64_t)0), muxVal(e, r, mk(d.data(), 32), 32), 32); }
            else r = muxVal(e, r, mk(d.data(), 32), 32);
        }
        ret(r); return;
    }
    case I_MEMCHR: {
        uint64_t n = cst(2), p = cst(0); LV c(8); toL(A(1), 8, c.data()); Val r((uint64_t)0); std::vector<Val> bs; for (uint64_t i = 0; i < n; i++) bs.push_back(getByte(s, x, x.args[0], Val(p), i));
        for (uint64_t i = n; i-- > 0;) { LV l(8); toL(bs[i], 8, l.data()); r = muxVal(cEq(l.data(), c.data(), 8), Val(p + i), r, 64); }
        ret(r); return;
    }
    case I_TOLOWER: case I_TOUPPER: case I_ISDIGIT: {
        Val v = A(0); Val lo((uint64_t)(x.intr == I_TOLOWER ? 'A' : x.intr == I_TOUPPER ? 'a' : '0')), hi((uint64_t)(x.intr == I_TOLOWER ? 'Z' : x.intr == I_TOUPPER ? 'z' : '9'));
        Lit in = G.AND(evalCmp(CmpInst::ICMP_SGE, 32, false, 32, v, lo).bit(0), evalCmp(CmpInst::ICMP_SLE, 32, false, 32, v, hi).bit(0));
        if (x.intr == I_ISDIGIT) { LV o(32, LF); o[0] = in; ret(mk(o.data(), 32)); return; }
        ret(muxVal(in, evalBin(x.intr == I_TOLOWER ? O_ADD : O_SUB, 32, false, 32, v, Val((uint64_t)32)), v, 32)); return;
    }
    case I_FCEIL: case I_FFLOOR: { if (A(0).sym()) die("symbolic floating point @ " + where(*s)); double d = concF(A(0), x.w); ret(mkF(x.intr == I_FCEIL ? std::ceil(d) : std::floor(d), x.w)); return; }
    case I_TYPEID: { int64_t id = idOf(A(0).c); ret(Val((uint64_t)typeId(s->mem[id]->name ? s->mem[id]->name : "?"))); return; }
    case I_BEGINCATCH: ret(A(0)); return;
    case I_FABS: { LV l(x.w); toL(A(0), x.w, l.data()); l[x.w - 1] = LF; ret(mk(l.data(), x.w)); return; }
    case I_GUARDA: { Val b = getByte(s, x, x.args[0], A(0), 0); bool done = !b.sym() && (b.c & 1); if (!done) { Inst q; Addr D = resolve(s, q, x.args[0], A(0), 1); storeBits(*s, D.id, D.off, 8, Val((uint64_t)1)); } ret(Val((uint64_t)!done)); return; }
    case I_THROW: case I_ABORT: {
        if (x.intr == I_THROW) {
            std::string nm = x.name ? x.name : ""; uint64_t ptr = 0;
            if (nm == "__cxa_throw") { const Val t = A(1), p = A(0); if (t.sym() || p.sym()) die("symbolic throw"); int64_t id = idOf(t.c); s->excType = typeId(id >= 0 && id < (int64_t)s->mem.size() && s->mem[id] && s->mem[id]->name ? s->mem[id]->name : "?"); ptr = p.c; }
            else if (nm == "__cxa_rethrow") ptr = s->excPtr;
            else s->excType = typeId(nm.find("length_error") != std::string::npos ? "_ZTISt12length_error" : nm.find("out_of_range") != std::string::npos ? "_ZTISt12out_of_range" : nm.find("invalid_argument") != std::string::npos ? "_ZTISt16invalid_argument" : nm.find("logic_error") != std::string::npos ? "_ZTISt11logic_error" : nm.find("bad_alloc") != std::string::npos ? "_ZTISt9bad_alloc" : "_ZTISt9exception");
            s->excPtr = ptr; unwind(s);
        }
        if (s->allowThrow && x.intr == I_THROW) { throwLabels.insert(where(*s)); restricted = true; throw Killed(); }
        if (s->pc.empty() && assumptions.empty()) die(std::string("abort/throw: ") + (x.name ? x.name : "") + " @ " + where(*s));
        obligs.push_back({std::string("no-abort: ") + (x.name ? x.name : "throw") + " @ " + where(*s), 0, pcLit(*s), assumptions.size()});
        throw Killed();
    }
    // ---------------------------------------------------------------- harness API
    case I_SYM_BITS: {
        std::string nm; readCStr(s, A(0), nm); unsigned n = cst(1);
        // one input per name and width: forked paths that ask for the same input share the variable, as the replay file does
        auto key = std::make_pair(nm, n); auto it = symCache.find(key); if (it != symCache.end()) { ret(it->second); return; }
        LV l(64, LF); for (unsigned i = 0; i < n; i++) l[i] = G.var(); if (n >= 1 && n <= 8) G.newGroup(LV(l.begin(), l.begin() + n));
        Val v = mk(l.data(), 64); inputs.push_back({nm, n, v}); symCache[key] = v; ret(v); return;
    }
    case I_SYM_ASSUME: {
        LV l(32); toL(A(0), 32, l.data()); Lit c = NOT(cZero(l.data(), 32));
        dropPc(s);
        if (s->pc.empty()) { if (c == LF) die("assume(false) on the only path"); if (c != LT) { assumptions.push_back(c); assumeLit(c); } }
        else { restricted = true; if (!addCond(*s, c)) throw Killed(); }
        return;
    }
    case I_SYM_ASSERT: case I_SYM_TAGASSERT: {
        LV l(32); toL(A(0), 32, l.data()); Lit z = cZero(l.data(), 32);
        int k = known(*s, z); if (k == 0) z = LF; else if (k == 1) z = LT;
        if (z == LF) { nTrivial++; return; }
        std::string nm; readCStr(s, A(1), nm);
        Lit v = G.AND(pcLit(*s), z);
        if (v == LF) { nTrivial++; return; }
        obligs.push_back({nm, x.intr == I_SYM_TAGASSERT ? cst(2) : 0, v, assumptions.size()}); return;
    }
    case I_SYM_REACH: { std::string nm; readCStr(s, A(0), nm); reaches.push_back({nm, 0, pcLit(*s), assumptions.size()}); return; }
    case I_SYM_CONC: { uint64_t v = cst(0); ret(Val(v)); return; }
    case I_SYM_SIMP: {
        uint64_t p = cst(0), n = cst(1); int64_t id = idOf(p), off = offOf(p);
        std::vector<Lit> base(assumptions.begin(), assumptions.end()); base.insert(base.end(), s->pc.begin(), s->pc.end());
        Obj* o = wobj(*s, id);
        // candidates: distinct symbolic literals constant under 64 random models of the assumptions
        std::vector<std::vector<uint64_t>> dummy; std::vector<uint64_t> simv(G.n.size(), 0), vw(G.nvars);
        for (auto& w : vw) { w = 0; for (int k = 0; k < 4; k++) w = w << 16 | (uint64_t)(rand() & 0xffff); }
        bool okm = true;
        { Sat ms; for (Lit l : base) ms.enc(l); // decide on inputs only, with random polarities
          for (size_t x2 = 1; x2 < ms.nv.size(); x2++) if (ms.nv[x2] >= 0 && !G.isVar(x2)) ms.S->setDecisionVar(ms.nv[x2], false);
          ms.S->rnd_pol = true; ms.S->random_var_freq = 0.5; ms.S->phase_saving = 0;
          for (int m = 0; m < 64 && okm; m++) { ms.S->random_seed = 91648253 + m * 7919; int q = ms.solve(base, true); if (q != 1) { okm = false; break; } for (uint32_t v = 0; v < G.nvars; v++) { uint32_t nd = G.varNode[v]; if (nd < ms.nv.size() && ms.nv[nd] >= 0) { if (ms.model[v]) vw[v] |= 1ULL << m; else vw[v] &= ~(1ULL << m); } } }
          if (verbose) fprintf(stderr, "simplify: models %.2fs kissat=%d\n", ms.time, (int)ms.kissats);
        }
        if (!okm) die("sym_simplify: assumptions unsatisfiable or unknown");
        for (size_t x2 = 1; x2 < G.n.size(); x2++) { if (G.isVar(x2)) simv[x2] = vw[G.n[x2].b]; else { uint64_t p1 = simv[G.n[x2].a >> 1], p2 = simv[G.n[x2].b >> 1]; if (G.n[x2].a & 1) p1 = ~p1; if (G.n[x2].b & 1) p2 = ~p2; simv[x2] = p1 & p2; } }
        std::map<Lit, Lit> memo; size_t nc = 0;
        for (uint64_t i = 0; i < n; i++) {
            size_t pi = (off + i) / PG; if (o->pages[pi]->conc) continue;
            SPage* sp = wsym(o, pi);
            for (unsigned k = 0; k < 8; k++) {
                Lit& l = sp->l[((off + i) % PG) * 8 + k]; if (isC(l)) continue;
                auto it = memo.find(l); if (it != memo.end()) { l = it->second; continue; }
                uint64_t sv = simv[l >> 1]; if (l & 1) sv = ~sv;
                Lit r = l;
                if (sv == 0 || sv == ~0ULL) { nc++; base.push_back(sv ? NOT(l) : l); double t9 = now(); int q = sat->solve(base, false); if (verbose && now() - t9 > 0.2) fprintf(stderr, "simplify: byte %d bit %u: %d %.2fs\n", (int)i, k, q, now() - t9); if (q == 0) r = sv ? LT : LF; base.pop_back(); }
                memo[l] = r; memo[NOT(l)] = NOT(r); l = r;
            }
        }
        if (verbose) fprintf(stderr, "simplify: %zu literals, %zu candidates\n", memo.size() / 2, nc);
        // compact pages that became concrete
        for (size_t pi = 0; pi < o->pages.size(); pi++) if (!o->pages[pi]->conc) {
            SPage* sp = (SPage*)o->pages[pi]; bool c = true; for (Lit l : sp->l) if (l > 1) { c = false; break; }
            if (c) { CPage* n2 = new CPage; n2->rc = 1; n2->conc = true; for (unsigned b = 0; b < PG; b++) { uint8_t v = 0; for (unsigned k = 0; k < 8; k++) v |= sp->l[b * 8 + k] << k; n2->b[b] = v; } o->pages[pi] = n2; pgRel(sp); }
        }
        return;
    }
    case I_SYM_HINTEQ: { // where provable, replace the bits of *p by those of *q (no effect on behaviour)
        uint64_t p = cst(0), q = cst(1), n = cst(2); int64_t id = idOf(p), off = offOf(p); size_t done = 0, tried = 0; double t9 = now();
        std::vector<Lit> base(assumptions.begin(), assumptions.end()); base.insert(base.end(), s->sp.begin(), s->sp.end());
        for (uint64_t i = 0; i < n; i++) {
            Val u = loadBits(*s, s->mem[id], off + i, 8), v = loadBits(*s, s->mem[idOf(q)], offOf(q) + i, 8);
            if (sameVal(u, v)) continue;
            LV o(8); for (unsigned k = 0; k < 8; k++) { Lit a = u.bit(k), b = v.bit(k); o[k] = a; if (a == b || isC(a)) continue; tried++; Lit d = G.XOR(a, b); base.push_back(d); int64_t ob = sat->budget; sat->budget = 3000; int r = sat->solve(base, false, false); sat->budget = ob; base.pop_back(); if (r == 0) { o[k] = b; done++; } }
            storeBits(*s, id, off + i, 8, mk(o.data(), 8));
        }
        if (verbose) fprintf(stderr, "hint_equal: %zu of %zu bits in %.2fs\n", done, tried, now() - t9);
        return;
    }
    case I_SYM_PRUNE: { // drop path conditions implied by the assumptions
        dropPc(s); if (s->sp.empty()) return;
        std::vector<Lit> keep; std::vector<Lit> base(assumptions.begin(), assumptions.end()); double t9 = now(); size_t n0 = s->sp.size();
        for (size_t i = 0; i < s->sp.size(); i++) { base.push_back(NOT(s->sp[i])); int64_t ob = sat->budget; sat->budget = 3000; int r = sat->solve(base, false, false); sat->budget = ob; base.pop_back(); if (r != 0) keep.push_back(s->sp[i]); }
        if (keep.size() != n0) { s->sp.clear(); s->pc.clear(); s->gc.clear(); for (Lit l : keep) addCond(*s, l, false, true); }
        if (verbose) fprintf(stderr, "prune: %zu -> %zu in %.2fs\n", n0, s->sp.size(), now() - t9);
        return;
    }
    case I_SYM_VLIST: { uint64_t p = cst(0); int64_t id = idOf(p); Obj* o = wobj(*s, id); o->kind = 2; o->elem = cst(1); o->vl = nullptr; if (offOf(p) != 0) die("sym_vlist must start an object"); return; }
    case I_SYM_VCONT: {
        uint64_t b = cst(0), e = cst(1), mask = cst(3, 32); Val v = A(2); int64_t id = idOf(b);
        if (idOf(e) != id || s->mem[id]->kind != 2) { errorAt(*s, "vcontains: pointers do not belong to one list"); throw Killed(); }
        Obj* o = s->mem[id]; int64_t i0 = offOf(b) / o->elem, i1 = offOf(e) / o->elem; Lit r = LF;
        uint64_t km = 0, kv = 0; for (unsigned k = 0; k < 32; k++) if ((mask >> k & 1) && v.bit(k) <= 1) { km |= 1ULL << k; kv |= (uint64_t)v.bit(k) << k; }
        VCache* c = vcache(o->vl, km);
        auto add = [&](uint32_t i) { if ((int64_t)i >= i0 && (int64_t)i < i1) r = G.OR(r, G.AND(c->slots[i].first, vEq(c->slots[i].second, mask, v))); };
        { auto it = c->byVal.find(kv); if (it != c->byVal.end()) for (uint32_t i : it->second) add(i); for (uint32_t i : c->symb) add(i); }
        LV l(32, LF); l[0] = r; ret(mk(l.data(), 32)); return;
    }
    case I_SYM_VCOUNT: {
        // number of present slots in [b,e) whose masked value equals v (mask 0: all)
        uint64_t b = cst(0), e = cst(1), mask = cst(3, 32); Val v = A(2); int64_t id = idOf(b); Obj* o = s->mem[id]; int64_t i0 = offOf(b) / o->elem, i1 = offOf(e) / o->elem;
        VCache* c = vcache(o->vl, mask); LV bits;
        auto add = [&](uint32_t i) { if ((int64_t)i >= i0 && (int64_t)i < i1) bits.push_back(G.AND(c->slots[i].first, vEq(c->slots[i].second, mask, v))); };
        if (!v.sym()) { auto it = c->byVal.find(v.c & mask); if (it != c->byVal.end()) for (uint32_t i : it->second) add(i); for (uint32_t i : c->symb) add(i); }
        else for (uint32_t i = 0; i < c->slots.size(); i++) add(i);
        LV l(32, LF); cPop(bits.data(), bits.size(), l.data(), 32); ret(mk(l.data(), 32)); return;
    }
    case I_SYM_PARAM: { std::string nm; readCStr(s, A(0), nm); auto it = params.find(nm); ret(Val(it == params.end() ? A(1).c : (uint64_t)it->second)); return; }
    case I_SYM_POLICY: { std::string nm; readCStr(s, A(0), nm); bool v = cst(1, 32); if (nm == "mempart") memPartition = v; else if (nm == "nomerge") noMerge = v; else if (nm == "forkidx") forkIdx = cst(1, 32); else if (nm == "checkmem") checkMem = v; else die("policy " + nm); return; }
    case I_SYM_NOTE: { std::string nm; readCStr(s, A(0), nm); const Val& v = A(1); fprintf(stderr, "note %s %s%llu pc=%zu t=%.2f nodes=%zu inst=%llu\n", nm.c_str(), v.sym() ? "sym " : "", (unsigned long long)v.c, s->pc.size(), now() - tStart, G.n.size(), (unsigned long long)nInst);
        if (v.sym()) { std::unordered_set<uint32_t> sn; std::vector<uint32_t> st; for (unsigned i = 0; i < v.s->n; i++) st.push_back(v.s->l[i] >> 1); size_t nvv = 0; while (!st.empty()) { uint32_t x = st.back(); st.pop_back(); if (!sn.insert(x).second || !x) continue; if (G.isVar(x)) { nvv++; continue; } st.push_back(G.n[x].a >> 1); st.push_back(G.n[x].b >> 1); } fprintf(stderr, "cone %zu vars %zu\n", sn.size(), nvv); }
        if (v.sym() && verbose) { for (unsigned i = 0; i < v.s->n; i++) fprintf(stderr, "%u ", v.s->l[i]); fprintf(stderr, "\n"); }
        if (verbose) for (Lit l : s->pc) { fprintf(stderr, "  pc %s%u", l & 1 ? "!" : "", l >> 1); Lit q = l; for (int d = 0; d < 6 && G.isAndNode(q >> 1); d++) { fprintf(stderr, " (%u,%u)", G.n[q >> 1].a, G.n[q >> 1].b); q = G.n[q >> 1].a; } fprintf(stderr, "\n"); }
        return; }
    case I_SYM_NATIVE: ret(Val((uint64_t)0)); return;
    case I_SYM_DUMP: { // debugging aid: structure of a list's presence conditions for a value
        uint64_t b = cst(0); Obj* o = s->mem[idOf(b)]; uint64_t v = cst(1, 32), mask = cst(2, 32); VCache* c = vcache(o->vl, mask);
        auto cone = [&](Lit l, size_t& nv) { std::unordered_set<uint32_t> sn; std::vector<uint32_t> st{l >> 1}; nv = 0; while (!st.empty()) { uint32_t x = st.back(); st.pop_back(); if (!sn.insert(x).second || !x) continue; if (G.isVar(x)) { nv++; continue; } st.push_back(G.n[x].a >> 1); st.push_back(G.n[x].b >> 1); } return sn.size(); };
        auto it = c->byVal.find(v & mask); if (it != c->byVal.end()) for (uint32_t i : it->second) {
            size_t nv; size_t cs = cone(c->slots[i].first, nv); fprintf(stderr, "slot %u cone %zu vars %zu\n", i, cs, nv);
            std::function<void(Lit, int)> pr = [&](Lit l, int d) { size_t n2; size_t c2 = cone(l, n2); fprintf(stderr, "%*s%s%u cone %zu vars %zu\n", d * 2, "", l & 1 ? "!" : "", l >> 1, c2, n2); if (d < (int)cst(3, 32) && G.isAndNode(l >> 1) && c2 > 300) { pr(G.n[l >> 1].a, d + 1); pr(G.n[l >> 1].b, d + 1); } };
            if (getenv("SYMX_NODE")) { Lit l = (Lit)atoi(getenv("SYMX_NODE")) << 1; for (int d = 0; d < 60 && G.isAndNode(l >> 1); d++) { Lit p = G.n[l >> 1].a, q = G.n[l >> 1].b; size_t n1, n2; size_t c1 = cone(p, n1), c2 = cone(q, n2); fprintf(stderr, "  %u = %s%u(%zu,%zu) & %s%u(%zu,%zu)\n", l >> 1, p & 1 ? "!" : "", p >> 1, c1, n1, q & 1 ? "!" : "", q >> 1, c2, n2); l = c1 > c2 ? p : q; } break; }
            pr(c->slots[i].first, 0);
        }
        return; }
    case I_SYM_ISSYM: ret(Val((uint64_t)A(0).sym())); return;
    case I_SYM_ALLOWTHROW: s->allowThrow = cst(0, 32); return;
    case I_SYM_ITE: { LV l(32); toL(A(0), 32, l.data()); Lit c = NOT(cZero(l.data(), 32)); ret(muxVal(c, A(1), A(2), 64)); return; }
    case I_SYM_OR: case I_SYM_AND: { LV l(32), m(32); toL(A(0), 32, l.data()); toL(A(1), 32, m.data()); Lit c = NOT(cZero(l.data(), 32)), d = NOT(cZero(m.data(), 32)); LV o(32, LF); o[0] = x.intr == I_SYM_OR ? G.OR(c, d) : G.AND(c, d); ret(mk(o.data(), 32)); return; }
    case I_SYM_UF: { std::string nm; readCStr(s, A(0), nm); uint64_t v = cst(1); auto& l = ufs[{nm, v}]; if (!l) { l = G.var(); LV b(64, LF); b[0] = l; inputs.push_back({"uf:" + nm + ":" + std::to_string(v), 1, mk(b.data(), 64)}); } LV o(32, LF); o[0] = l; ret(mk(o.data(), 32)); return; }
    }
    (void)f;
    errorAt(*s, std::string("unmodelled intrinsic ") + (x.name ? x.name : "?")); throw Killed();
}
