// Legal moves: generator + legality filter against the rules of shogi, for every position (own king square fixed per run).
#include "sympos.h"
BASIC_INIT
static SymPos P;
static Position pos;
static ExtMove list[4096];
static int useUF;
extern "C" __attribute__((used)) bool stub__ZNK8Position19isPawnDropCheckMateE5Color6Square(const Position* p, Color us, Square sq) {
    uint32_t r = 0;
    for (int i = 0; i < 81; i++) r |= eqi(sq, i) & sym_uf("pdm", i);
    return r & 1;
}
// pawn-drop-mate verdict: a free predicate here (its own correctness is property P03), the real one when replaying
static uint32_t pdm(int to) { if (sym_native()) return pos.isPawnDropCheckMate((Color)P.us, (Square)to); return sym_uf("pdm", to); }
// squares from which a piece gives check to our king at K
struct RayInfo { int n; int s[8]; uint8_t att[8]; };
static RayInfo rays[8];
static int kn[2], nkn, rayOf[82];
static uint32_t baseRay[8];
static NOINLINE uint32_t rayHit(int d, int from, int to) {
    uint32_t res = 0, open = 1;
    RayInfo& R = rays[d];
    for (int i = 0; i < R.n; i++) {
        if (R.s[i] == to) break;
        if (R.s[i] == from) continue;
        res |= open & R.att[i]; open &= P.emp[R.s[i]];
    }
    return res;
}
static NOINLINE void prepKing(int K) {
    int c = !P.us; nkn = 0;
    for (int s = 0; s < 82; s++) rayOf[s] = -1;
    for (int d = 0; d < 8; d++) { rays[d].n = 0; baseRay[d] = 0; }
    if (K >= 81) return;
    for (int d = 0; d < 8; d++) {
        int x = FL(K), y = RK(K);
        for (int dist = 1;; dist++) {
            x += RDF[d]; y += RDR[d];
            if (!ON(x, y)) break;
            int s = SQ(x, y); rays[d].s[dist - 1] = s; rays[d].att[dist - 1] = rayAtt(P, P.opp, c, s, d, dist); rays[d].n = dist; rayOf[s] = d;
        }
        baseRay[d] = rayHit(d, -1, -1);
    }
    int kr = c == 0 ? 2 : -2;
    for (int df = -1; df <= 1; df += 2) { int x = FL(K) + df, y = RK(K) + kr; if (ON(x, y)) kn[nkn++] = SQ(x, y); }
}
// would our king be attacked after a (non-king) piece goes from -> to?  from -1: drop
static NOINLINE uint32_t inDanger(int from, int to) {
    uint32_t r = 0;
    int a = from >= 0 ? rayOf[from] : -1, b = to >= 0 ? rayOf[to] : -1;
    for (int d = 0; d < 8; d++) r |= (d == a || d == b) ? rayHit(d, from, to) : baseRay[d];
    for (int i = 0; i < nkn; i++) if (kn[i] != to) r |= P.opp[kn[i]] & P.t[T_N][kn[i]];
    return r;
}
// the reference's idea of the checking and of the pinned pieces, offered to the engine as proof hints
static uint64_t refChk[2], refPin[2];
static NOINLINE void kingHints(int K) {
    refChk[0] = refChk[1] = refPin[0] = refPin[1] = 0;
    if (K >= 81) return;
    auto put = [](uint64_t* w, int s, uint32_t v) { w[s >= 63] |= (uint64_t)(v & 1) << (s >= 63 ? s - 63 : s); };
    for (int d = 0; d < 8; d++) {
        RayInfo& R = rays[d]; uint32_t open = 1;
        for (int i = 0; i < R.n; i++) { put(refChk, R.s[i], open & R.att[i]); open &= P.emp[R.s[i]]; }
        open = 1;
        for (int i = 0; i < R.n; i++) { // own piece with nothing between it and the king, and an attacker behind
            uint32_t behind = 0, o2 = 1;
            for (int j = i + 1; j < R.n; j++) { behind |= o2 & R.att[j]; o2 &= P.emp[R.s[j]]; }
            put(refPin, R.s[i], open & P.own[R.s[i]] & behind); open &= P.emp[R.s[i]];
        }
    }
    for (int i = 0; i < nkn; i++) put(refChk, kn[i], P.opp[kn[i]] & P.t[T_N][kn[i]]);
}
// chk: 0 no check; 1..8 one checker, on ray chk-1; 9 one checker, a knight; 10*a+b: two checkers, in groups a and b (double check)
static NOINLINE void checkCase(int chk) {
    uint8_t c[82]; int n = 0; uint8_t grp[82];
    for (int d = 0; d < 8; d++) for (int i = 0; i < rays[d].n; i++) { int s = rays[d].s[i]; c[n] = (refChk[s >= 63] >> (s >= 63 ? s - 63 : s)) & 1; grp[n++] = d + 1; }
    for (int i = 0; i < nkn; i++) { int s = kn[i]; c[n] = (refChk[s >= 63] >> (s >= 63 ? s - 63 : s)) & 1; grp[n++] = 9; }
    int g1 = chk >= 10 ? chk / 10 : chk, g2 = chk >= 10 ? chk % 10 : 0;
    uint32_t any[10], two[10];
    for (int g = 0; g < 10; g++) any[g] = two[g] = 0;
    for (int i = 0; i < n; i++) { two[grp[i]] |= any[grp[i]] & c[i]; any[grp[i]] |= c[i]; }
    for (int i = 0; i < n; i++) if (grp[i] != g1 && grp[i] != g2) sym_assume(!(c[i] & 1));
    if (g1) { sym_assume(!(two[g1] & 1)); sym_assume(any[g1] & 1); }
    if (g2) { sym_assume(!(two[g2] & 1)); sym_assume(any[g2] & 1); }
}
static ExtMove* endp;
static uint32_t full(int from, int to, int pro) { return (uint32_t)(to | from << 7 | (pro ? 0x4000 : 0)) | ((uint32_t)P.pc[from] & 15) << 16 | ((uint32_t)P.pc[to] & 15) << 20; }
static NOINLINE void check(uint32_t m16, uint32_t fullv, uint32_t legal, uint32_t expect, uint32_t cond, int isBoard) {
    uint32_t in = sym_vcontains(list, endp, m16, 0xffff);
    uint32_t got = in & legal;
    uint32_t f = sym_vcontains(list, endp, fullv, 0xffffffffu);
    uint32_t dup = sym_vcount(list, endp, m16, 0xffff) > 1;
    sym_assert_tag(!(cond & (got ^ expect)) & !(in & !f & 1) & !dup, "legal move list differs from the rules (missing, extra, duplicated or mislabelled move)", m16);
}
static uint8_t lg[81][2];
static NOINLINE void boardMoves(int us, int K, const Bitboard& pinned, int from) {
    int them = !us;
    static uint8_t geo[81]; // bit k: handled in expect arrays
    static uint32_t pro[81], non[81];
    for (int to = 0; to < 81; to++) { geo[to] = 0; pro[to] = non[to] = 0; lg[to][0] = lg[to][1] = 0; }
    auto add = [&](int to, uint32_t r, int k) {
        geo[to] = 1;
        if (canPro(k) && (zone(us, RK(from)) || zone(us, RK(to)))) pro[to] |= r;
        if (!mustPro(k, us, RK(to))) non[to] |= r;
    };
    int f = FL(from), rk = RK(from);
    if (from == K) {
        for (int d = 0; d < 8; d++) { int x = f + RDF[d], y = rk + RDR[d]; if (ON(x, y)) { int to = SQ(x, y); geo[to] = 1; non[to] = 1u & !attacked(P, to, them, K, -1); } }
    } else {
        for (int d = 0; d < 8; d++) {
            int x = f, y = rk; uint32_t open = 1;
            for (int dist = 1;; dist++) {
                x += RDF[d]; y += RDR[d];
                if (!ON(x, y)) break;
                int to = SQ(x, y);
                for (int k = 1; k < 15; k++) if (k != T_K && (slideOK(k, us, d) || (dist == 1 && stepOK(k, us, RDF[d], RDR[d])))) add(to, open & P.t[k][from], k);
                open &= P.emp[to];
            }
        }
        for (int df = -1; df <= 1; df += 2) { int x = f + df, y = rk + (us == 0 ? -2 : 2); if (ON(x, y)) add(SQ(x, y), P.t[T_N][from], T_N); }
    }
    // the real legality filter
    if (from == K || !P.t[T_K][from])
        for (int to = 0; to < 81; to++) if (geo[to]) {
            lg[to][0] = pos.pseudoLegalMoveIsLegal<false, false>(Move(full(from, to, 0)), pinned);
            lg[to][1] = from == K ? 0 : pos.pseudoLegalMoveIsLegal<false, false>(Move(full(from, to, 1)), pinned);
        }
    for (int to = 0; to < 81; to++) {
        if (!geo[to] || from == K) { // no such move may ever be listed
            uint32_t m1 = to | from << 7 | 0x4000, m0 = to | from << 7;
            if (!geo[to]) sym_assert_tag(!sym_vcontains(list, endp, m0, 0xffff), "move of a kind no piece has", m0);
            sym_assert_tag(!sym_vcontains(list, endp, m1, 0xffff), "move of a kind no piece has", m1);
            if (!geo[to]) continue;
        }
        uint32_t ok = P.own[from] & !P.own[to];
        if (from != K) ok &= 1u & !inDanger(from, to);
        uint32_t cond = !(P.t[T_K][to] & P.opp[to]); // positions in which the opponent's king can be taken are not positions
        check(to | from << 7, full(from, to, 0), lg[to][0] & 1, non[to] & ok, cond, 1);
        if (from != K) check(to | from << 7 | 0x4000, full(from, to, 1), lg[to][1] & 1, pro[to] & ok, cond, 1);
    }
}
static const int dropPT[7] = {T_P, T_L, T_N, T_S, T_G, T_B, T_R};
HARNESS h_gen() {
    int us = sym_param("us", 0), K = sym_param("ksq", 76);
    useUF = sym_param("uf", 1);
    symBoard(P, us, K); preds(P); oneOppKing(P, 1);
    symHands(P);
    prepKing(K);
    for (int d = 0; d < 8; d++) if (rays[d].n) { int s = rays[d].s[0]; sym_assume(!(P.opp[s] & P.t[T_K][s])); } // kings are not adjacent
    pos.st_ = &pos.startState_;
    pos.turn_ = (Color)us; pos.gamePly_ = 1;
    sym_policy("forkidx", 40); pos.set(P.pc, P.hand); sym_policy("forkidx", 0);
    sym_prune();
    sym_simplify(&pos, sizeof pos);
    kingHints(K);
    sym_hint_equal(&pos.st_->checkersBB, refChk, 16);
    int chk = sym_param("chk", 2);
    checkCase(chk);
    sym_note("set", pos.kingSquare((Color)us));
    sym_vlist(list, sizeof(ExtMove));
    endp = generateMoves<PseudoLegal>(list, pos);
    sym_note("gen", endp - list);
    sym_prune();
    Bitboard pinned = pos.pinnedBB();
    sym_prune();
    sym_hint_equal(&pinned, refPin, 16);
    sym_note("pinned", 0);
    for (int from = 0; from < 81; from++) boardMoves(us, K, pinned, from);
    sym_note("board", 0);
    for (int i = 0; i < 7; i++) {
        int k = dropPT[i], from = 80 + k;
        uint32_t have = P.hand[us][i] != 0;
        for (int to = 0; to < 81; to++) {
            uint32_t e = have & P.emp[to] & 1u;
            if (mustPro(k, us, RK(to))) e = 0;
            else {
                if (K < 81) e &= 1u & !inDanger(-1, to);
                if (k == T_P) {
                    for (int r = 0; r < 9; r++) { int s = SQ(FL(to), r); e &= 1u & !(P.own[s] & P.t[T_P][s]); }
                    int kr = RK(to) + (us == 0 ? -1 : 1), ks = SQ(FL(to), kr);
                    e &= 1u & !(P.opp[ks] & P.t[T_K][ks] & pdm(to));
                }
            }
            uint32_t m = to | from << 7;
            check(m, m, 1, e, 1, 0);
        }
    }
    sym_reach("end");
}
