// Making and taking back a move: the incremental state is the state of the resulting position, and undo is exact.
#include "sympos.h"
BASIC_INIT
static int US, OKS, KS, FROM, WHAT;
static SymPos P, Q; static Position pos, q; static StateInfo ns;
static const int dropPT[7] = {T_P, T_L, T_N, T_S, T_G, T_B, T_R};
static const int hpOf[15] = {-1, 0, 1, 2, 3, 5, 6, 4, -1, 0, 1, 2, 3, 5, 6}; // hand index a captured piece goes to
// every checker of the king on K (colour c attacks), as bits
static NOINLINE void checkersOf(const SymPos& p, const uint8_t* side, int K, int c, uint64_t w[2]) {
    w[0] = w[1] = 0;
    if (K >= 81) return;
    for (int d = 0; d < 8; d++) {
        uint32_t open = 1; int x = FL(K), y = RK(K);
        for (int dist = 1;; dist++) {
            x += RDF[d]; y += RDR[d]; if (!ON(x, y)) break;
            int s = SQ(x, y);
            uint64_t a = open & rayAtt(p, side, c, s, d, dist) & !p.t[T_K][s] & 1;
            w[s >= 63] |= a << (s >= 63 ? s - 63 : s);
            open &= p.emp[s];
        }
    }
    int kr = c == 0 ? 2 : -2;
    for (int df = -1; df <= 1; df += 2) { int x = FL(K) + df, y = RK(K) + kr; if (ON(x, y)) { int s = SQ(x, y); w[s >= 63] |= (uint64_t)(side[s] & p.t[T_N][s] & 1) << (s >= 63 ? s - 63 : s); } }
}
static void bbIs(const Bitboard& b, const uint8_t* e, const uint8_t* e2, const char* l, uint64_t tag) {
    uint64_t w[2] = {0, 0};
    for (int s = 0; s < 81; s++) w[s >= 63] |= (uint64_t)(e[s] & (e2 ? e2[s] : 1) & 1) << (s >= 63 ? s - 63 : s);
    sym_assert_tag(((b.p(0) ^ w[0]) | (b.p(1) ^ w[1])) == 0, l, tag);
}
// an arbitrary consistent position (that the setters produce such positions is checked by h_setters)
static Bitboard bbFrom(const uint8_t* e) { uint64_t w[2] = {0, 0}; for (int s = 0; s < 81; s++) w[s >= 63] |= (uint64_t)(e[s] & 1) << (s >= 63 ? s - 63 : s); return Bitboard(w[0], w[1]); }
static NOINLINE void build(Position& p, const SymPos& S) {
    for (int k = 1; k < 15; k++) p.byTypeBB_[k] = bbFrom(S.t[k]);
    p.byColorBB_[S.us] = bbFrom(S.own); p.byColorBB_[!S.us] = bbFrom(S.opp);
    p.byTypeBB_[0] = p.byColorBB_[0] | p.byColorBB_[1];
    p.goldsBB_ = p.bbOf(Gold, ProPawn, ProLance, ProKnight, ProSilver);
    for (int s = 0; s < 81; s++) p.piece_[s] = S.pc[s];
    for (int c = 0; c < 2; c++) { p.hand_[c].set(0); for (int i = 0; i < 7; i++) p.hand_[c].orEqual(S.hand[c][i], (HandPiece)i); }
    p.kingSquare_[S.us] = (Square)KS; p.kingSquare_[!S.us] = (Square)OKS;
    p.turn_ = (Color)S.us; p.st_->hand = p.hand_[S.us];
}
static uint64_t sum1(uint32_t c, uint64_t v) { return c ? v : 0; }
static NOINLINE void one(int to, int pro, int dropk) {
    // ---- reference: the position after the move
    uint32_t mv; int from = FROM;
    uint32_t ok = 1;
    if (dropk) { mv = to | (80 + dropk) << 7; ok = P.emp[to] & (P.hand[US][hpOf[dropk]] != 0) & !mustPro(dropk, US, RK(to)); }
    else {
        mv = to | from << 7 | (pro ? 0x4000 : 0) | ((uint32_t)P.pc[from] & 15) << 16 | ((uint32_t)P.pc[to] & 15) << 20;
        uint32_t g = 0;
        for (int k = 1; k < 15; k++) {
            if (pro && (!canPro(k) || !(zone(US, RK(from)) || zone(US, RK(to))))) continue;
            if (!pro && mustPro(k, US, RK(to))) continue;
            g |= P.t[k][from] & reaches(P, k, US, from, to);
        }
        ok = g & P.own[from] & !P.own[to] & !P.t[T_K][to];
    }
    if (!(ok & 1)) return;
    memcpy(&q, &pos, sizeof q); q.st_ = &q.startState_;
    uint64_t cap = P.pc[to] & 15;
    sym_policy("forkidx", 40); q.doMove(Move(mv), ns); sym_policy("forkidx", 0);
    if (WHAT & 1) {
    // expected board
    for (int s = 0; s < 81; s++) Q.pc[s] = P.pc[s];
    if (dropk) Q.pc[to] = (Piece)code(dropk, US);
    else { Q.pc[to] = (Piece)((uint64_t)P.pc[from] + (pro ? 8 : 0)); Q.pc[from] = Empty; }
    Q.us = !US; preds(Q);
    uint64_t diff = 0;
    for (int s = 0; s < 81; s++) diff |= (uint64_t)(q.piece_[s] ^ Q.pc[s]);
    sym_assert_tag(diff == 0, "pieces after a move", mv & 0x7fff);
    for (int k = 1; k < 15; k++) bbIs(q.byTypeBB_[k], Q.t[k], nullptr, "piece-type bitboard after a move", (mv & 0x7fff) | k << 16);
    bbIs(q.byColorBB_[US], Q.opp, nullptr, "mover's bitboard after a move", mv & 0x7fff);
    bbIs(q.byColorBB_[!US], Q.own, nullptr, "other side's bitboard after a move", mv & 0x7fff);
    uint8_t occ[81], gold[81];
    for (int s = 0; s < 81; s++) { occ[s] = Q.own[s] | Q.opp[s]; gold[s] = Q.t[T_G][s] | Q.t[T_PP][s] | Q.t[T_PL][s] | Q.t[T_PN][s] | Q.t[T_PS][s]; }
    bbIs(q.byTypeBB_[0], occ, nullptr, "occupancy after a move", mv & 0x7fff);
    bbIs(q.goldsBB_, gold, nullptr, "golds after a move", mv & 0x7fff);
    uint32_t hd = 0;
    for (int i = 0; i < 7; i++) {
        uint32_t e = P.hand[US][i];
        if (dropk) e -= hpOf[dropk] == i;
        else { uint32_t c = 0; for (int k = 1; k < 15; k++) if (hpOf[k] == i) c |= P.t[k][to]; e += c & 1; }
        hd |= q.hand_[US].numOf((HandPiece)i) ^ e; hd |= q.hand_[!US].numOf((HandPiece)i) ^ (uint32_t)P.hand[!US][i];
    }
    sym_assert_tag(hd == 0, "hands after a move", mv & 0x7fff);
    sym_assert_tag(q.kingSquare_[!US] == OKS && q.kingSquare_[US] == (!dropk && FROM == KS ? to : KS), "king squares after a move", mv & 0x7fff);
    sym_assert_tag(q.turn_ == !US && q.gamePly_ == pos.gamePly_ + 1, "side to move and move number after a move", mv & 0x7fff);
    uint64_t w[2]; checkersOf(Q, Q.opp, OKS, US, w);
    sym_assert_tag(((q.st_->checkersBB.p(0) ^ w[0]) | (q.st_->checkersBB.p(1) ^ w[1])) == 0, "checking pieces after a move", mv & 0x7fff);
    uint32_t chk = (w[0] | w[1]) != 0;
    sym_assert_tag(pos.moveGivesCheck(Move(mv)) == (chk & 1), "does the move give check?", mv & 0x7fff);
    sym_assert_tag(q.st_->continuousCheck[US] == (chk ? pos.st_->continuousCheck[US] + 2 : 0) && q.st_->continuousCheck[!US] == pos.st_->continuousCheck[!US] && q.st_->pliesFromNull == pos.st_->pliesFromNull + 1, "check and ply counters", mv & 0x7fff);
    sym_assert_tag(q.st_->hand.value() == q.hand_[!US].value() && q.st_->previous == &q.startState_, "state record", mv & 0x7fff);
    // keys move by exactly the placed and removed pieces
    uint64_t dk = 0, dh = 0;
    for (int k = 1; k < 15; k++) {
        if (dropk) { if (k == dropk) { dk += Position::zobrist_[k][to][US]; dh -= Position::zobHand_[hpOf[k]][US]; } }
        else {
            int k2 = pro ? k + 8 : k;
            if (pro && !canPro(k)) continue;
            dk |= sum1(P.t[k][from], Position::zobrist_[k2][to][US] - Position::zobrist_[k][from][US]);
        }
    }
    uint64_t dc = 0;
    if (!dropk) for (int k = 1; k < 15; k++) if (k != T_K) { dc |= sum1(P.t[k][to], Position::zobrist_[k][to][!US]); dh |= sum1(P.t[k][to], Position::zobHand_[hpOf[k]][US]); }
    uint64_t exp = dk - dc;
    // the starting keys are free values here
    sym_assert_tag((q.st_->boardKey ^ 1) == pos.st_->boardKey + exp, "position key after a move", mv & 0x7fff);
    sym_assert_tag(q.st_->handKey == pos.st_->handKey + dh, "hand key after a move", mv & 0x7fff);
    sym_assert_tag(pos.getKeyAfter(Move(mv)) == q.getKey() && pos.getBoardKeyAfter(Move(mv)) == q.getBoardKey(), "predicted key differs from the key after the move", mv & 0x7fff);
    }
    if (!(WHAT & 2)) return;
    // ---- undo
    sym_policy("forkidx", 40); q.undoMove(Move(mv)); sym_policy("forkidx", 0);
    sym_assert_tag(q.st_ == &q.startState_, "undo leaves the wrong state record", mv & 0x7fff);
    q.st_ = pos.st_;
    uint64_t df = 0;
    const uint64_t *a = (const uint64_t*)&q, *b = (const uint64_t*)&pos;
    static_assert(sizeof(Position) % 8 == 0, "");
    for (size_t i = 0; i < sizeof(Position) / 8; i++) df |= a[i] ^ b[i];
    sym_assert_tag(df == 0, "taking back a move does not restore the position", mv & 0x7fff);
}
HARNESS h_push() {
    US = sym_param("us", 0); OKS = sym_param("ok", 4); KS = sym_param("ks", 76); FROM = sym_param("from", 40);
    int K1 = sym_param("k", 0); WHAT = sym_param("what", 3);
    symBoard2(P, US, KS, OKS); if (K1 && FROM != KS) P.pc[FROM] = (Piece)code(K1, US);
    preds(P); symHands(P);
    memset(&pos, 0, sizeof pos);
    pos.st_ = &pos.startState_; pos.turn_ = (Color)US; pos.gamePly_ = (int)sym_bits("ply", 16);
    build(pos, P);
    sym_assume(!(attacked(P, OKS, US, -1, -1) & 1)); // the side not to move is not in check
    for (int i = 0; i < 7; i++) sym_assume(P.hand[0][i] + P.hand[1][i] < (i == 0 ? 18 : i < 5 ? 4 : 2)); // a captured piece fits
    pos.st_->continuousCheck[0] = (int)sym_bits("cc0", 16); pos.st_->continuousCheck[1] = (int)sym_bits("cc1", 16); pos.st_->pliesFromNull = (int)sym_bits("pfn", 16);
    if (sym_param("keys", 0)) { pos.st_->boardKey = sym_bits("bk", 64); pos.st_->handKey = sym_bits("hk", 64); }
    else { pos.st_->boardKey = 0x9e3779b97f4a7c15ULL; pos.st_->handKey = 0xd1b54a32d192ed03ULL; }
    pos.st_->previous = nullptr;
    if (FROM >= 81) for (int to = 0; to < 81; to++) one(to, 0, FROM - 80);
    else for (int to = 0; to < 81; to++) {
        int df = FL(to) - FL(FROM), dr = RK(to) - RK(FROM); bool geo = false, pr = false;
        if (to == FROM || to == OKS || to == KS) continue;
        for (int k = 1; k < 15; k++) {
            bool g = stepOK(k, US, df, dr); for (int d = 0; d < 8; d++) if (slideOK(k, US, d)) for (int n = 1; n < 9; n++) if (df == n * RDF[d] && dr == n * RDR[d]) g = true;
            if (FROM == KS && k != T_K) g = false;
            if (FROM != KS && k == T_K) g = false;
            if (g) { geo = true; if (canPro(k) && (zone(US, RK(FROM)) || zone(US, RK(to)))) pr = true; }
        }
        if (geo) { one(to, 0, 0); if (pr) one(to, 1, 0); }
    }
    sym_reach("end");
}
