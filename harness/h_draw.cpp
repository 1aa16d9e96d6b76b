// Repetition verdicts over symbolic game histories, and the pass move.
#include "canon.h"
BASIC_INIT
static Position pos, q, before;
enum { MAXN = 64 };
static StateInfo st[MAXN + 1];
static uint64_t bid[MAXN + 1], hp[MAXN + 1], hg[MAXN + 1]; static uint32_t chk[MAXN + 1];
static char nm[] = "b00";
static uint64_t fresh(char c, int i, int bits) { nm[0] = c; nm[1] = '0' + i / 10; nm[2] = '0' + i % 10; return sym_bits(nm, bits); }
// a history of n plies: at each ply a position (board id, hand of the side to move) and whether the move into it gave check
static void history(int n) {
    for (int i = 0; i <= n; i++) {
        StateInfo& s = st[i];
        bid[i] = fresh('b', i, 4); hp[i] = fresh('h', i, 2); hg[i] = fresh('g', i, 1); chk[i] = i ? fresh('c', i, 1) : 0;
        s.boardKey = 0x1000 + (bid[i] << 20) + (i & 1); s.handKey = (hp[i] << 32) + (hg[i] << 40);
        s.hand.set(0); s.hand.orEqual((int)hp[i], HPawn); s.hand.orEqual((int)hg[i], HGold);
        s.checkersBB = Bitboard((uint64_t)chk[i], 0); s.previous = i ? &st[i - 1] : nullptr;
        // the mover into ply i is colour (i & 1) ^ 1: colour of the side to move at ply i is (i & 1)
        int mover = (i & 1) ^ 1;
        if (i == 0) s.continuousCheck[0] = s.continuousCheck[1] = 0;
        else { s.continuousCheck[mover] = (int)sym_ite(chk[i], st[i - 1].continuousCheck[mover] + 2, 0); s.continuousCheck[!mover] = st[i - 1].continuousCheck[!mover]; }
        // the same position is in check whenever it occurs (the starting position may itself be one in check)
    }
    for (int i = 1; i <= n; i++) for (int j = i + 2; j <= n; j += 2) sym_assume(sym_or(bid[i] != bid[j], chk[i] == chk[j]));
}
// verdict by the rules for the side to move at ply n, looking back at most lim plies
static uint32_t verdict(int n, uint64_t lim) {
    uint32_t r = NotRepetition, done = 0;
    uint32_t allMe = 1, allThem = 1; // every move of mine / theirs within the window gave check
    for (int d = 2; d <= n; d += 2) {
        allThem &= chk[n - d + 2]; allMe &= chk[n - d + 1];
        if (d < 4) continue;
        int j = n - d;
        uint32_t in = (uint64_t)d <= lim, sameB = bid[j] == bid[n];
        uint32_t eq = sameB & (hp[j] == hp[n]) & (hg[j] == hg[n]);
        uint32_t sup = sameB & (hp[n] >= hp[j]) & (hg[n] >= hg[j]), inf = sameB & (hp[j] >= hp[n]) & (hg[j] >= hg[n]);
        uint32_t v = sym_ite(eq, sym_ite(allMe, RepetitionLose, sym_ite(allThem, RepetitionWin, RepetitionDraw)), sym_ite(sup, RepetitionSuperior, RepetitionInferior));
        uint32_t hit = in & !done & (eq | sup | inf);
        r = (uint32_t)sym_ite(hit & 1, v, r); done |= hit & 1;
    }
    return r;
}
HARNESS h_isdraw() {
    int n = sym_param("n", 8);
    history(n);
    pos.turn_ = (Color)(n & 1); pos.st_ = &st[n]; pos.gamePly_ = n + 1;
    uint64_t pfn = sym_bits("pfn", 6); sym_assume(pfn <= (uint64_t)n);
    uint64_t lim = sym_bits("lim", 6);
    st[n].pliesFromNull = (int)pfn;
    uint32_t got = pos.isDraw((int)lim);
    sym_assert(got == verdict(n, sym_ite(lim < pfn, lim, pfn)), "repetition verdict differs from the rule");
    sym_assert((uint32_t)pos.isDraw() == verdict(n, pfn), "repetition verdict differs from the rule (no limit)");
    sym_reach("end");
}
// a real position and move; the history holds free keys, some of which may be the key of the position after the move
HARNESS h_movedraw() {
    int n = sym_param("n", 7), gives = sym_param("chk", 0);
    int us = n & 1;
    history(n);
    static Piece pc[81]; static int hand[2][7];
    for (auto& x : pc) x = Empty;
    pc[us ? 80 - 4 : 4] = (Piece)code(T_K, !us); pc[us ? 80 - 76 : 76] = (Piece)code(T_K, us); pc[us ? 80 - 30 : 30] = (Piece)code(T_R, us);
    hand[us][0] = 1;
    pos.st_ = &pos.startState_; pos.turn_ = (Color)us; pos.gamePly_ = n + 1; pos.set(pc, hand);
    int from = us ? 80 - 30 : 30, to = gives ? 31 : 29; if (us) to = 80 - to; // onto the king's rank, or not
    Move m(to | from << 7 | T_R << 16);
    // the real key of this position, and of the position after the move
    st[n].boardKey = pos.st_->boardKey; st[n].handKey = pos.st_->handKey; st[n].hand = pos.st_->hand; st[n].checkersBB = pos.st_->checkersBB;
    sym_assume(chk[n] == 0);
    bool gc = pos.moveGivesCheck(m);
    sym_assert(gc == (gives != 0), "test move gives check as intended");
    uint64_t ka = pos.getBoardKeyAfter(m), kh = pos.getKeyAfter(m) - ka;
    for (int i = (n & 1) ^ 1; i <= n; i += 2) { // plies at which the opponent is to move
        uint32_t same = fresh('s', i, 1); // is it the position the move leads to?
        sym_assume(sym_or(!same, i == 0 || chk[i] == (uint32_t)gives));
        st[i].boardKey = sym_ite(same, ka, st[i].boardKey); st[i].handKey = sym_ite(same, kh, st[i].handKey);
        st[i].hand.set((u32)sym_ite(same, pos.hand((Color)!us).value(), st[i].hand.value()));
    }
    uint64_t pfn = sym_bits("pfn", 6); sym_assume(pfn <= (uint64_t)n);
    uint64_t lim = sym_bits("lim", 6);
    st[n].pliesFromNull = (int)pfn;
    pos.st_ = &st[n];
    uint32_t pre = pos.moveIsDraw(m, (int)lim);
    static StateInfo ns; pos.doMove(m, ns);
    uint32_t post = pos.isDraw((int)lim);
    sym_assert(pre == post, "verdict for a move differs from the verdict after making it");
    sym_reach("end");
}
HARNESS h_pass() {
    int us = sym_param("us", 0); static SymPos P;
    anyBoard(P, us); preds(P); symHands(P);
    int K = sym_param("ks", 76), O = sym_param("ok", 4);
    canonical(pos, P, K, O);
    pos.gamePly_ = (int)sym_bits("ply", 16);
    pos.st_->continuousCheck[0] = (int)sym_bits("cc0", 16); pos.st_->continuousCheck[1] = (int)sym_bits("cc1", 16); pos.st_->pliesFromNull = (int)sym_bits("pfn", 16);
    pos.st_->boardKey = sym_bits("bk", 64); pos.st_->handKey = sym_bits("hk", 64); pos.st_->checkersBB = Bitboard(0, 0); pos.st_->previous = nullptr;
    memcpy(&before, &pos, sizeof pos); before.st_ = nullptr;
    static StateInfo bk; // as the board's history does
    pos.doNullMove<true>(bk);
    sym_assert(pos.turn_ == !us, "a pass hands over the turn");
    uint64_t d = 0; for (int s = 0; s < 81; s++) d |= (uint64_t)(pos.piece_[s] ^ P.pc[s]);
    sym_assert(d == 0 && pos.hand_[0].value() == before.hand_[0].value() && pos.hand_[1].value() == before.hand_[1].value(), "a pass moves no piece");
    sym_assert(pos.getKey() == ((before.startState_.boardKey ^ 1) + before.startState_.handKey), "key after a pass");
    sym_assert(pos.st_->hand.value() == pos.hand_[!us].value() && pos.st_->pliesFromNull == 0, "state after a pass");
    sym_assert(!pos.inCheck(), "nobody is in check after a pass");
    pos.doNullMove<false>(bk);
    sym_assert(pos.st_ == &pos.startState_, "state record after taking back a pass"); pos.st_ = nullptr;
    uint64_t df = 0; const uint64_t *a = (const uint64_t*)&pos, *b = (const uint64_t*)&before;
    for (size_t i = 0; i < sizeof(Position) / 8; i++) df |= a[i] ^ b[i];
    sym_assert(df == 0, "taking back a pass does not restore the position");
    sym_reach("end");
}
