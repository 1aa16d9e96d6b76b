// Board objects: copies, histories, position commands, rotation of SFEN text, opening-book keys.
#include "textref.h"
#define private public
#include "cshogi.h"
#undef private
extern "C" __attribute__((used, noinline)) void sym_init() { initTable(); Position::initZobrist(); HuffmanCodedPos::init(); PackedSfen::init(); Book::init(); }
// ---- rotation of a SFEN text: the same game seen from the other side
static void rot(int us, unsigned ply) {
    std::string s = sfenRef(us, ply);
    Piece p2[81]; int h2[2][7];
    for (int i = 0; i < 81; i++) p2[80 - i] = pc[i] == Empty ? Empty : (Piece)(pc[i] ^ 16);
    for (int c = 0; c < 2; c++) for (int i = 0; i < 7; i++) h2[!c][i] = hand[c][i];
    memcpy(pc, p2, sizeof pc); memcpy(hand, h2, sizeof hand);
    std::string r = __rotate_sfen(s);
    textIs(r, sfenRef(!us, ply), "rotated SFEN");
    textIs(__rotate_sfen(r), s, "rotating twice");
}
HARNESS h_rotate() {
    int us = sym_param("us", 0), K = sym_param("ks", 76), O = sym_param("ok", 4), a = sym_param("a", 30), b = sym_param("b", 31);
    sym_policy("nomerge", 1);
    base(us, K, O, a, b);
    pc[a] = (Piece)codes[pick("pa", 27)]; pc[b] = (Piece)codes[pick("pb", 27)];
    rot(us, (unsigned)sym_param("ply", 1));
    sym_reach("end");
}
HARNESS h_rotatehands() {
    int us = sym_param("us", 0), hp = sym_param("hp", 0);
    sym_policy("nomerge", 1);
    base(us, 76, 4, 81, 81);
    if (sym_param("only", 0)) for (auto& h : hand) for (int& x : h) x = 0;
    for (int s = 0; s < 81; s++) if (hpOf[pc[s] & 15] == hp) pc[s] = Empty;
    hand[0][hp] = pick("h0", total[hp] + 1); hand[1][hp] = pick("h1", total[hp] + 1 - hand[0][hp]);
    rot(us, (unsigned)sym_param("ply", 1));
    sym_reach("end");
}
HARNESS h_rotateany() { // arbitrary characters: no foreign memory
    int bg = sym_param("bg", 0), at = sym_param("at", 0), n = sym_param("n", 1), cut = sym_param("cut", 0);
    sym_policy("nomerge", 1); sym_allow_throw(1);
    std::string b(bgText[bg]), s; if ((size_t)at > b.size()) { sym_reach("end"); return; }
    s = b.substr(0, at);
    for (int i = 0; i < n; i++) s.push_back(anyChar(i));
    if ((size_t)(at + cut) < b.size()) s += b.substr(at + cut);
    try { std::string r = __rotate_sfen(s); } catch (std::exception&) {}
    sym_reach("end");
}
// ---- board objects
static const char* const starts[4] = {"4k4/9/9/9/9/9/9/1R7/4K4 b P 1", "4k4/4p4/9/9/9/9/9/9/4K4 w 2Gr 9", "lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1", "8k/9/8P/9/9/9/9/9/K8 b Rg 31"};
struct Obs { std::string sfen; uint64_t key; int chk, draw, turn; std::vector<int> hist; };
static NOINLINE Obs obs(const __Board& b) { Obs o; o.sfen = b.toSFEN(); o.key = b.getKey(); o.chk = b.inCheck(); o.draw = b.isDraw(INT_MAX) * 10 + b.isDraw(4); o.turn = b.turn(); o.hist = b.get_history(); return o; }
static NOINLINE void sameObs(const Obs& a, const Obs& b, const char* l) { sym_assert(a.sfen == b.sfen && a.key == b.key && a.chk == b.chk && a.draw == b.draw && a.turn == b.turn && a.hist == b.hist, l); }
// a symbolic step: one of the first legal moves, one of the last, or a pass (the own king not being in check)
static NOINLINE int step(__Board& b, const char* name) {
    MoveList<LegalAll> ml(b.pos); std::vector<int> m; for (; !ml.end(); ++ml) m.push_back((int)ml.move().value());
    int n = (int)m.size(), opt = (int)sym_param("opt", 4); if (n > opt) { for (int i = 0; i < opt / 2; i++) m[opt - 1 - i] = m[n - 1 - i]; n = opt; }
    bool pass = !b.inCheck() && sym_param("pass", 1);
    if (n + pass == 0) return -1;
    int k = pick(name, n + (pass ? 1 : 0));
    if (k == n) { b.push_pass(); return -2; }
    b.push(m[k]); return m[k];
}
static void unstep(__Board& b, int m, const char* l) { if (m == -2) b.pop_pass(); else sym_assert(b.pop() == m, l); }
HARNESS h_copy() {
    int n = sym_param("n", 3), how = sym_param("how", 0); sym_policy("nomerge", 1);
    static char nm[] = "m0"; static int mv[8]; static Obs at[8];
    __Board* a = new __Board(starts[sym_param("st", 0)]); int d = 0;
    for (; d < n; d++) { nm[1] = '0' + d; at[d] = obs(*a); mv[d] = step(*a, nm); if (mv[d] == -1) break; }
    at[d] = obs(*a);
    __Board* c;
    if (how == 0) c = new __Board(*a);
    else { c = new __Board(starts[1]); step(*c, "x0"); if (how == 2) { __Board t(*a); *c = t; } else *c = *a; if (how == 3) *c = *c; }
    sameObs(obs(*c), at[d], "copy differs from the original");
    // the copy goes on, the original does not notice
    int x = step(*c, "y"); sameObs(obs(*a), at[d], "the original changes with its copy");
    if (x != -1) unstep(*c, x, "move taken back on a copy");
    // the original goes back and disappears, the copy does not notice
    for (int i = d - 1; i >= (d + 1) / 2; i--) unstep(*a, mv[i], "move taken back");
    step(*a, "z"); if (sym_param("reset", 0)) a->reset();
    delete a;
    for (int i = d;; i--) { sameObs(obs(*c), at[i], "take-back on a copy"); if (i == 0) break; unstep(*c, mv[i - 1], "move taken back on a copy"); }
    delete c; sym_reach("end");
}
HARNESS h_history() {
    int n = sym_param("n", 3); sym_policy("nomerge", 1);
    static char nm[] = "m0"; static int mv[8]; static Obs at[8];
    __Board b(starts[sym_param("st", 0)]); int d = 0;
    sym_assert(b.peek() == 0 && b.get_history().empty(), "history of a new board");
    for (; d < n; d++) { nm[1] = '0' + d; at[d] = obs(b); mv[d] = step(b, nm); if (mv[d] == -1) break; sym_assert(b.peek() == (mv[d] == -2 ? (int)Move::moveNull().value() : mv[d]), "last move"); }
    std::vector<int> h = b.get_history(); bool ok = (int)h.size() == d;
    for (int i = 0; i < d && ok; i++) ok &= h[i] == (mv[i] == -2 ? (int)Move::moveNull().value() : mv[i]);
    sym_assert(ok, "history lists the moves in order");
    // the same game given as a position command
    if (sym_param("pass", 1) == 0) {
        std::string cmd = "sfen "; cmd += starts[sym_param("st", 0)]; if (d) cmd += " moves"; for (int i = 0; i < d; i++) { cmd += " "; cmd += __move_to_usi(mv[i]); }
        __Board e; e.set_position(cmd); sameObs(obs(e), obs(b), "position command");
    }
    for (int i = d - 1; i >= 0; i--) { unstep(b, mv[i], "pop returns the last move"); sameObs(obs(b), at[i], "take-back"); }
    sym_assert(b.peek() == 0 && b.get_history().empty(), "history after taking everything back");
    step(b, "q"); int how = sym_param("how", 0);
    if (how == 0) b.reset(); else if (how == 1) b.set(starts[2]); else { __Board e; uint8_t buf[32]; if (how == 2) { e.toHuffmanCodedPos((char*)buf); b.set_hcp((char*)buf); } else { e.toPackedSfen((char*)buf); b.set_psfen((char*)buf); } b.setPly(1); }
    __Board fresh; sameObs(obs(b), obs(fresh), "a board set up anew"); sym_assert(b.peek() == 0, "history of a board set up anew");
    sym_reach("end");
}
// ---- opening-book keys
HARNESS h_book() {
    int us = sym_param("us", 0), from = sym_param("from", 30), to = sym_param("to", 31), hp = sym_param("hp", 0); bool drop = from >= 81;
    sym_policy("nomerge", 1);
    base(us, sym_param("ks", 76), sym_param("ok", 4), drop ? to : from, to);
    int h0 = total[hp] < 5 ? total[hp] + 1 : 6;
    hand[us][hp] = pick("h", h0 - drop) + drop;
    __Board b; b.pos.turn_ = (Color)us; int m;
    if (drop) { b.pos.set(pc, hand); m = b.drop_move(to, hp); }
    else {
        static const int own[13] = {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14}; int k = own[pick("pf", 13)];
        pc[from] = (Piece)code(k, us); int cp = pick("pt", 14); pc[to] = cp ? (Piece)code(own[cp - 1], !us) : Empty;
        b.pos.set(pc, hand);
        bool zone = us == 0 ? RK(from) <= 2 || RK(to) <= 2 : RK(from) >= 6 || RK(to) >= 6;
        m = b.move(from, to, k < 7 && zone && pick("pro", 2));
    }
    uint64_t key = 0;
    for (int s = 0; s < 81; s++) if (pc[s]) key ^= Book::ZobPiece[pc[s]][s];
    for (int i = 0; i < 7; i++) key ^= Book::ZobHand[i][hand[us][i]];
    if (us) key ^= Book::ZobTurn;
    uint64_t k0 = b.bookKey(); sym_assert(k0 == key, "book key of a position");
    uint64_t ka = b.bookKeyAfter(k0, m);
    StateInfo st; b.pos.doMove(Move(m), st);
    sym_assert(ka == b.bookKey(), "book key predicted for a move");
    sym_reach("end");
}
// ---- what a board reports about its squares, hands and moves
static __Board* Vp;
static NOINLINE void views(int us, int K, int O) {
    Vp = new __Board(); __Board& V = *Vp; V.set_pieces((const int*)pc, hand); V.setTurn(us);
    std::vector<int> v = V.pieces(); bool ok = v.size() == 81;
    for (int s = 0; ok && s < 81; s++) ok = v[s] == (int)pc[s] && V.piece(s) == (int)pc[s];
    sym_assert(ok, "array of pieces");
    for (int c = 0; c < 2; c++) { std::vector<int> h = V.pieces_in_hand(c); ok = h.size() == 7; for (int i = 0; ok && i < 7; i++) ok = h[i] == hand[c][i]; sym_assert_tag(ok, "array of pieces in hand", c); }
    sym_assert(V.turn() == us && V.kingSquare(us) == K && V.kingSquare(!us) == O, "turn and kings");
    sym_assert(V.get_history().empty() && V.peek() == 0, "a board set up from pieces has no history");
}
HARNESS h_views() {
    int us = sym_param("us", 0), K = sym_param("ks", 76), O = sym_param("ok", 4), a = sym_param("a", 30), b = sym_param("b", 31);
    sym_policy("nomerge", 1);
    base(us, K, O, a, b);
    pc[a] = (Piece)codes[pick("pa", 27)]; pc[b] = (Piece)codes[pick("pb", 27)];
    views(us, K, O); __Board& V = *Vp;
    if (pc[a] != Empty) {
        int k = pc[a] & 15;
        sym_assert(V.move(a, b, false) == (b | a << 7 | k << 16 | (pc[b] & 15) << 20), "move value from squares");
        sym_assert(V.move(a, b, true) == (b | a << 7 | 0x4000 | k << 16 | (pc[b] & 15) << 20), "promoting move value from squares");
    }
    int d = 1 + pick("d", 7); sym_assert(V.drop_move(b, d) == (b | (80 + d) << 7), "drop value");
    sym_reach("end");
}
HARNESS h_viewhands() {
    int us = sym_param("us", 0), hp = sym_param("hp", 0);
    sym_policy("nomerge", 1);
    base(us, 76, 4, 81, 81);
    if (sym_param("only", 0)) for (auto& h : hand) for (int& x : h) x = 0;
    for (int s = 0; s < 81; s++) if (hpOf[pc[s] & 15] == hp) pc[s] = Empty;
    hand[0][hp] = pick("h0", total[hp] + 1); hand[1][hp] = pick("h1", total[hp] + 1 - hand[0][hp]);
    views(us, 76, 4);
    sym_reach("end");
}
