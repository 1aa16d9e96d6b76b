// SFEN and CSA position text: writing, reading back, and malformed text.
#include "textref.h"
BASIC_INIT
static void go(int us, unsigned ply) {
    pos.turn_ = (Color)us; pos.gamePly_ = (int)ply; pos.set(pc, hand);
    std::string s = pos.toSFEN();
    textIs(s, sfenRef(us, ply), "SFEN of a position");
    q.turn_ = (Color)!us; q.gamePly_ = 77; for (auto& x : q.piece_) x = BDragon; // whatever the object held before
    q.set(s);
    same("reading back a SFEN gives another position"); sym_assert(q.gamePly() == (int)ply, "move number read back");
    textIs(pos.toCSAPos(), csaRef(us), "CSA text of a position");
}
HARNESS h_round() {
    int us = sym_param("us", 0), K = sym_param("ks", 76), O = sym_param("ok", 4), a = sym_param("a", 30), b = sym_param("b", 31);
    sym_policy("nomerge", 1);
    base(us, K, O, a, b);
    pc[a] = (Piece)codes[pick("pa", 27)]; pc[b] = (Piece)codes[pick("pb", 27)];
    go(us, (unsigned)sym_param("ply", 1));
    sym_reach("end");
}
HARNESS h_hands() {
    int us = sym_param("us", 0), hp = sym_param("hp", 0);
    sym_policy("nomerge", 1);
    base(us, 76, 4, 81, 81);
    if (sym_param("only", 0)) for (auto& h : hand) for (int& x : h) x = 0;
    for (int s = 0; s < 81; s++) if (hpOf[pc[s] & 15] == hp) pc[s] = Empty;
    hand[0][hp] = pick("h0", total[hp] + 1); hand[1][hp] = pick("h1", total[hp] + 1 - hand[0][hp]);
    go(us, (unsigned)sym_param("ply", 1));
    sym_reach("end");
}
HARNESS h_ply() {
    int us = sym_param("us", 0);
    sym_policy("nomerge", 1);
    base(us, 76, 4, 81, 81);
    uint64_t n = sym_bits("ply", 15); go(us, (unsigned)n);
    sym_reach("end");
}
// Arbitrary characters inside a SFEN: a well-formed text gives the position it denotes, anything else is refused with an
// exception or read as something, but never touches memory that does not belong to it.
HARNESS h_any() {
    int bg = sym_param("bg", 0), at = sym_param("at", 0), n = sym_param("n", 1), cut = sym_param("cut", 0);
    sym_policy("nomerge", 1); sym_allow_throw(1);
    std::string b(bgText[bg]), s; if ((size_t)at > b.size()) { sym_reach("end"); return; } 
    s = b.substr(0, at);
    for (int i = 0; i < n; i++) s.push_back(anyChar(i));
    if ((size_t)(at + cut) < b.size()) s += b.substr(at + cut);
    q.clear();
    try { q.set(s); } catch (std::exception&) {
        sym_assert(!refParse(s), "a well-formed SFEN is refused"); sym_reach("end"); return;
    }
    if (refParse(s)) {
        pos.turn_ = (Color)rturn; pos.gamePly_ = rply; pos.set(pc, hand);
        same("a SFEN gives another position than it denotes"); sym_assert(q.gamePly() == rply && q.turn() == rturn, "turn and move number of a SFEN");
    }
    sym_reach("end");
}
