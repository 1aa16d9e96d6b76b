// Binary position formats (Huffman-coded position, packed sfen): round trip, and robustness against arbitrary data.
#include "bg.h"
extern "C" __attribute__((used, noinline)) void sym_init() { initTable(); Position::initZobrist(); HuffmanCodedPos::init(); PackedSfen::init(); }
static uint8_t buf[40];
static void encdec(int fmt) {
    for (auto& x : buf) x = 0xa5;
    if (fmt) { pos.toPackedSfen(buf + 4); q.set_psfen((const char*)buf + 4); } else { pos.toHuffmanCodedPos(buf + 4); q.set_hcp((const char*)buf + 4); }
    uint32_t g = 0; for (int i = 0; i < 4; i++) g |= (buf[i] ^ 0xa5) | (buf[36 + i] ^ 0xa5);
    sym_assert(g == 0, "encoding writes outside its 32 bytes");
    same("decoding an encoded position gives another position");
}
HARNESS h_round() {
    int us = sym_param("us", 0), K = sym_param("ks", 76), O = sym_param("ok", 4), a = sym_param("a", 30), b = sym_param("b", 31), fmt = sym_param("fmt", 0);
    sym_policy("nomerge", 1);
    base(us, K, O, a, b);
    pc[a] = (Piece)codes[pick("pa", 27)]; pc[b] = (Piece)codes[pick("pb", 27)];
    pos.turn_ = (Color)us; pos.set(pc, hand);
    encdec(fmt);
    sym_reach("end");
}
// hands: any count of one kind on both sides
HARNESS h_roundhand() {
    int us = sym_param("us", 0), K = sym_param("ks", 76), O = sym_param("ok", 4), fmt = sym_param("fmt", 0), hp = sym_param("hp", 0);
    sym_policy("nomerge", 1);
    base(us, K, O, 81, 81);
    for (int s = 0; s < 81; s++) if (hpOf[pc[s] & 15] == hp) pc[s] = Empty;
    hand[0][hp] = pick("h0", total[hp] + 1); hand[1][hp] = pick("h1", total[hp] + 1 - hand[0][hp]);
    pos.turn_ = (Color)us; pos.set(pc, hand);
    encdec(fmt);
    sym_reach("end");
}
// arbitrary bytes at one place of otherwise given data: decoded or refused with an exception, without touching foreign memory
HARNESS h_garbage() {
    int fmt = sym_param("fmt", 0), at = sym_param("at", 0), n = sym_param("n", 1), fill = sym_param("fill", 0);
    sym_policy("nomerge", 1); sym_allow_throw(1);
    static uint8_t d[32]; static char nm[] = "d0";
    int us = 0; base(us, 76, 4, 81, 81); pos.turn_ = (Color)us; pos.set(pc, hand);
    if (fill == 0) { if (fmt) pos.toPackedSfen(d); else pos.toHuffmanCodedPos(d); } else for (auto& x : d) x = (uint8_t)fill;
    for (int i = 0; i < n; i++) { nm[1] = '0' + i; d[at + i] = (uint8_t)sym_bits(nm, 8); }
    try { if (fmt) q.set_psfen((const char*)d); else q.set_hcp((const char*)d); } catch (std::exception&) { sym_reach("refused"); return; }
    sym_assert(q.kingSquare(Black) <= SquareNum && q.kingSquare(White) <= SquareNum && (q.kingSquare(Black) != q.kingSquare(White) || q.kingSquare(Black) == SquareNum), "decoded position has its kings");
    sym_reach("end");
}
