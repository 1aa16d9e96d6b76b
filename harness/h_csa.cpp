// CSA game records: what the parser reports is what the text denotes; malformed text does no harm.
#include "textref.h"
#define private public
#include "parser.h"
#undef private
BASIC_INIT
static parser::__Parser P;
static Piece xpc[81]; static int xhand[2][7];
static NOINLINE void sfenDenotes(const std::string& s, int turn, const char* l) {
    memcpy(xpc, pc, sizeof pc); memcpy(xhand, hand, sizeof hand);
    bool ok = refParse(s) && rturn == turn && rply == 1; // fills pc, hand
    for (int i = 0; i < 81; i++) ok &= pc[i] == xpc[i];
    for (int c = 0; c < 2; c++) for (int i = 0; i < 7; i++) ok &= hand[c][i] == xhand[c][i];
    sym_assert(ok, l);
}
static const char* const hn[7] = {"FU", "KY", "KE", "GI", "KI", "KA", "HI"};
static void sq2(std::string& s, int q) { s.push_back((char)('1' + FL(q))); s.push_back((char)('1' + RK(q))); }
// the position block of pc/hand: full ranks (0) or piece by piece (1)
static NOINLINE std::string block(int form, int turn) {
    if (form == 0) return csaRef(turn);
    std::string s;
    for (int c = 0; c < 2; c++) {
        int n = 0; std::string l = c ? "P-" : "P+", head = l;
        for (int q = 0; q < 81; q++) if (pc[q] != Empty && (pc[q] >> 4) == c) { sq2(l, q); l += csaCh[pc[q] & 15]; if (++n == 7) { s += l + "\n"; l = head; n = 0; } }
        for (int i = 0; i < 7; i++) for (int k = 0; k < hand[c][i]; k++) { l += "00"; l += hn[i]; }
        if (l != head) s += l + "\n";
    }
    return s + (turn ? "-\n" : "+\n");
}
static const char ini[] = "lnsgkgsnl/1r5b1/ppppppppp/9/9/9/PPPPPPPPP/1B5R1/LNSGKGSNL b - 1";
HARNESS h_pos() {
    int us = sym_param("us", 0), a = sym_param("a", 30), b = sym_param("b", 31), form = sym_param("form", 0);
    sym_policy("nomerge", 1);
    if (form < 2) {
        base(us, sym_param("ks", 76), sym_param("ok", 4), a, b);
        pc[a] = (Piece)codes[pick("pa", 27)]; pc[b] = (Piece)codes[pick("pb", 27)];
        P.parse_csa_str(block(form, us));
    } else { // the initial position less two pieces
        refParse(ini); memcpy(xpc, pc, sizeof pc); std::string s = "PI";
        for (int k = 0; k < 2; k++) {
            int i = pick6(k ? "r1" : "r0", 41), q = -1, n = 0; if (i == 40) continue;
            for (int x = 0; x < 81 && q < 0; x++) if (xpc[x] != Empty && n++ == i) q = x;
            if (pc[q] == Empty) continue;
            sq2(s, q); s += csaCh[pc[q] & 15]; pc[q] = Empty;
        }
        P.parse_csa_str(s + (us ? "\n-\n" : "\n+\n"));
    }
    sfenDenotes(P.sfen, us, "start position of a CSA record");
    sym_assert(P.moves.empty() && P.times.empty() && P.endgame.empty() && P.win == Draw, "record without moves");
    sym_reach("end");
}
HARNESS h_poshand() {
    int us = sym_param("us", 0), hp = sym_param("hp", 0); sym_policy("nomerge", 1);
    base(us, 76, 4, 81, 81);
    for (int s = 0; s < 81; s++) if (hpOf[pc[s] & 15] == hp) pc[s] = Empty;
    hand[0][hp] = pick("h0", total[hp] + 1); hand[1][hp] = pick("h1", total[hp] + 1 - hand[0][hp]);
    P.parse_csa_str(block(sym_param("form", 0), us));
    sfenDenotes(P.sfen, us, "hands in a CSA record");
    sym_reach("end");
}
// ---- whole records
static const char* const starts[4] = {"4k4/9/9/9/9/9/9/1R7/4K4 b P 1", "4k4/4p4/9/9/9/9/9/9/4K4 w 2Gr 1", ini, "8k/9/8P/9/9/9/9/9/K8 b Rg 1"};
static NOINLINE std::string csaMove(const Position& p, Move m) { // written down independently of Move::toCSA
    std::string s = p.turn() == Black ? "+" : "-"; uint32_t v = m.value(); int from = v >> 7 & 127, to = v & 127, k;
    if (from >= 81) { s += "00"; k = from - 80; } else { sq2(s, from); k = (p.piece((Square)from) & 15) + (v >> 14 & 1 ? 8 : 0); }
    sq2(s, to); return s + csaCh[k];
}
static const char* const ends[14] = {"", "%TORYO", "%KACHI", "%TIME_UP", "%ILLEGAL_MOVE", "%+ILLEGAL_ACTION", "%-ILLEGAL_ACTION", "%SENNICHITE", "%JISHOGI", "%CHUDAN", "%TORYO,'good game", "'summary:illegal move:a lose:b win", "'summary:max_moves:a draw:b draw", "'summary:abnormal:a lose:b win"};
HARNESS h_record() {
    int n = sym_param("n", 2), opt = sym_param("opt", 4); sym_policy("nomerge", 1);
    static Position p; static StateInfo st[8]; static char nm[] = "m0", nx[] = "x0";
    std::vector<int> mv, tm, sc; std::vector<std::string> cm; std::string free;
    p.set(std::string(starts[sym_param("st", 0)])); refParse(starts[sym_param("st", 0)]);
    int turn0 = p.turn();
    std::string s = "V2.2\nN+Alice\nN-Bob:x\n$EVENT:cup\n$TIME_LIMIT:00:10+00\n'opening remark\n"; free = "'opening remark\n";
    s += sym_param("st", 0) == 2 ? std::string("PI\n+\n") : block(sym_param("form", 0), turn0);
    for (int i = 0; i < n; i++) {
        nm[1] = nx[1] = '0' + i;
        MoveList<LegalAll> ml(p); std::vector<Move> m; for (; !ml.end(); ++ml) m.push_back(ml.move());
        int c = (int)m.size(); if (!c) break;
        if (c > opt) { for (int j = 0; j < opt / 2; j++) m[opt - 1 - j] = m[c - 1 - j]; c = opt; }
        Move x = m[pick(nm, c)];
        s += csaMove(p, x); mv.push_back((int)x.value()); tm.push_back(0); sc.push_back(0); cm.push_back("");
        switch (pick(nx, sym_param("extra", 8))) {
        case 0: s += "\n"; break;
        case 1: s += "\nT12\n"; tm.back() = 12; break;
        case 2: s += "\n'** 35 next\n"; sc.back() = 35; cm.back() = "35 next"; break;
        case 3: s += ",'why\n"; cm.back() = "why"; break;
        case 4: s += "\n'** -7\nT345\n"; sc.back() = -7; cm.back() = "-7"; tm.back() = 345; break;
        case 5: s += ",T8\n\n'** 2147483647 x y\n"; sc.back() = 2147483647; cm.back() = "2147483647 x y"; break;
        case 6: s += "\n'** book\n"; cm.back() = "book"; break;
        default: s += "\n'remark\nT1\n"; free += "'remark\n"; tm.back() = 1; break;
        }
        p.doMove(x, st[i]);
    }
    int e = pick("end", 14), lose = 2; std::string eg;
    switch (e) { case 1: case 3: case 4: case 10: lose = p.turn(); break; case 2: lose = !p.turn(); break; case 5: lose = 0; break; case 6: lose = 1; break; case 11: lose = p.turn(); break; default: ; }
    eg = e == 10 ? "%TORYO" : e == 11 ? "%ILLEGAL_MOVE" : e == 12 ? "%JISHOGI" : e == 13 ? "%ERROR" : ends[e];
    if (e >= 11) { free += ends[e]; free += "\n"; }
    s += ends[e]; if (e) s += "\n";
    if (e && e < 11 && pick("te", 2)) { s += "T6\n"; tm.push_back(6); }
    if (sym_param("again", 0)) { try { P.parse_csa_str("V1\nN+X\nN-Y\n$Z:1\nPI\n+\n+7776FU,'c\nT9\n'** 3\n%TORYO\nT5\n"); } catch (std::exception&) {} } // nothing of it may remain
    P.parse_csa_str(s);
    sfenDenotes(P.sfen, turn0, "start position of a CSA record");
    sym_assert(P.moves == mv, "moves of a CSA record");
    sym_assert(P.times == tm, "times of a CSA record");
    sym_assert(P.scores == sc, "scores of a CSA record"); sym_assert(P.comments == cm, "move comments of a CSA record");
    sym_assert(P.comment == free, "free comments of a CSA record");
    sym_assert(P.endgame == eg, "end of a CSA record"); sym_assert(P.win == (lose == 2 ? (int)Draw : lose == 0 ? (int)WhiteWin : (int)BlackWin), "result of a CSA record");
    sym_assert(P.version == "V2.2" && P.names[0] == "Alice" && P.names[1] == "Bob:x" && P.informations.size() == 2 && P.informations[0] == "$EVENT:cup" && P.informations[1] == "$TIME_LIMIT:00:10+00", "header of a CSA record");
    sym_reach("end");
}
// ---- arbitrary characters
static const char* const recs[3] = {"V2.2\nN+A\nPI82HI\n+\n+7776FU\nT1\n'** 3 x\n%TORYO,'e\n",
 "'** 1\nP1-KY *  *  * -OU *  *  * -KY\nP+00FU59OU\nP-11KY\n-\n-5152OU\nT5\n", "N-\nP+59OU00FUFU\nP-51OU\n+\n+0055FU,'c\n%KACHI\n"};
static const char calph[] = "0123456789PINVT+-%'*,KFUOHYRE/: \n";
static NOINLINE char csaChar(int i) {
    static char nc[] = "c0", nk[] = "k0"; nc[1] = nk[1] = '0' + i; const int N = sizeof calph - 1;
    int k = pick6(nk, N + 1); if (k < N) return calph[k];
    uint64_t c = sym_bits(nc, 8); for (int j = 0; j < N; j++) sym_assume(c != (uint64_t)(unsigned char)calph[j]);
    return (char)c;
}
HARNESS h_any() {
    int at = sym_param("at", 0), n = sym_param("n", 1), cut = sym_param("cut", 0);
    sym_policy("nomerge", 1); sym_allow_throw(1);
    std::string b(recs[sym_param("bg", 0)]), s; if ((size_t)at > b.size()) { sym_reach("end"); return; }
    s = b.substr(0, at);
    for (int i = 0; i < n; i++) s.push_back(csaChar(i));
    if ((size_t)(at + cut) < b.size()) s += b.substr(at + cut);
    try {
        P.parse_csa_str(s);
        bool ok = P.scores.size() == P.moves.size() && P.comments.size() == P.moves.size();
        for (int m : P.moves) ok &= m != 0;
        sym_assert(ok, "a record is read with a move that is none");
    } catch (std::exception&) {}
    sym_reach("end");
}
