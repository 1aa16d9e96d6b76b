// Mate search: what mate_move_in_1ply, mate_move and is_mate claim is true, and asking leaves the position as it was.
#include "matepos.h"
#include "mate.h"
BASIC_INIT
HARNESS h_mate1() {
    sym_policy("nomerge", 1); around(); if (!free2() || pos.inCheck()) { sym_reach("end"); return; }
    keep();
    Move m = pos.mateMoveIn1Ply();
    same("position after asking for a mate");
    if (m) sym_assert(isLegal(m) && mates(m), "the returned mating move is not a legal mating move");
    sym_reach("end");
}
// the checks a mate search considers
HARNESS h_checks() {
    sym_policy("nomerge", 1); around(); if (!free2()) { sym_reach("end"); return; }
    static ExtMove buf[800]; ExtMove* e = generateMoves<CheckAll>(buf, pos); bool ok = true; int n = 0, m = 0; bool chk = pos.inCheck();
    for (ExtMove* x = buf; x != e; x++) { for (ExtMove* y = buf; y != x; y++) ok &= x->move.value() != y->move.value(); if (!chk || pos.checkMoveIsEvasion(x->move)) n++; }
    sym_assert(ok, "a checking move is listed twice");
    for (MoveList<LegalAll> ml(pos); !ml.end(); ++ml) {
        StateInfo st; Move v = ml.move(); pos.doMove(v, st); bool c = pos.inCheck(); pos.undoMove(v);
        if (!c) continue;
        m++; bool in = false; for (ExtMove* x = buf; x != e; x++) in |= x->move.value() == v.value() && (!chk || pos.checkMoveIsEvasion(v));
        ok &= in;
    }
    sym_assert(ok, "a legal checking move is not considered");
    sym_assert(n == m, "a move that is not a legal check is considered");
    ok = true;
    for (MoveList<LegalAll> ml(pos); !ml.end(); ++ml) {
        StateInfo st; Move v = ml.move(); pos.doMove(v, st);
        if (pos.inCheck()) ok &= mateMoveInEvenPly(pos, 0) == (MoveList<LegalAll>(pos).size() == 0);
        pos.undoMove(v);
    }
    sym_assert(ok, "mated now is not recognised");
    sym_reach("end");
}
HARNESS h_mate3() {
    sym_policy("nomerge", 1); if (sym_param("wide", 0)) wide(); else around(); if (!free2()) { sym_reach("end"); return; }
    keep();
    Move m = pos.inCheck() ? mateMoveInOddPlyReturnMove<true>(pos, 3) : mateMoveInOddPlyReturnMove<false>(pos, 3);
    same("position after asking for a mate");
    if (!m) { sym_assert(!anyMate(), "a mate in one move is missed"); sym_reach("end"); return; }
    sym_assert(isLegal(m), "the first move of the mate is not legal");
    StateInfo st; pos.doMove(m, st);
    sym_assert(lost(2), "the claimed mate is no mate");
    pos.undoMove(m);
    sym_reach("end");
}
