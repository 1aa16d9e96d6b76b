// Proof-number mate search (DfPn, OslDfPn): claims are true, with enough nodes nothing within the depth is missed.
#include "matepos.h"
#ifdef OSL
#include "osl_dfpn.h"
typedef OslDfPn Search; enum { Complete = 0 };
#else
#include "dfpn.h"
typedef DfPn Search; enum { Complete = 1 };
#endif
BASIC_INIT
HARNESS h_dfpn() {
    int depth = sym_param("depth", 3), nodes = sym_param("nodes", 100000); sym_policy("nomerge", 1); if (sym_param("wide", 0)) wide(); else around(); if (!free2()) { sym_reach("end"); return; }
    keep();
    Search d(depth, (uint32_t)nodes, 1000);
    bool r = d.dfpn(pos);
    same("position after a mate search");
    if (!r) { if (Complete && nodes >= 100000) sym_assert(!wins(depth), "a mate within the depth is missed"); sym_reach("end"); return; }
    Move m = d.dfpn_move(pos);
    same("position after asking for the mating move");
    sym_assert(bool(m) && isLegal(m), "the mating move is not a legal move");
    StateInfo st; pos.doMove(m, st); bool l = lost(depth == 3 ? 2 : depth + 1); pos.undoMove(m);
    sym_assert(l, "the claimed mate is no mate");
    std::vector<u32> pv; d.get_pv(pos, pv);
    same("position after asking for the mating line");
    bool ok = pv.size() % 2 == 1 && pv.size() < 30 && pv[0] == m.value(); static StateInfo sts[32]; size_t k = 0;
    for (; ok && k < pv.size(); k++) { if (!isLegal(Move(pv[k]))) { ok = false; break; } pos.doMove(Move(pv[k]), sts[k]); }
    if (ok) ok = pos.inCheck() && MoveList<LegalAll>(pos).size() == 0;
    sym_assert(ok, "the mating line is not a legal line ending in mate");
    while (k--) pos.undoMove(Move(pv[k]));
    // the defender's view after the first move, with the same table
    pos.doMove(m, st); bool a = d.dfpn_andnode(pos); pos.undoMove(m);
    if (Complete && nodes >= 100000) sym_assert(a, "the defender's position is not seen as mated");
    sym_reach("end");
}
