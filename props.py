#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 props.py"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, q, why, files, mech, level_note, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=level_note, observe=observe or []))
TB = " Trusted: the symbolic engine and its SAT back ends (every reported violation and one witness per run are replayed on the real build), clang's IR."
prop("P01", "Attack sets follow how the pieces move",
 "For every square, colour, piece type and board occupancy, the set of squares the library says a piece attacks is exactly the set the rules of shogi give it: steps for short-range pieces, lines up to and including the first occupied square for long-range ones. The pieces attacking a square are exactly the pieces whose attack set contains it.",
 ["inputs"], "all squares, colours, piece types and all 2^81 occupancies", "tests sample a few opening and tsume positions; the occupancy space is 2^81",
 ["src/bitboard.hpp", "src/bitboard.cpp", "src/init.cpp", "src/position.cpp"], [("sliding attacks by table/arithmetic", "src/bitboard.hpp"), ("table initialisation", "src/init.cpp"), ("attacksFrom, attackersTo", "src/position.cpp")],
 "Bounded exhaustive: every square, every occupancy; no loop bound reached." + TB)
prop("P02", "The legal move list is exactly the legal moves of shogi",
 "In every position the legal moves offered are exactly the moves the rules allow for the side to move: nothing missing, nothing extra, nothing twice, each labelled with the piece that moves and the piece it captures. This covers pins, single and double check, forced promotion, two pawns on a file, pieces without a further move, and pawn drops that mate.",
 ["inputs"], "all positions with one king per side (own king square, side and checking constellation fixed per run, every other square and both hands free)", "perft-style tests reach a handful of positions; pins, double checks and edge ranks have astronomically many combinations",
 ["src/generateMoves.cpp", "src/generateMoves.hpp", "src/position.cpp"], [("move generation", "src/generateMoves.cpp"), ("legality filter", "src/position.cpp pseudoLegalMoveIsLegal"), ("legal-move filtering", "src/generateMoves.cpp LegalAll")],
 "All boards and hands for each listed (side, king square, check constellation); quick runs a subset of these cases, thorough all of them." + TB)
prop("P05", "Taking back a move restores the position exactly",
 "After making any legal move and taking it back, every observable of the board (pieces, hands, side to move, move number, keys, checks, repetition counters, history) is what it was before. Hence any sequence of moves followed by the same number of take-backs is a no-op.",
 ["inputs", "histories"], "all positions and moves; histories by induction over single steps", "tests make and unmake a few moves from the initial position",
 ["src/position.cpp", "src/cshogi.h"], [("doMove/undoMove", "src/position.cpp"), ("push/pop", "src/cshogi.h")],
 "All boards, hands, counters per (origin, piece, king squares) run; cases sampled deterministically over origins, pieces and king squares in quick." + TB)
prop("P06", "Making a move yields exactly the resulting position",
 "After any legal move the board equals the position the rules prescribe: pieces, both hands, side to move, move number, the set of checking pieces, whether the move gives check, and the counters used for repetition. Everything the library maintains incrementally agrees with what a fresh setup of the resulting position would hold, including its hash key and the key predicted before the move.",
 ["inputs", "histories"], "all positions and moves", "tests compare a few games; discovered and double checks, promotions and captures of promoted pieces combine freely",
 ["src/position.cpp", "src/position.hpp"], [("doMove", "src/position.cpp"), ("CheckInfo/moveGivesCheck", "src/position.cpp"), ("getKeyAfter", "src/position.cpp")],
 "As P05." + TB)
prop("P09", "Declaration-win verdict follows the 27-point rule",
 "In every position the declaration-win test answers yes exactly when the side to move is not in check, its king stands in the far three ranks, at least ten of its other pieces stand there too, and those pieces plus its hand score at least 28 (first player) or 27 (second player) points, counting five for each bishop or rook (promoted or not) and one for each other piece.",
 ["inputs"], "all positions (own king square fixed per run)", "the existing tests have a few positions far from the thresholds",
 ["src/search.cpp"], [("nyugyoku", "src/search.cpp")], "Own king on each relevant square, all boards and hands." + TB)
prop("P13", "Move encodings are lossless and consistent with each other",
 "A move value carries exactly the origin, destination, promotion, moving piece, captured piece or dropped piece it was built from. Converting it to the 16-bit form or to the packed-sfen form and back, given the position, returns the same move, and rotating a move turns both squares by 180 degrees and changes nothing else.",
 ["inputs"], "all moves: every origin, destination, piece, capture, drop; all 16-bit words", "tests convert a few moves",
 ["src/cshogi.h", "src/move.hpp"], [("move16, psv and rotation helpers", "src/cshogi.h"), ("move packing", "src/move.hpp")], "Exhaustive over all field values." + TB)
prop("P14", "Policy labels are the direction plane and destination of the move",
 "For every move and side, the training label is 81 times the plane of its direction as seen by the mover (ten directions, ten promoting directions, seven drops) plus the destination as seen by the mover; labels lie in 0..2186. The label of a move for one side equals the label of the rotated move for the other side, so a policy trained from one side transfers.",
 ["inputs"], "all moves and both sides", "tests check a few labels",
 ["src/cshogi.h"], [("__dlshogi_make_move_label", "src/cshogi.h")], "Exhaustive over origins, line/knight destinations, promotion, sides." + TB)
prop("P21", "Hand counts, comparison and updates are exact",
 "Piece counts in hand are reported exactly for every combination of pieces, adding and removing one piece changes only that count, equality compares all counts, and one hand is superior or equal to another exactly when it has at least as many of every kind.",
 ["inputs"], "all pairs of hands", "there are more than ten million hands; tests use a few",
 ["src/hand.hpp", "src/hand.cpp"], [("packed hand arithmetic", "src/hand.hpp")], "Exhaustive over all pairs of hands." + TB)
NA = []
def na(id, title, statement, over, q, why, files, mech, reason):
    prop(id, title, statement, over, q, why, files, mech, "", None); NA.append(dict(property=id, reason=reason))
exec(open(os.path.join(V, "props_more.py")).read()) if os.path.exists(os.path.join(V, "props_more.py")) else None
def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["q"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")
    nas = {n["property"] for n in NA}
    import registry
    checks = []
    for p in P:
        if p["id"] in nas: continue
        assert p["id"] in registry.PROPS, p["id"]
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique="symbolic execution of the real code's LLVM IR with SAT-decided assertions over all inputs within bounds, counterexamples replayed natively",
            level="model_checking", level_note=p["note"]))
    for k in registry.PROPS: assert k in {p["id"] for p in P} - nas, k
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=NA, notes="No hooks in /repo: harnesses include the repository's headers and link its translation units.")
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__": main()
