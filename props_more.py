na("P90", "Game-record text parsers in Python agree with the notation",
 "Reading a KIF or KI2 game record yields exactly the moves, times and result the text denotes, and writing then reading a record returns it.",
 ["inputs"], "all game records", "tests read a few sample files", ["cshogi/KIF.py", "cshogi/KI2.py"], [("regular-expression parsers", "cshogi/KIF.py, cshogi/KI2.py")],
 "Pure Python built on the re module over Unicode text: no symbolic executor here encodes CPython's regular-expression engine, and re-modelling it by hand would check a model, not the code.")
na("P91", "Elo estimates follow the logistic model",
 "The rating difference and error margin reported for a match result are those of the logistic model for that result.",
 ["inputs"], "all win/draw/loss counts", "tests have no rating checks", ["cshogi/elo.py"], [("closed-form estimates", "cshogi/elo.py")],
 "Floating-point transcendental functions (log, pow, erf inverse) in Python; no solver theory available decides them bit-precisely.")
na("P92", "The OSL proof-number search and deep proof-number searches are sound",
 "Whenever OslDfPn, or DfPn at large depth, says the side to move mates, every reply to its line can be answered up to checkmate within the depth limit; whenever it says no mate it has not missed one within its node limit.",
 ["inputs"], "all positions, depth and node limits", "tests run a few problems", ["src/dfpn.cpp", "src/osl_dfpn.cpp"], [("transposition-table AND/OR search", "src/dfpn.cpp, src/osl_dfpn.cpp")],
 "An unbounded AND/OR tree search with a hash table over the whole game tree: a symbolic position gives a symbolic tree of hundreds of branches per ply, beyond any unrolling reachable here.")
prop("P03", "A pawn drop is refused exactly when it checkmates",
 "Dropping a pawn in front of the opponent's king is treated as a pawn-drop mate exactly when the opponent has no legal reply: the king cannot move to or capture on a square that is not attacked, and no other piece can capture the pawn without exposing its own king.",
 ["inputs"], "all positions in which the drop square is empty (attacked king's square fixed per run)", "the tests contain one or two such positions; pins, protected pawns and blocked flight squares combine freely",
 ["src/position.cpp", "src/generateMoves.cpp"], [("isPawnDropCheckMate", "src/position.cpp"), ("canPieceCapture with pins", "src/position.cpp")],
 "Every king square and side, all boards." + TB)
prop("P07", "A pass changes only the turn and can be taken back",
 "Passing hands the move to the other side and changes no piece and no hand; the hash key is that of the same board with the other side to move, and repetition look-back starts anew. Taking the pass back restores every observable, also for several passes in a row.",
 ["inputs", "histories"], "all positions; histories by induction over single passes", "tests do not exercise passes in combination with check counters",
 ["src/position.cpp", "src/cshogi.h"], [("doNullMove", "src/position.cpp"), ("push_pass/pop_pass", "src/cshogi.h")],
 "All boards, hands and counters." + TB)
prop("P08", "Repetition verdicts follow the game history",
 "The repetition test answers from the game's history alone: draw when the position occurred before (four or more plies ago, not beyond the given limit nor before a pass), win or loss when one side gave check with every move in between, superior or inferior when the board is the same and one hand contains the other. The verdict predicted for a move equals the verdict after making it.",
 ["inputs", "histories"], "all histories up to the bound: which positions coincide, which moves gave check, hands and limits are symbolic", "tests replay a couple of games",
 ["src/position.cpp"], [("isDraw, moveIsDraw", "src/position.cpp"), ("continuousCheck, pliesFromNull", "src/position.cpp doMove")],
 "All histories up to the stated number of plies." + TB)
prop("P15", "Neural-network input planes describe the position exactly",
 "Piece planes (plain and rotated) have a one exactly where the corresponding piece stands; the dlshogi features have a one exactly where a piece stands, where a piece of that kind attacks, where at least one, two or three pieces attack, for each piece in hand up to the plane limit, and when in check. With entering-king features on, the planes for king entered, pieces still needed and points still needed are those of the 27-point rule. All features are seen from the side to move, and nothing of a reused buffer survives.",
 ["inputs"], "all boards and hands, both sides", "tests compare a handful of positions against stored arrays",
 ["src/cshogi.h"], [("piece_planes, piece_planes_rotate", "src/cshogi.h"), ("make_input_features", "src/cshogi.h")],
 "All boards and hands; quick checks the attack planes on half of the squares per side." + TB)
prop("P04", "The legality test accepts exactly the legal moves",
 "Asked about any move value (any origin, destination, claimed piece, promotion or drop) in any position, the legality test says yes exactly when the rules allow the move: piece present and owned, path free, own king safe afterwards, promotion only of promotable pieces touching the far three ranks, no piece left without a further move, only pieces in hand dropped, no second pawn on a file, no pawn-drop mate.",
 ["inputs"], "all positions and move values (king squares, origin and claimed piece fixed per run)", "tests ask about a few moves of a few positions",
 ["src/position.cpp", "src/cshogi.h"], [("moveIsPseudoLegal<false>", "src/position.cpp"), ("pseudoLegalMoveIsLegal", "src/position.cpp"), ("moveIsLegal", "src/cshogi.h")],
 "All boards, hands and destinations per run; origins, pieces and king squares sampled deterministically in quick." + TB)
prop("P12", "Move notation reads and writes the same moves",
 "The USI and CSA text of a move is the standard notation of its squares, piece and promotion. Reading a text yields the move it denotes if that move is legal in the position, and no move otherwise; in particular every text that is not the notation of a move (wrong length, trailing characters, squares off the board, unknown pieces) yields no move.",
 ["inputs"], "all texts up to 8 characters, all moves and boards", "tests read and write a few moves",
 ["src/move.cpp", "src/usi.cpp", "src/square.hpp"], [("toUSI, toCSA", "src/move.cpp"), ("usiToMove, csaToMove", "src/usi.cpp")],
 "All texts up to the length bound; legality left as an arbitrary predicate (see P04)." + TB)

prop("P17", "A position set up from pieces is complete",
 "After setting up a position from a board, two hands and a side to move, everything that can be asked of it is what those determine: squares by piece kind and colour, king squares, hands, the pieces giving check, and the hash key as the sum of the keys of what stands where and is in hand; nothing of an earlier position remains. Changing the side to move changes only the turn, the check state and the turn's key bit. No two piece placements share a hash key.",
 ["inputs"], "all boards (also without kings), all hands, both sides", "tests set up a few positions",
 ["src/position.cpp", "src/position.hpp"], [("set(pieces, hands), setTurn", "src/position.cpp"), ("computeBoardKey, computeHandKey, initZobrist", "src/position.cpp"), ("findCheckers", "src/position.hpp")],
 "All boards; key sums on pairs of pieces." + TB)
prop("P10", "Binary positions round-trip",
 "Encoding a position as a Huffman-coded position or as a packed sfen writes exactly 32 bytes, and decoding these bytes gives the same board, hands, side to move and hash key.",
 ["inputs"], "all reachable positions", "tests encode a few positions",
 ["src/position.cpp", "src/position.hpp"], [("toHuffmanCodedPos, set_hcp", "src/position.cpp"), ("toPackedSfen, set_psfen", "src/position.cpp"), ("code tables", "src/position.hpp, src/position.cpp")],
 "Two free squares or one free kind of hand piece over a fixed background." + TB)
prop("P23", "Malformed binary positions are refused, not obeyed",
 "Reading 32 arbitrary bytes as a binary position either gives a position with its kings on distinct squares (or absent) or is refused; it never reads or writes outside the data and the position.",
 ["inputs"], "all 32-byte strings", "tests decode only valid data",
 ["src/position.cpp"], [("set_hcp, set_psfen", "src/position.cpp"), ("BitStream", "src/position.hpp")],
 "One arbitrary byte at every place of several backgrounds; every memory access is checked against the object it belongs to." + TB)

prop("P11", "SFEN and CSA position text round-trip",
 "The SFEN of a position is the standard notation of its board, side to move, hands and move number, and reading it back gives the same position; the CSA text of a position is its standard notation. Reading any well-formed SFEN gives the position it denotes, whatever the object held before.",
 ["inputs"], "all positions and well-formed texts", "tests use a few positions",
 ["src/position.cpp"], [("toSFEN, set(sfen)", "src/position.cpp"), ("toCSAPos, printHand", "src/position.cpp"), ("charToPieceUSI tables", "src/position.cpp")],
 "Two free squares or one free kind of hand piece over fixed backgrounds, all move numbers, one-character variations of texts." + TB)
prop("P24", "Malformed position text does no harm",
 "Reading or rotating any text as a SFEN either works or raises an exception; it never reads or writes memory outside the text, the position and the tables, and no well-formed text is refused.",
 ["inputs"], "all texts", "tests read only well-formed texts",
 ["src/position.cpp", "src/cshogi.h"], [("set(sfen)", "src/position.cpp"), ("__rotate_sfen", "src/cshogi.h")],
 "Every place of four background texts disturbed by one or two arbitrary characters." + TB)
prop("P19", "Rotating a SFEN exchanges the sides",
 "Rotating a SFEN gives the SFEN of the same position seen from the other side: board turned by 180 degrees, colours of pieces on board and in hand exchanged, other side to move, same move number. Rotating twice gives the original text.",
 ["inputs"], "all positions", "tests rotate a few positions",
 ["src/cshogi.h"], [("__rotate_sfen", "src/cshogi.h")],
 "As P11." + TB)
prop("P18", "Boards are independent and remember their history",
 "A copied or assigned board equals its original in everything observable, including move history, take-backs and repetition verdicts, and stays so when the original is changed, reset or destroyed, and vice versa. The history lists the moves made in order, taking back returns them in reverse and restores each earlier position; setting up a board anew (start position, SFEN, binary formats, position command) forgets the old history; a position command equals making its moves.",
 ["histories"], "all histories of moves and passes", "tests copy one or two boards",
 ["src/cshogi.h"], [("copy constructor, operator=, relinkStateInfo", "src/cshogi.h"), ("push, pop, push_pass, pop_pass, peek, get_history", "src/cshogi.h"), ("set, set_position, reset, set_hcp, set_psfen", "src/cshogi.h")],
 "Histories up to five steps from four start positions." + TB)
prop("P20", "Opening-book keys are consistent",
 "The book key of a position combines the keys of its pieces, of the hand of the side to move and of the turn; the key predicted for a move equals the book key after making it.",
 ["inputs"], "all positions and moves", "tests compare a few keys",
 ["src/book.cpp", "src/cshogi.h"], [("bookKey, bookKeyAfter", "src/book.cpp")],
 "Any moving and captured piece, promotion and hand count over fixed backgrounds." + TB)

prop("P22", "Reading a CSA game record yields what it says",
 "Reading a CSA record reports its start position (full board, piece by piece, or initial position less some pieces; hands; side to move), its moves in order, the time, score and comment given for each move, the free comments, header lines, the way the game ended and who won, and nothing of a record read before. Text that is not such a record (unknown pieces, squares off the board, moves that are not legal, comments out of place) is refused with an exception or read as far as it makes sense, and never touches foreign memory.",
 ["inputs", "histories"], "all CSA records", "the repository's tests read no CSA record",
 ["src/parser.h"], [("parse_csa", "src/parser.h"), ("parse_position, to_sfen", "src/parser.h")],
 "Records of up to three moves with every kind of annotation and ending, positions as P11, one- and two-character disturbances of three records." + TB)

prop("P16", "A mate in one that is reported is a mate",
 "Whenever the one-ply mate search returns a move, that move (with its piece, promotion and captured piece) is legal in the position and checkmates; asking never changes the position.",
 ["inputs"], "all positions with the side to move not in check; per run two squares hold any piece over a fixed background", "the tests ask in a handful of positions; pins, discovered and double checks, promotions and captures combine freely",
 ["src/position.cpp"], [("mateMoveIn1Ply", "src/position.cpp"), ("mate_move_in_1ply", "src/cshogi.h, cshogi/_cshogi.pyx")],
 "480 backgrounds, 729 combinations of pieces each, both sides." + TB)
prop("P25", "The short mate search is sound and misses no mate in one",
 "The checking moves the mate search considers are exactly the legal moves that give check, each once. When mate_move (three plies) returns a move, that move is legal and every reply to it can be answered by checkmate; when it returns none, no legal move checkmates at once. Asking never changes the position.",
 ["inputs"], "all positions; per run two squares hold any piece over a fixed background", "the tests ask in a handful of positions",
 ["src/mate.cpp", "src/generateMoves.cpp"], [("mateMoveInOddPlyReturnMove, mateMoveInEvenPly", "src/mate.cpp"), ("generateMoves<CheckAll>, checkMoveIsEvasion", "src/generateMoves.cpp, src/position.cpp")],
 "160 backgrounds each for the checks and the search, 729 combinations of pieces." + TB)

prop("P26", "The proof-number search reports a mate exactly when there is one",
 "When DfPn (depth limit three or five, any node limit) reports a mate, the move it gives is legal and forces mate, and its line is a legal sequence ending in checkmate that starts with that move; with depth limit three and enough nodes it reports a mate whenever one exists, and after the first move it sees the defender as mated. Searching never changes the position.",
 ["inputs"], "all positions; per run two squares hold any piece over a fixed background", "the tests solve a few problems",
 ["src/dfpn.cpp"], [("dfpn, dfpn_inner, dfpn_move, get_pv, dfpn_andnode", "src/dfpn.cpp")],
 "104 backgrounds, 729 combinations of pieces each, both sides." + TB)
