def allsq(fn): return ["%s sq=%d" % (fn, s) for s in range(81)]
PDM = "_ZNK8Position19isPawnDropCheckMateE5Color6Square"
GROUPS = list(range(1, 10))
PAIRS = [10 * a + b for a in GROUPS for b in GROUPS if a < b]
def movegen(tier):
    r = []
    if tier == "thorough":
        for u in (0, 1):
            for k in range(81):
                for c in [0] + GROUPS + PAIRS: r.append((u, k, c))
    else:
        sq = [0, 4, 8, 10, 13, 16, 20, 22, 24, 30, 31, 34, 36, 40, 44, 46, 49, 52, 55, 58, 61, 62, 63, 64, 67, 69, 72, 74, 76, 78, 80]
        for i, k in enumerate(sq): r.append((i % 2, k, 0))
        for u, k in ((0, 76), (1, 4), (0, 40), (1, 62), (0, 8), (1, 55)):
            for c in GROUPS: r.append((u, k, c))
        for u, k in ((0, 40), (1, 49)):
            for c in (12, 15, 36, 28, 59, 89): r.append((u, k, c))
    return ["h_gen us=%d ksq=%d chk=%d" % x for x in r if chkcase(*x)]
RD = [(0, -1), (0, 1), (-1, 0), (1, 0), (-1, -1), (1, -1), (-1, 1), (1, 1)]
def chkcase(u, k, c):
    """does the check constellation c exist for a king on k (side u)?"""
    f, r = divmod(k, 9)
    def has(g):
        if g == 9: return any(0 <= f + d < 9 and 0 <= r + (-2 if u == 0 else 2) < 9 for d in (-1, 1))
        return 0 <= f + RD[g - 1][0] < 9 and 0 <= r + RD[g - 1][1] < 9
    return all(has(g) for g in ([] if c == 0 else [c] if c < 10 else [c // 10, c % 10]))
import random
def reach1(k, u, a):
    """squares a piece of type k might move to (empty board)"""
    f, r = divmod(a, 9); out = set()
    def put(x, y):
        if 0 <= x < 9 and 0 <= y < 9: out.add(x * 9 + y)
    s = -1 if u == 0 else 1
    if k in (1,): put(f, r + s)
    elif k == 3: put(f - 1, r + 2 * s); put(f + 1, r + 2 * s)
    else:
        for d, (dx, dy) in enumerate(RD):
            slide = (k == 2 and dy == s and dx == 0) or (k in (5, 13) and d >= 4) or (k in (6, 14) and d < 4)
            fw = dy == s; bw = dy == -s
            step = slide or (k == 4 and (fw or (bw and dx != 0))) or (k in (7, 9, 10, 11, 12) and (fw or dy == 0 or (bw and dx == 0))) or k in (8, 13, 14)
            if slide:
                for n in range(1, 9): put(f + n * dx, r + n * dy)
            elif step: put(f + dx, r + dy)
    return out
def pushsets(what, nquick, nthorough):
    def f(tier):
        rnd = random.Random(20260 + what); n = nquick if tier == "quick" else nthorough; out = []; seen = set()
        sq = list(range(81)); i = 0
        while len(out) < n:
            u = i % 2; k = 1 + (i // 2) % 14; i += 1
            fr = rnd.choice(sq)
            if not reach1(k, u, fr): continue
            r = fr % 9 if u == 0 else 8 - fr % 9
            if (k in (1, 2) and r == 0) or (k == 3 and r <= 1): continue
            # opponent's king: half of the time on a line with the origin or with a destination
            m = rnd.random(); ff, rr = divmod(fr, 9)
            if m < .35: cand = [s for s in sq if s != fr and (s // 9 == ff or s % 9 == rr or abs(s // 9 - ff) == abs(s % 9 - rr))]
            elif m < .7: t = rnd.choice(sorted(reach1(k, u, fr))); cand = [s for s in sq if s not in (fr, t) and max(abs(s // 9 - t // 9), abs(s % 9 - t % 9)) <= 2]
            else: cand = [s for s in sq if s != fr]
            if not cand: continue
            ok = rnd.choice(cand)
            near = lambda a, b: max(abs(a // 9 - b // 9), abs(a % 9 - b % 9)) <= 1
            if k == 8:
                if near(ok, fr): continue
                ks = fr
            else:
                c2 = [s for s in sq if s not in (fr, ok) and not near(s, ok)]; ks = rnd.choice(c2)
            if k != 8 and ok in reach1(k, u, fr) and (k == 3 or near(ok, fr)): continue # would already be in check
            key = (u, ok, ks, fr, k)
            if key in seen: continue
            seen.add(key); out.append("h_push us=%d ok=%d ks=%d from=%d k=%d what=%d" % (u, ok, ks, fr, k, what))
        for j in range(8 if tier == "quick" else 280): # drops
            u = j % 2; ok = rnd.choice(sq); ks = rnd.choice([s for s in sq if abs(s // 9 - ok // 9) > 1])
            out.insert(0, "h_push us=%d ok=%d ks=%d from=%d what=%d" % (u, ok, ks, 81 + j % 7, what))
        return out
    return f
def legalsets(tier):
    """king squares and two squares for the symbolic pieces: on lines with / next to / a knight's jump from the own king"""
    rnd = random.Random(77); out = []
    def line(k):
        f, r = divmod(k, 9); dx, dy = rnd.choice(RD); o = []
        while 0 <= f + dx < 9 and 0 <= r + dy < 9: f += dx; r += dy; o.append(f * 9 + r)
        return o
    near = lambda a, b: max(abs(a // 9 - b // 9), abs(a % 9 - b % 9)) <= 1
    n = 24 if tier == "quick" else 800
    while len(out) < n:
        i = len(out); u = i % 2
        k = rnd.randrange(81) if i % 4 < 2 else rnd.randrange(9) * 9 + rnd.choice([0, 1, 2] if u == 0 else [6, 7, 8])
        o = rnd.randrange(81)
        if near(k, o): continue
        l1, l2 = line(k), line(k)
        if i % 3 == 0 and len(l1) >= 2: a, b = l1[rnd.randrange(len(l1) - 1)], l1[-1]
        elif i % 3 == 1 and l1: a, b = rnd.choice(l1), rnd.choice([s for s in range(81) if abs(s // 9 - k // 9) <= 2 and abs(s % 9 - k % 9) <= 2])
        elif l1 and l2: a, b = l1[0], rnd.choice(l2)
        else: continue
        if len({k, o, a, b}) < 4: continue
        out.append("h_legalall us=%d ks=%d ok=%d a=%d b=%d hand=%d" % (u, k, o, a, b, 1 if i % 5 == 0 else 0))
    return out
def pdmsets(tier, step=2): return ["h_pdm us=%d ok=%d" % (u, k) for k in range(81) for u in (0, 1) if (k % 9 != 8 if u == 0 else k % 9 != 0) and (tier == "thorough" or (k + u) % step == 0)]
def islegalsets(tier):
    rnd = random.Random(404); out = []; sq = list(range(81)); i = 0
    near = lambda a, b: max(abs(a // 9 - b // 9), abs(a % 9 - b % 9)) <= 1
    while len(out) < (600 if tier == "quick" else 12000):
        u = i % 2; k = 1 + (i // 2) % 14; i += 1
        K = rnd.choice(sq); f, r = divmod(K, 9)
        if k == 8: fr = K
        elif rnd.random() < .7: fr = rnd.choice([s for s in sq if s != K and (s // 9 == f or s % 9 == r or abs(s // 9 - f) == abs(s % 9 - r) or near(s, K))])
        else: fr = rnd.choice([s for s in sq if s != K])
        c = [s for s in sq if s != fr and not near(s, K)]
        out.append("h_board us=%d ks=%d ok=%d from=%d k=%d" % (u, K, rnd.choice(c), fr, k))
    for j in range(42 if tier == "quick" else 1400):
        K = rnd.choice(sq); out.append("h_drop us=%d hp=%d ks=%d ok=%d to=%d" % (j % 2, (j // 2) % 7, K, rnd.choice([s for s in sq if not near(s, K)]), rnd.choice(sq)))
    return out
MPL = "_ZNK8Position17moveIsPseudoLegalILb0EEEb4Move"; PLL = "_ZNK8Position22pseudoLegalMoveIsLegalILb0ELb0EEEb4MoveRK8Bitboard"
def textsets(tier):
    D = [49 + i for i in range(9)] + [-1]
    r = ["h_usiread n=%d" % n for n in (0, 1, 2, 3, 6, 7, 8)] + ["h_csaread n=%d" % n for n in (0, 1, 2, 3, 4, 5, 7, 8)]
    r += ["h_usiread n=%d c0=%d us=%d" % (n, c, c & 1) for n in (4, 5) for c in D]
    L = [ord(x) for x in "FKGHOTNUR"] + [-2]
    r += ["h_csaread n=6 c0=%d c4=%d us=%d" % (c, l, c & 1) for l in L for c in (D if tier == "thorough" else [D[(l * 4) % 9], D[(l * 4 + 5) % 9], -1])]
    return r + ["h_write from=%d" % f for f in range(88)] + ["h_write from=%d pro=1" % f for f in range(81)]
def setsets(tier):
    rnd = random.Random(17); K = list(range(82)); out = []
    for i in range(48 if tier == "quick" else 1200):
        k, o = (i * 5) % 82, rnd.choice(K)
        if i % 12 == 7: o = 81
        if k == o and k != 81: o = (o + 1) % 81
        out.append("h_set us=%d ks=%d ok=%d" % (i % 2, k, o))
    for s in range(81): out.append("h_key us=%d n=2 s0=%d st=%d" % (s % 2, s, 1 + rnd.randrange(80)))
    out += ["h_key us=%d n=0 hp=0" % u for u in (0, 1)] + ["h_key us=%d n=1 s0=%d hp=%d" % (u, rnd.randrange(81), h) for u in (0, 1) for h in range(1, 7)]
    return out + ["h_zobrist k=%d c=%d" % (k, c) for k in range(1, 15) for c in (0, 1)]
def hcpsets(tier):
    rnd = random.Random(10); out = []
    for rep in range(1 if tier == "quick" else 24):
        for a in range(81):
            for fmt in (0, 1):
                while 1:
                    b, K, O = rnd.randrange(81), rnd.randrange(81), rnd.randrange(81)
                    if len({a, b, K, O}) == 4: break
                out.append("h_round us=%d ks=%d ok=%d a=%d b=%d fmt=%d seed=%d" % ((a + rep + fmt) % 2, K, O, a, b, fmt, rnd.randrange(1000)))
        out += ["h_roundhand us=%d fmt=%d hp=%d seed=%d" % (u, f, h, rnd.randrange(1000)) for u in (0, 1) for f in (0, 1) for h in range(7)]
    return out
def garbagesets(tier):
    return ["h_garbage fmt=%d at=%d fill=%d seed=%d" % (f, a, v, sd) for f in (0, 1) for a in range(32) for v in (0, 1, 85, 255) for sd in ((1,) if tier == "quick" or v else range(1, 20))]
SFL = [66, 39, 84, 28] # lengths of the background texts in textref.h
def anysets(fn, tier, quick):
    """n characters replacing / inserted at every place of the background texts"""
    v = quick if tier == "quick" else ((1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (2, 3))
    return ["%s bg=%d at=%d n=%d cut=%d" % (fn, b, a, n, c) for b in range(4) for a in range(SFL[b] + 1) for n, c in v]
def roundsets(fn, fh, tier):
    rnd = random.Random(11); out = []
    for rep in range(1 if tier == "quick" else 24):
        for a in range(81):
            while 1:
                b = (a + rnd.choice([9, -9, 18, 1])) % 81; K, O = rnd.randrange(81), rnd.randrange(81)
                if len({a, b, K, O}) == 4: break
            out.append("%s us=%d ks=%d ok=%d a=%d b=%d seed=%d ply=%d" % (fn, (a + rep) % 2, K, O, a, b, rnd.randrange(1000), rnd.choice([1, 9, 10, 57, 100, 345])))
        out += ["%s us=%d hp=%d seed=%d only=%d" % (fh, u, h, rnd.randrange(1000), o) for u in (0, 1) for o in (0, 1) for h in range(7)]
    return out
def copysets(tier):
    nn = ((2, 4), (4, 2), (5, 1)) if tier == "quick" else ((2, 4), (2, 5), (3, 3), (4, 2), (5, 1), (6, 1))
    return ["h_copy st=%d how=%d n=%d opt=%d reset=%d" % (st, how, n, o, (st + how + n) % 2) for st in range(4) for how in range(4) for n, o in nn] + \
           ["h_history st=%d how=%d n=%d opt=%d pass=%d" % (st, how, n, o, p) for st in range(4) for how in range(4) for n, o, p in ((4, 2, 1), (3, 4, 0), (2, 8, 0))]
def booksets(tier):
    rnd = random.Random(20); out = []
    for i in range(120 if tier == "quick" else 3000):
        while 1:
            f, t, K, O = rnd.randrange(81), rnd.randrange(81), rnd.randrange(81), rnd.randrange(81)
            if len({f, t, K, O}) == 4: break
        if i % 6 == 0: f = 81 + i // 6 % 7
        out.append("h_book us=%d from=%d to=%d ks=%d ok=%d hp=%d seed=%d" % (i // 2 % 2, f, t, K, O, f - 81 if f >= 81 else i % 7, rnd.randrange(1000)))
    return out
RCL = [47, 67, 43] # lengths of the records in h_csa.cpp
def csasets(tier):
    rnd = random.Random(22); out = []
    for a in range(81):
        for form in (0, 1):
            if tier == "quick" and (a + form) % 2: continue
            while 1:
                b, K, O = rnd.randrange(81), rnd.randrange(81), rnd.randrange(81)
                if len({a, b, K, O}) == 4: break
            out.append("h_pos us=%d form=%d a=%d b=%d ks=%d ok=%d seed=%d" % (a % 2, form, a, b, K, O, rnd.randrange(1000)))
    out += ["h_pos form=2 us=%d" % u for u in (0, 1)] + ["h_poshand us=%d hp=%d form=%d seed=%d" % (u, h, f, rnd.randrange(1000)) for u in (0, 1) for h in range(7) for f in (0, 1)]
    out += ["h_record st=%d form=%d n=%d opt=%d extra=%d again=%d" % (st, f, n, o, x, (st + n) % 2) for st in range(4) for f in (0, 1) for n, o, x in ((0, 1, 1), (1, 30, 1), (1, 2, 8), (2, 2, 8), (3, 2, 3 if tier == "quick" else 6))]
    v = ((1, 1), (1, 0)) if tier == "quick" else ((1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (2, 3))
    return out + ["h_any bg=%d at=%d n=%d cut=%d" % (b, a, n, c) for b in range(3) for a in range(RCL[b] + 1) for n, c in v]
def matesets(fn, n, seed, tier, npmax=22, mul=12, bat=0):
    rnd = random.Random(seed); out = []
    if tier != "quick": n *= mul
    while len(out) < n:
        us = len(out) % 2; O = rnd.randrange(81) if rnd.random() < .4 else 9 * rnd.randrange(9) + (rnd.randrange(3) if us == 0 else 8 - rnd.randrange(3))
        K = rnd.randrange(81); of, orr = O // 9, O % 9
        if abs(K // 9 - of) <= 1 and abs(K % 9 - orr) <= 1: continue
        def near():
            while 1:
                if rnd.random() < .3: d = rnd.choice([(0, 1), (1, 0), (1, 1), (1, -1)]); k = rnd.randrange(-6, 7); f, r = of + d[0] * k, orr + d[1] * k
                else: f, r = of + rnd.randrange(-2, 3), orr + rnd.randrange(-2, 3)
                if 0 <= f < 9 and 0 <= r < 9 and f * 9 + r not in (O, K): return f * 9 + r
        a, b = near(), near()
        if a == b: continue
        out.append("%s us=%d ok=%d ks=%d a=%d b=%d seed=%d np=%d" % (fn, us, O, K, a, b, rnd.randrange(100000), rnd.randrange(6, npmax)) + (" bat=1" if bat and len(out) // 2 % 2 else ""))
    return out
def widesets(fn, tier):
    W = [(3, 49), (12, 50), (57, 21), (6, 33), (77, 40), (25, 68), (8, 30), (22, 66)]
    return ["%s wide=1 us=%d a=%d b=%d" % (fn, u, a, b) for i, (a, b) in enumerate(W) for u in (0, 1) if tier != "quick" or i % 2 == u]
BASEM = ["bitboard", "common", "generateMoves", "hand", "init", "move", "mt64bit", "position", "square", "usi", "search", "book", "mate"]
PROPS = {
 "P01": dict(groups=[dict(harness="h_attacks", sets=allsq("h_sliders") + allsq("h_from") + allsq("h_to"))],
   bounds="every square, all 2^81 occupancies; no unrolling bound is reached (ray loops end at the board edge)", assumptions=[]),
 "P02": dict(groups=[dict(harness="h_movegen", sets=movegen, stubs=[PDM]), dict(harness="h_pawnmate", sets=lambda t: pdmsets(t, 5)), dict(harness="h_legal", sets=legalsets)],
   bounds="quick: 31 own-king squares without check, 6 with every single-checker direction, 2 with double checks; thorough: both sides, all 81 king squares, no check / every single check / every double check. All other squares and both hands are free symbolic values (no piece-count limit per type on the board).",
   assumptions=["exactly one king per side, kings not adjacent, no unpromoted piece without a further move, opponent's king not capturable target"]),
 "P13": dict(groups=[dict(harness="h_codec", sets=["h_move_fields", "h_move16_any", "h_squares"] + ["h_move_drop hp=%d" % i for i in range(7)])],
   bounds="all origins, destinations, promotion flags, moving and captured pieces; all 16-bit words in the stated domains", assumptions=["origin and destination are different squares"]),
 "P14": dict(groups=[dict(harness="h_codec", sets=["h_label from=%d" % s for s in range(81)] + ["h_label_drop"])],
   bounds="all origins, destinations on a line or a forward knight's jump, promotion flags, sides, captured/moving piece fields; all drops", assumptions=[]),
 "P21": dict(groups=[dict(harness="h_codec", sets=["h_hand"])],
   bounds="all pairs of hands with up to 18 pawns, 4 lances/knights/silvers/golds, 2 bishops/rooks", assumptions=[]),
 "P09": dict(groups=[dict(harness="h_nyugyoku", sets=lambda t: ["h_nyu us=%d ksq=%d" % (u, k) for u in (0, 1) for k in range(81) if t == "thorough" or (k % 9 if u == 0 else 8 - k % 9) <= 3])],
   bounds="quick: own king anywhere on the first four ranks of the far side; thorough: anywhere. Everything else on the board and both hands symbolic", assumptions=["one king each, not adjacent, no piece without a further move"]),
 "P05": dict(groups=[dict(harness="h_domove", sets=pushsets(2, 220, 6000), timeout={"quick": 150})],
   bounds="one move (origin square, moving piece, both king squares fixed per run; destination ranges over every reachable square, captured piece, all other squares, both hands and all counters symbolic); longer histories follow because the whole object is restored", assumptions=["pseudo-legal move, side not to move not in check, captured piece fits in hand"]),
 "P06": dict(groups=[dict(harness="h_domove", sets=pushsets(1, 220, 6000), timeout={"quick": 150})],
   bounds="as P05", assumptions=["pseudo-legal move, side not to move not in check, captured piece fits in hand"]),
 "P03": dict(groups=[dict(harness="h_pawnmate", sets=pdmsets)],
   bounds="every square of the attacked king and both sides (quick: half of them); every other square symbolic", assumptions=["the side not to move is not in check, the drop square is empty"]),
 "P07": dict(groups=[dict(harness="h_draw", sets=["h_pass us=%d ks=%d ok=%d" % x for x in ((0, 76, 4), (1, 4, 76), (0, 0, 80), (1, 40, 8))])],
   bounds="all boards, hands, counters and keys; one pass and its take-back (nested passes follow as the whole object is restored)", assumptions=["the side to move is not in check"]),
 "P08": dict(groups=[dict(harness="h_draw", sets=lambda t: ["h_isdraw n=%d" % n for n in (range(3, 25) if t == "quick" else range(1, 61))] + ["h_movedraw n=%d chk=%d" % (n, c) for n in (range(3, 19) if t == "quick" else range(1, 41)) for c in (0, 1)])],
   bounds="quick: every history length up to 24 plies (verdict for a move: 18); thorough: 60 (40). Board identities, hands, checks, passes and the look-back limit symbolic", assumptions=["the same position is in check whenever it occurs; hash keys of different positions differ"]),
 "P15": dict(groups=[dict(harness="h_features", sets=lambda t: ["h_nyufeat us=%d only=%d lim=%d" % (u, o, 12 if t == "quick" else 16) for u in (0, 1) for o in (0, 1)] + ["h_planes us=%d" % u for u in (0, 1)] + ["h_features us=%d what=5" % u for u in (0, 1)] + ["h_features us=%d what=2 s0=%d s1=%d" % (u, s, s + 3) for s in range(0, 81, 3) for u in (0, 1) if t == "thorough" or (s // 3) % 2 == u])],
   bounds="all boards and hands; every plane and square (attack planes: quick checks half of the squares per side, thorough all); entering-king planes: 12 free squares of the target zone and all hands", assumptions=["one king each"]),
 "P04": dict(groups=[dict(harness="h_islegal", sets=islegalsets, stubs=[PDM]), dict(harness="h_pawnmate", sets=lambda t: pdmsets(t, 9))],
   bounds="per run own and opponent king square, origin and claimed piece (or dropped piece) fixed, all 81 destinations with and without promotion; every other square and both hands symbolic. quick: 642 such runs, thorough: 13400", assumptions=["side not to move not in check, at most two checking pieces, the captured-piece field of the move matches the board"]),
 "P12": dict(groups=[dict(harness="h_text", sets=textsets, stubs=[MPL, PLL])],
   bounds="every text of 0 to 8 characters (no NUL); every move (origin fixed per run). The legality test itself is an uninterpreted bit here, it is decided by P04", assumptions=["text contains no NUL character"]),
 "P17": dict(groups=[dict(harness="h_setters", sets=setsets), dict(harness="h_board", sets=lambda t: roundsets("h_views", "h_viewhands", t))],
   bounds="king squares (or no king) fixed per run, all other squares and both hands symbolic for the derived state; keys: all pairs of pieces on two squares, all counts of one kind of hand piece; key tables: all pairs of entries", assumptions=[]),
 "P10": dict(groups=[dict(harness="h_hcp", sets=hcpsets)],
   bounds="per run a fixed background position (kings, about 20 pieces on board and in hand) with two squares holding any piece, or any split of one kind of piece between the hands; every square occurs; thorough repeats with 24 backgrounds. Each path is concrete after the choice of pieces, so the decisions are by path enumeration inside the symbolic executor, the solver deciding path feasibility", assumptions=["both kings on the board, no more pieces of a kind than a shogi set has"]),
 "P23": dict(groups=[dict(harness="h_hcp", sets=garbagesets)],
   bounds="32 bytes of a valid encoding or of a constant filling with one byte symbolic, every byte position", assumptions=[]),
 "P11": dict(groups=[dict(harness="h_sfen", sets=lambda t: roundsets("h_round", "h_hands", t) + ["h_ply us=0", "h_ply us=1"] + anysets("h_any", t, ((1, 1),)))],
   bounds="per run a fixed background position with two squares holding any piece (every square occurs), or any split of one kind of piece between the hands, or any move number below 32768; reading: every text that differs from one of four background texts in one character (thorough: up to two characters inserted or replaced)", assumptions=["no more pieces of a kind than a shogi set has; string streams behave as the C++ standard says (they are re-implemented for the symbolic build; counterexamples are replayed with the real library)"]),
 "P24": dict(groups=[dict(harness="h_sfen", sets=lambda t: anysets("h_any", t, ((1, 0), (2, 2)))), dict(harness="h_board", sets=lambda t: anysets("h_rotateany", t, ((1, 0),)))],
   bounds="four background texts with one arbitrary character inserted or two replaced, at every place (thorough: more combinations)", assumptions=["as P11"]),
 "P19": dict(groups=[dict(harness="h_board", sets=lambda t: roundsets("h_rotate", "h_rotatehands", t))],
   bounds="backgrounds and free pieces as P11", assumptions=["the text is a SFEN in the standard order"]),
 "P18": dict(groups=[dict(harness="h_board", sets=copysets)],
   bounds="four start positions, histories of two to five symbolic steps (each any of the first and last legal moves, up to eight, or a pass), copy construction and assignment, one further symbolic step on either side, full take-back; every access to freed memory is an error", assumptions=[]),
 "P22": dict(groups=[dict(harness="h_csa", sets=csasets)],
   bounds="start positions: two free squares or one free kind of hand piece over fixed backgrounds, in both notations, and the initial position less any two pieces; records of up to three moves (each one of the first and last legal moves), eight kinds of annotation per move, fourteen endings, three headers; malformed text: three records with one arbitrary character inserted or replaced at every place. Ratings (floating point) and files are not covered", assumptions=["string streams behave as the C++ standard says"]),
 "P16": dict(groups=[dict(harness="h_mate", srcs=BASEM, sets=lambda t: matesets("h_mate1", 640, 16, t, bat=1))],
   bounds="per run a fixed background (kings, up to 21 pieces near the enemy king and elsewhere, some pieces in hand) with two squares holding any piece; each path is concrete after the choice, the solver deciding path feasibility. Mates the search does not look for are not its claim", assumptions=["the side to move is not in check and the other king is not attacked; at most one pawn of a side per file"]),
 "P25": dict(groups=[dict(harness="h_mate", srcs=BASEM, sets=lambda t: matesets("h_checks", 140, 25, t, bat=1) + matesets("h_mate3", 120, 26, t, bat=1) + widesets("h_mate3", t))],
   bounds="positions as P16 (also with the side to move in check), and positions whose checks have about a hundred evasions; mate_move and is_mate for three plies, is_mate(0) after every check", assumptions=["the legal move list (P02) serves to recognise mates"]),
 "P26": dict(groups=[dict(harness="h_dfpn", srcs=BASEM + ["dfpn"], sets=lambda t: matesets("h_dfpn", 34, 27, t, 15, 4) + [x + " nodes=200" for x in widesets("h_dfpn", t)] + [x + " nodes=%d" % (3 + i % 40) for i, x in enumerate(matesets("h_dfpn", 24, 28, t, 18, 4))] + [x + " depth=5 nodes=500" for x in matesets("h_dfpn", 6 if t == "quick" else 40, 29, t, 8, 1)])],
   bounds="positions as P25 (with about a hundred evasions: 200 nodes); depth limit 3 (complete and sound) and 5 (sound), node limits from 3 to unlimited; OslDfPn is not covered", assumptions=["the legal move list (P02) serves to recognise mates"]),
 "P20": dict(groups=[dict(harness="h_board", sets=booksets)],
   bounds="per run origin and destination fixed; any moving and captured piece, promotion, any count of one kind in hand over a fixed background; all drops of the kind", assumptions=[]),
}
