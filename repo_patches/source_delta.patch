From 912b52fc782798717a4dfe019849ad8dd26229ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:15 +0000
Subject: [PATCH 01/16] fix: moveIsDraw agrees with the verdict after making
 the move

The perpetual-check test compared the counter before the move, so a repetition
whose last check is the move itself was called a plain draw although isDraw
after the move reports the perpetual check.
---
 src/position.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index 8cca77f..341b8c9 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3285,10 +3285,12 @@ RepetitionType Position::moveIsDraw(const Move move, const int checkMaxPly) cons
             // 更に 2 手戻る。
             stp = stp->previous->previous;
             if (stp->key() == key) {
-                if (i <= st_->continuousCheck[turn()])
-                    return RepetitionWin;
-                else if (i <= st_->continuousCheck[oppositeColor(turn())])
+                // move を指した後の連続王手の手数で判定する。(isDraw と同じ)
+                const int continuousCheckAfter = moveGivesCheck(move) ? st_->continuousCheck[turn()] + 2 : 0;
+                if (i <= st_->continuousCheck[oppositeColor(turn())])
                     return RepetitionLose;
+                else if (i <= continuousCheckAfter)
+                    return RepetitionWin;
                 else
                     return RepetitionDraw;
             }
-- 
2.43.0


From 802df4ec3f90a0d6568da2edbd1e5f970a0551be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:02 +0000
Subject: [PATCH 02/16] fix: taking back a pass restores the continuous-check
 counters

---
 src/position.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/position.cpp b/src/position.cpp
index 341b8c9..08ca77e 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -662,6 +662,8 @@ template <bool DO> void Position::doNullMove(StateInfo& backUpSt) {
     dst->boardKey = src->boardKey;
     dst->handKey = src->handKey;
     dst->pliesFromNull = src->pliesFromNull;
+    dst->continuousCheck[Black] = src->continuousCheck[Black];
+    dst->continuousCheck[White] = src->continuousCheck[White];
     dst->hand = hand(turn());
     turn_ = oppositeColor(turn());
 
-- 
2.43.0


From 778b4feb50def1fadbcf962f1d3a843be1a37c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:54 +0000
Subject: [PATCH 03/16] fix: is_legal and the USI/CSA move readers apply the
 promotion and dead-square rules

moveIsPseudoLegal<false> (documented as equal to the rules) accepted promotion
outside the promotion zone and of pieces that do not promote, moves and drops of
pawns, lances and knights to squares without a further move, and drops of
promoted pieces and kings (the latter reading outside the hand tables).
---
 src/position.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/position.cpp b/src/position.cpp
index 08ca77e..8a0210d 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -347,6 +347,18 @@ bool Position::checkMoveIsEvasion(const Move move) const {
     return true;
 }
 
+namespace {
+    // c 側の駒 pt が r 段目に(不成で)居るとき、行きどころがあるか。
+    bool canMoveFromRank(const Color c, const PieceType pt, const Rank r) {
+        const int rank = (c == Black ? r : Rank9 - r);
+        switch (pt) {
+        case Pawn: case Lance: return rank > Rank1;
+        case Knight:           return rank > Rank2;
+        default:               return true;
+        }
+    }
+}
+
 // Searching: true なら探索時に内部で生成した手の合法手判定を行う。
 //            ttMove で hash 値が衝突した時などで、大駒の不成など明らかに価値の低い手が生成される事がある。
 //            これは非合法手として省いて良い。
@@ -358,9 +370,16 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
 
     if (move.isDrop()) {
         const PieceType ptFrom = move.pieceTypeDropped();
+        // 持ち駒にならない駒種
+        if (Gold < ptFrom)
+            return false;
         if (!hand(us).exists(pieceTypeToHandPiece(ptFrom)) || piece(to) != Empty)
             return false;
 
+        // 行きどころの無い駒
+        if (!canMoveFromRank(us, ptFrom, makeRank(to)))
+            return false;
+
         if (inCheck()) {
             // 王手されているので、合駒でなければならない。
             Bitboard target = checkersBB();
@@ -434,6 +453,14 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
                     return false;
             }
         }
+        else if (move.isPromotion()) {
+            // 成れない駒か、敵陣に関係しない移動
+            if (ptFrom >= Gold || !canPromote(us, from, to))
+                return false;
+        }
+        else if (!canMoveFromRank(us, ptFrom, makeRank(to)))
+            // 行きどころの無い駒
+            return false;
 
         if (inCheck()) {
             if (ptFrom == King) {
-- 
2.43.0


From 05945dc579ce0c70696673385cabce853c261a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:59 +0000
Subject: [PATCH 04/16] fix: a USI drop followed by other text is not a move

---
 src/usi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/usi.cpp b/src/usi.cpp
index ea87588..0e24d6f 100644
--- a/src/usi.cpp
+++ b/src/usi.cpp
@@ -65,7 +65,7 @@ Move usiToMoveBody(const Position& pos, const std::string& moveStr) {
     if (g_charToPieceUSI.isLegalChar(moveStr[0])) {
         // drop
         const PieceType ptTo = pieceToPieceType(g_charToPieceUSI.value(moveStr[0]));
-        if (moveStr[1] != '*')
+        if (moveStr.size() != 4 || moveStr[1] != '*')
             return Move::moveNone();
         const File toFile = charUSIToFile(moveStr[2]);
         const Rank toRank = charUSIToRank(moveStr[3]);
-- 
2.43.0


From 9582cd29dd5e25ade085e6cdb7c1c92606a2747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:13 +0000
Subject: [PATCH 05/16] fix: malformed or king-less binary positions do not
 touch foreign memory

set_hcp/set_psfen stored king squares up to 127 unchecked, and read past the
32 bytes when no Huffman code ended there; the encoders wrote a king-less
position past their 32 bytes.
---
 src/position.cpp | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index 8a0210d..da41c6f 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3044,8 +3044,9 @@ std::string Position::toCSAPos() const {
 }
 
 void Position::toHuffmanCodedPos(u8* data) const {
-    std::fill(data, data + 32, 0);
-    BitStream bs(data);
+    // 玉や駒の数が通常と異なる局面では 256bit を超えるので、作業領域に書き込んでから先頭の 256bit をコピーする。
+    u8 buf[256] = {};
+    BitStream bs(buf);
     // 手番 (1bit)
     bs.putBit(turn());
 
@@ -3084,11 +3085,13 @@ void Position::toHuffmanCodedPos(u8* data) const {
             bs.putBits(hc.code, hc.numOfBits);
     }
     assert(bs.curr() == 0);
+    std::copy(buf, buf + 32, data);
 }
 
 void Position::toPackedSfen(u8* data) const {
-    std::fill(data, data + 32, 0);
-    BitStream bs(data);
+    // 玉や駒の数が通常と異なる局面では 256bit を超えるので、作業領域に書き込んでから先頭の 256bit をコピーする。
+    u8 buf[256] = {};
+    BitStream bs(buf);
     // 手番 (1bit)
     bs.putBit(turn());
 
@@ -3127,6 +3130,7 @@ void Position::toPackedSfen(u8* data) const {
             bs.putBits(hc.code, hc.numOfBits);
     }
     assert(bs.curr() == 0);
+    std::copy(buf, buf + 32, data);
 }
 
 bool Position::isOK() const {
@@ -3477,8 +3481,13 @@ void Position::set_hcp(const char* hcp_data) {
     // 玉の位置
     Square sq0 = (Square)bs.getBits(7);
     Square sq1 = (Square)bs.getBits(7);
-    setPiece(BKing, static_cast<Square>(sq0));
-    setPiece(WKing, static_cast<Square>(sq1));
+    // SquareNum は玉が無いことを表す。
+    if (sq0 > SquareNum || sq1 > SquareNum || (sq0 == sq1 && sq0 != SquareNum))
+        goto INCORRECT_HUFFMAN_CODE;
+    if (sq0 != SquareNum)
+        setPiece(BKing, sq0);
+    if (sq1 != SquareNum)
+        setPiece(WKing, sq1);
 
     // 盤上の駒
     for (Square sq = SQ11; sq < SquareNum; ++sq) {
@@ -3486,6 +3495,8 @@ void Position::set_hcp(const char* hcp_data) {
             continue;
         HuffmanCode hc = {0, 0};
         while (hc.numOfBits <= 8) {
+            if (bs.data() == std::end(tmp.data))
+                goto INCORRECT_HUFFMAN_CODE;
             hc.code |= bs.getBit() << hc.numOfBits++;
             if (HuffmanCodedPos::boardCodeToPieceHash.value(hc.key) != PieceNone) {
                 const Piece pc = HuffmanCodedPos::boardCodeToPieceHash.value(hc.key);
@@ -3499,7 +3510,7 @@ void Position::set_hcp(const char* hcp_data) {
     }
     while (bs.data() != std::end(tmp.data)) {
         HuffmanCode hc = {0, 0};
-        while (hc.numOfBits <= 8) {
+        while (hc.numOfBits <= 8 && bs.data() != std::end(tmp.data)) {
             hc.code |= bs.getBit() << hc.numOfBits++;
             const Piece pc = HuffmanCodedPos::handCodeToPieceHash.value(hc.key);
             if (pc == Empty)
@@ -3509,7 +3520,7 @@ void Position::set_hcp(const char* hcp_data) {
                 break;
             }
         }
-        if (HuffmanCodedPos::handCodeToPieceHash.value(hc.key) == PieceNone)
+        if (HuffmanCodedPos::handCodeToPieceHash.value(hc.key) == PieceNone && bs.data() != std::end(tmp.data))
             goto INCORRECT_HUFFMAN_CODE;
     }
 
@@ -3543,8 +3554,13 @@ void Position::set_psfen(const char* psfen_data) {
     // 玉の位置
     Square sq0 = (Square)bs.getBits(7);
     Square sq1 = (Square)bs.getBits(7);
-    setPiece(BKing, static_cast<Square>(sq0));
-    setPiece(WKing, static_cast<Square>(sq1));
+    // SquareNum は玉が無いことを表す。
+    if (sq0 > SquareNum || sq1 > SquareNum || (sq0 == sq1 && sq0 != SquareNum))
+        goto INCORRECT_HUFFMAN_CODE;
+    if (sq0 != SquareNum)
+        setPiece(BKing, sq0);
+    if (sq1 != SquareNum)
+        setPiece(WKing, sq1);
 
     // 盤上の駒
     for (Square sq = SQ11; sq < SquareNum; ++sq) {
@@ -3552,6 +3568,8 @@ void Position::set_psfen(const char* psfen_data) {
             continue;
         HuffmanCode hc = { 0, 0 };
         while (hc.numOfBits <= 8) {
+            if (bs.data() == std::end(tmp.data))
+                goto INCORRECT_HUFFMAN_CODE;
             hc.code |= bs.getBit() << hc.numOfBits++;
             if (PackedSfen::boardCodeToPieceHash.value(hc.key) != PieceNone) {
                 const Piece pc = PackedSfen::boardCodeToPieceHash.value(hc.key);
@@ -3565,7 +3583,7 @@ void Position::set_psfen(const char* psfen_data) {
     }
     while (bs.data() != std::end(tmp.data)) {
         HuffmanCode hc = { 0, 0 };
-        while (hc.numOfBits <= 8) {
+        while (hc.numOfBits <= 8 && bs.data() != std::end(tmp.data)) {
             hc.code |= bs.getBit() << hc.numOfBits++;
             const Piece pc = PackedSfen::handCodeToPieceHash.value(hc.key);
             if (pc == Empty)
@@ -3575,7 +3593,7 @@ void Position::set_psfen(const char* psfen_data) {
                 break;
             }
         }
-        if (PackedSfen::handCodeToPieceHash.value(hc.key) == PieceNone)
+        if (PackedSfen::handCodeToPieceHash.value(hc.key) == PieceNone && bs.data() != std::end(tmp.data))
             goto INCORRECT_HUFFMAN_CODE;
     }
 
-- 
2.43.0


From 7f4bf8e76e3000f4096b4dbc78cfd7df0dcf2171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:22 +0000
Subject: [PATCH 06/16] fix: SFEN with a promoted gold or king, or a king in
 hand, is refused

Such text indexed past the piece, key and hand tables.
---
 src/position.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index da41c6f..8e65940 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3380,7 +3380,8 @@ void Position::set(const std::string& sfen) {
         else if (token == '+')
             promoteFlag = Promoted;
         else if (g_charToPieceUSI.isLegalChar(token)) {
-            if (isInSquare(sq)) {
+            const PieceType pt = pieceToPieceType(g_charToPieceUSI.value(token));
+            if (isInSquare(sq) && (promoteFlag == UnPromoted || (pt != Gold && pt != King))) {
                 setPiece(g_charToPieceUSI.value(token) + promoteFlag, sq);
                 promoteFlag = UnPromoted;
                 sq += DeltaE;
@@ -3409,11 +3410,16 @@ void Position::set(const std::string& sfen) {
     for (int digits = 0; ss.get(token) && token != ' '; ) {
         if (token == '-')
             memset(hand_, 0, sizeof(hand_));
-        else if (isdigit(token))
+        else if (isdigit(token)) {
             digits = digits * 10 + token - '0';
+            if (digits > 18) // 持ち駒は歩の18枚が最多
+                goto INCORRECT;
+        }
         else if (g_charToPieceUSI.isLegalChar(token)) {
             // 持ち駒を32bit に pack する
             const Piece piece = g_charToPieceUSI.value(token);
+            if (pieceToPieceType(piece) == King)
+                goto INCORRECT;
             setHand(piece, (digits == 0 ? 1 : digits));
 
             digits = 0;
-- 
2.43.0


From ca6621ebaf96974553d51cf2f9ef2d82d4a4d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:31 +0000
Subject: [PATCH 07/16] fix: rotate_sfen keeps two-digit counts of pieces in
 hand

---
 src/cshogi.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index 332665e..6bf7158 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -610,17 +610,20 @@ std::string __rotate_sfen(const std::string& sfen) {
         for (int i = 0; i < hand.length(); i++) {
             char c = hand[i];
 
-            if (c >= '2' && c <= '9') {
-                // 数字の場合、次の駒と組み合わせる
-                i++;
+            if (c >= '1' && c <= '9') {
+                // 数字(2桁の場合もある)を次の駒と組み合わせる
+                std::string count;
+                while (i < hand.length() && hand[i] >= '0' && hand[i] <= '9') {
+                    count += hand[i++];
+                }
                 if (i < hand.length()) {
                     char piece = hand[i];
                     if (piece >= 'A' && piece <= 'Z') {
-                        senteHand += c;
+                        senteHand += count;
                         senteHand += piece;
                     }
                     else {
-                        goteHand += c;
+                        goteHand += count;
                         goteHand += piece;
                     }
                 }
-- 
2.43.0


From 025ce953290c9edda2f376ae8be4baf2b6411316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:31 +0000
Subject: [PATCH 08/16] fix: entering-king feature planes are cleared like the
 others

---
 src/cshogi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index 6bf7158..06fc26c 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -353,7 +353,7 @@ public:
         float(* const features2_hand)[ColorNum][MAX_PIECES_IN_HAND_SUM][SquareNum] = reinterpret_cast<float(* const)[ColorNum][MAX_PIECES_IN_HAND_SUM][SquareNum]>(mem2);
 
         std::fill_n((float*)features1, sizeof(features1_t) / sizeof(float), 0);
-        std::fill_n((float*)features2, sizeof(features2_t) / sizeof(float), 0);
+        std::fill_n((float*)features2, __dlshogi_get_features2_num() * (int)SquareNum, 0);
 
         const Bitboard occupied_bb = pos.occupiedBB();
 
-- 
2.43.0


From 14c372b811748f74cb2e82724e808add4d8e7549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:31 +0000
Subject: [PATCH 09/16] fix: unknown piece names in a CSA record are refused

---
 src/parser.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser.h b/src/parser.h
index 4b644e1..eef64d5 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -34,7 +34,10 @@ namespace parser {
             (*this)["RY"] = Dragon;
         }
         PieceType value(const std::string& str) const {
-            return this->find(str)->second;
+            const auto itr = this->find(str);
+            if (itr == this->end())
+                throw std::domain_error("Invalid piece: " + str);
+            return itr->second;
         }
     };
     const StringToPieceTypeCSA stringToPieceTypeCSA;
@@ -73,7 +76,10 @@ namespace parser {
             (*this)["-RY"] = WDragon;
         }
         Piece value(const std::string& str) const {
-            return this->find(str)->second;
+            const auto itr = this->find(str);
+            if (itr == this->end())
+                throw std::domain_error("Invalid piece: " + str);
+            return itr->second;
         }
     };
     const StringToPieceCSA stringToPieceCSA;
-- 
2.43.0


From 6d8ef5efbd48cf185fd1ba6c6c7820ad6db46246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:31 +0000
Subject: [PATCH 10/16] fix: CSA P+/P- lines place single pieces at file and
 rank

---
 src/parser.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser.h b/src/parser.h
index eef64d5..bb676b9 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -292,7 +292,7 @@ namespace parser {
             int file_index;
             Piece piece;
             int pieces_in_hand[PieceNone] = {};
-            Piece pieces_in_board[9][9];
+            Piece pieces_in_board[9][9] = {};
 
             // ex.) P1 - KY - KE - GI - KI - OU - KI - GI - KE - KY
             for (auto line : position_block_lines) {
@@ -318,10 +318,11 @@ namespace parser {
                     if (itrColor != COLOR_SYMBOLS.end()) {
                         int index = 2;
                         while (index < line.size()) {
-                            rank_index = std::stoi(line.substr(index, 1));
-                            index += 1;
+                            // CSA: 筋、段の順
                             file_index = std::stoi(line.substr(index, 1));
                             index += 1;
+                            rank_index = std::stoi(line.substr(index, 1));
+                            index += 1;
                             piece = stringToPieceCSA.value((*itrColor) + line.substr(index, 2));
                             index += 2;
                             if (rank_index == 0 && file_index == 0) {
@@ -329,7 +330,9 @@ namespace parser {
                                 pieces_in_hand[piece] += 1;
                             }
                             else {
-                                pieces_in_board[(rank_index - 1)][(file_index - 1)] = piece;
+                                if (rank_index == 0 || file_index == 0)
+                                    throw std::domain_error("Invalid position line: " + line);
+                                pieces_in_board[(rank_index - 1)][(9 - file_index)] = piece;
                             }
                         }
                     }
-- 
2.43.0


From 4759f9096d5085a26c9dbc627f2423f1135ced78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:31 +0000
Subject: [PATCH 11/16] fix: CSA score comment before the first move is ignored

---
 src/parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.h b/src/parser.h
index bb676b9..60944c8 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -163,7 +163,7 @@ namespace parser {
                         }
                     }
                     // score
-                    else if (line.substr(0, 4) == "'** ") {
+                    else if (!moves.empty() && line.substr(0, 4) == "'** ") {
                         auto last = line.find_first_of(" ", 4);
                         if (last == std::string::npos)
                             last = line.size();
-- 
2.43.0


From f4d84318613793205d3e535832d82beca6aef973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:31 +0000
Subject: [PATCH 12/16] fix: illegal move in a CSA record is refused

---
 src/parser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.h b/src/parser.h
index 60944c8..20d359c 100644
--- a/src/parser.h
+++ b/src/parser.h
@@ -217,6 +217,8 @@ namespace parser {
                         if (!pos_initialized)
                             throw std::domain_error("Board infomation is not defined before a special move");
                         Move move = csaToMove(pos, line.substr(1, 6));
+                        if (!move)
+                            throw std::domain_error("Illegal move: " + line);
                         moves.push_back(move.value());
                         states->push_back(StateInfo());
                         pos.doMove(move, states->back());
-- 
2.43.0


From fd7c951a85a3194ed715b233c578cbe30c6a3ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:31 +0000
Subject: [PATCH 13/16] fix: capturing a king is never a legal move

---
 src/position.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/position.cpp b/src/position.cpp
index 8e65940..b50f6dc 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -408,7 +408,8 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
     else {
         const Square from = move.from();
         const PieceType ptFrom = move.pieceTypeFrom();
-        if (piece(from) != colorAndPieceTypeToPiece(us, ptFrom) || bbOf(us).isSet(to))
+        // 玉は取れない。
+        if (piece(from) != colorAndPieceTypeToPiece(us, ptFrom) || bbOf(us).isSet(to) || pieceToPieceType(piece(to)) == King)
             return false;
 
         if (!attacksFrom(ptFrom, us, from).isSet(to))
-- 
2.43.0


From 50f46d946027fbb706cd66d667df8f225879f6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:31 +0000
Subject: [PATCH 14/16] fix: mate-in-1 move carries the real type of a promoted
 piece

---
 src/position.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index b50f6dc..8435f89 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -2537,7 +2537,7 @@ silver_drop_end:
                     if (!can_king_escape_cangoto(*this, Them, from, to, bb_attacks, slide)) {
                         if (promo && !(pt & PTPromote) && pt != Gold)
                             return makePromoteMove<Capture>(pt, from, to, *this);
-                        return makeCaptureMove(pt, from, to, *this);
+                        return makeCaptureMove(pieceToPieceType(piece(from)), from, to, *this);
                     }
 
                 DC_Silver_NO_PRO:
@@ -2786,7 +2786,7 @@ silver_drop_end:
                         if (canPromote(US, from, to) && !(piece(from) & PTPromote) && pt != Gold)
                             return makePromoteMove<Capture>(pt, from, to, *this);
                         else
-                            return makeCaptureMove(pt, from, to, *this);
+                            return makeCaptureMove(pieceToPieceType(piece(from)), from, to, *this);
                     }
 
                 DISCOVER_ATTACK_CONTINUE_Silver:
-- 
2.43.0


From 32b508129a9fcef683549fde16dde2ba126af20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:32 +0000
Subject: [PATCH 15/16] fix: mate searches overflow their move buffer when
 there are more than 91 evasions

---
 src/dfpn.cpp | 7 ++++---
 src/mate.cpp | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dfpn.cpp b/src/dfpn.cpp
index c9fce7f..beb6f35 100644
--- a/src/dfpn.cpp
+++ b/src/dfpn.cpp
@@ -20,6 +20,7 @@ void DfPn::dfpn_stop(const bool stop)
 // 詰将棋エンジン用のMovePicker
 namespace ns_dfpn {
     const constexpr size_t MaxCheckMoves = 91;
+    const constexpr size_t MaxEvasionMoves = 256; // 合駒が多いと王手の最大数を超える
 
     template <bool or_node>
     class MovePicker {
@@ -50,7 +51,7 @@ namespace ns_dfpn {
                         ++curr;
                 }
             }
-            assert(size() <= MaxCheckMoves);
+            assert(size() <= (or_node ? MaxCheckMoves : MaxEvasionMoves));
         }
         size_t size() const { return static_cast<size_t>(last_ - moveList_); }
         ExtMove* begin() { return &moveList_[0]; }
@@ -58,7 +59,7 @@ namespace ns_dfpn {
         bool empty() const { return size() == 0; }
 
     private:
-        ExtMove moveList_[MaxCheckMoves];
+        ExtMove moveList_[or_node ? MaxCheckMoves : MaxEvasionMoves];
         ExtMove* last_;
     };
 }
@@ -496,7 +497,7 @@ void DfPn::dfpn_inner(Position& n, const int thpn, const int thdn/*, bool inc_fl
     struct TTKey {
         TranspositionTable::Cluster* entries;
         Hand hand;
-    } ttkeys[MaxCheckMoves];
+    } ttkeys[or_node ? MaxCheckMoves : MaxEvasionMoves];
 
     for (const auto& move : move_picker) {
         auto& ttkey = ttkeys[&move - move_picker.begin()];
diff --git a/src/mate.cpp b/src/mate.cpp
index 6c9fb3f..b1ae3d2 100644
--- a/src/mate.cpp
+++ b/src/mate.cpp
@@ -5,6 +5,7 @@
 #include "mate.h"
 
 const constexpr size_t MaxCheckMoves = 91;
+const constexpr size_t MaxEvasionMoves = 256; // 合駒が多いと王手の最大数を超える
 
 // 詰み探索用のMovePicker
 template <bool or_node, bool INCHECK>
@@ -36,7 +37,7 @@ public:
                     ++curr;
             }
         }
-        assert(size() <= MaxCheckMoves);
+        assert(size() <= (or_node ? MaxCheckMoves : MaxEvasionMoves));
     }
     size_t size() const { return static_cast<size_t>(last_ - moveList_); }
     ExtMove* begin() { return &moveList_[0]; }
@@ -44,7 +45,7 @@ public:
     bool empty() const { return size() == 0; }
 
 private:
-    ExtMove moveList_[MaxCheckMoves];
+    ExtMove moveList_[or_node ? MaxCheckMoves : MaxEvasionMoves];
     ExtMove* last_;
 };
 
-- 
2.43.0


From a7ce9770203c48c631fd6435feb6fdd39f48b65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:32 +0000
Subject: [PATCH 16/16] fix: is_mate(0) recurses without end instead of testing
 for mate

---
 src/mate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mate.cpp b/src/mate.cpp
index b1ae3d2..f330b20 100644
--- a/src/mate.cpp
+++ b/src/mate.cpp
@@ -209,6 +209,10 @@ bool mateMoveInEvenPly(Position& pos, const int depth)
     // すべてのEvasionについて
     const CheckInfo ci(pos);
     for (const auto& ml : MovePicker<false, false>(pos)) {
+        // 残り手数がなく、逃げる手がある場合は不詰め
+        if (depth <= 0)
+            return false;
+
         //std::cout << depth << " : " << pos.toSFEN() << " : " << ml.move.toUSI() << std::endl;
         const bool givesCheck = pos.moveGivesCheck(ml.move, ci);
 
-- 
2.43.0

