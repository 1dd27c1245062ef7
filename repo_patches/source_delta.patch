From 4df517b186a34372a3ef3465de681fd1a46d62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:22 +0000
Subject: [PATCH 1/9] fix: external move legality test follows the rules (dead
 squares, promotion zone, droppable and captured piece)

---
 src/position.cpp | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/position.cpp b/src/position.cpp
index 8cca77f..1d15448 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -347,6 +347,18 @@ bool Position::checkMoveIsEvasion(const Move move) const {
     return true;
 }
 
+namespace {
+    // pt を sq に置くと、行きどころの無い駒になるか。
+    bool isDeadSquare(const Color us, const PieceType pt, const Square sq) {
+        const Rank rank = makeRank(sq);
+        switch (pt) {
+        case Pawn: case Lance: return rank == (us == Black ? Rank1 : Rank9);
+        case Knight          : return us == Black ? isInFrontOf<Black, Rank3, Rank7>(rank) : isInFrontOf<White, Rank3, Rank7>(rank);
+        default              : return false;
+        }
+    }
+}
+
 // Searching: true なら探索時に内部で生成した手の合法手判定を行う。
 //            ttMove で hash 値が衝突した時などで、大駒の不成など明らかに価値の低い手が生成される事がある。
 //            これは非合法手として省いて良い。
@@ -358,8 +370,14 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
 
     if (move.isDrop()) {
         const PieceType ptFrom = move.pieceTypeDropped();
+        if (!Searching && (ptFrom < Pawn || Gold < ptFrom))
+            // 打てる駒ではない。
+            return false;
         if (!hand(us).exists(pieceTypeToHandPiece(ptFrom)) || piece(to) != Empty)
             return false;
+        if (!Searching && isDeadSquare(us, ptFrom, to))
+            // 行きどころの無い駒
+            return false;
 
         if (inCheck()) {
             // 王手されているので、合駒でなければならない。
@@ -391,6 +409,9 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
         const PieceType ptFrom = move.pieceTypeFrom();
         if (piece(from) != colorAndPieceTypeToPiece(us, ptFrom) || bbOf(us).isSet(to))
             return false;
+        if (!Searching && (ptFrom == Occupied || move.cap() != pieceToPieceType(piece(to))))
+            // 移動元に駒が無い。又は、取る駒の種類が局面と異なる。
+            return false;
 
         if (!attacksFrom(ptFrom, us, from).isSet(to))
             return false;
@@ -434,6 +455,14 @@ template <bool Searching> bool Position::moveIsPseudoLegal(const Move move) cons
                     return false;
             }
         }
+        else if (move.isPromotion()) {
+            if (Rook < ptFrom || !(canPromote(us, makeRank(to)) || canPromote(us, makeRank(from))))
+                // 成れない駒、又は敵陣に関係しない成り
+                return false;
+        }
+        else if (isDeadSquare(us, ptFrom, to))
+            // 行きどころの無い駒
+            return false;
 
         if (inCheck()) {
             if (ptFrom == King) {
-- 
2.43.0


From c67e0c22cf1249dbda0c3028de6902d732ab604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:30 +0000
Subject: [PATCH 2/9] fix: taking back a pass restores the continuous-check
 counters

---
 src/position.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/position.cpp b/src/position.cpp
index 1d15448..61efad9 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -691,6 +691,8 @@ template <bool DO> void Position::doNullMove(StateInfo& backUpSt) {
     dst->boardKey = src->boardKey;
     dst->handKey = src->handKey;
     dst->pliesFromNull = src->pliesFromNull;
+    dst->continuousCheck[Black] = src->continuousCheck[Black];
+    dst->continuousCheck[White] = src->continuousCheck[White];
     dst->hand = hand(turn());
     turn_ = oppositeColor(turn());
 
-- 
2.43.0


From bb03118dd9667f55b5f833641725cf921af4283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:09 +0000
Subject: [PATCH 3/9] fix: clear the nyugyoku planes too in
 _dlshogi_make_input_features

With use_nyugyoku_features the second feature buffer has 119 planes, but only the 57
base planes were cleared before being filled, so stale values from a reused (or
uninitialised) buffer remained in the nyugyoku planes.
---
 src/cshogi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index 332665e..cc03883 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -353,7 +353,7 @@ public:
         float(* const features2_hand)[ColorNum][MAX_PIECES_IN_HAND_SUM][SquareNum] = reinterpret_cast<float(* const)[ColorNum][MAX_PIECES_IN_HAND_SUM][SquareNum]>(mem2);
 
         std::fill_n((float*)features1, sizeof(features1_t) / sizeof(float), 0);
-        std::fill_n((float*)features2, sizeof(features2_t) / sizeof(float), 0);
+        std::fill_n((float*)features2, __dlshogi_get_features2_num() * (int)SquareNum, 0);
 
         const Bitboard occupied_bb = pos.occupiedBB();
 
-- 
2.43.0


From 2c5506307ba26895f3c0acfa49ae012c4b336de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:06 +0000
Subject: [PATCH 4/9] fix: declare the features2 array with its nyugyoku planes

The nyugyoku planes were reached by indexing past the declared bound of the array type
(undefined behaviour); the declared type now covers them.
---
 src/cshogi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index cc03883..e974430 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -347,7 +347,7 @@ public:
     // 駒の利き、王手情報を含む特徴量(dlshogi互換)
     void _dlshogi_make_input_features(char* mem1, char* mem2) const {
         typedef float features1_t[ColorNum][MAX_FEATURES1_NUM][SquareNum];
-        typedef float features2_t[MAX_FEATURES2_NUM][SquareNum];
+        typedef float features2_t[MAX_FEATURES2_NUM + (int)ColorNum * MAX_FEATURES2_NYUGYOKU_NUM][SquareNum];
         features1_t* const features1 = reinterpret_cast<features1_t* const>(mem1);
         features2_t* const features2 = reinterpret_cast<features2_t* const>(mem2);
         float(* const features2_hand)[ColorNum][MAX_PIECES_IN_HAND_SUM][SquareNum] = reinterpret_cast<float(* const)[ColorNum][MAX_PIECES_IN_HAND_SUM][SquareNum]>(mem2);
-- 
2.43.0


From 1cdf0bb26cb301dae1cafe6e280cc8cbf58894d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:04 +0000
Subject: [PATCH 5/9] fix: move_is_draw predicts the repetition verdict that
 is_draw gives after the move

---
 src/position.cpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index 61efad9..7a1b949 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -3310,18 +3310,33 @@ RepetitionType Position::moveIsDraw(const Move move, const int checkMaxPly) cons
         // 現在の局面と、少なくとも 4 手戻らないと同じ局面にならない。
         // ここでまず 1 手戻る。
         StateInfo* stp = st_->previous;
-        Key key = getKeyAfter(move);
+        const Color us = turn();
+        const Color them = oppositeColor(us);
+        const Key key = getKeyAfter(move);
+        const Key boardKeyAfter = getBoardKeyAfter(move);
+        const Hand themHand = hand(them); // the opponent is the side to move after the move
 
         do {
             // 更に 2 手戻る。
             stp = stp->previous->previous;
             if (stp->key() == key) {
-                if (i <= st_->continuousCheck[turn()])
-                    return RepetitionWin;
-                else if (i <= st_->continuousCheck[oppositeColor(turn())])
+                // same position: the move gives check exactly when the opponent was in check there
+                const int continuousCheckUs = (stp->checkersBB ? st_->continuousCheck[us] + 2 : 0);
+                if (i <= st_->continuousCheck[them])
                     return RepetitionLose;
-                else
-                    return RepetitionDraw;
+                else if (i <= continuousCheckUs)
+                    return RepetitionWin;
+#if defined BAN_BLACK_REPETITION
+                return (them == Black ? RepetitionLose : RepetitionWin);
+#elif defined BAN_WHITE_REPETITION
+                return (them == White ? RepetitionLose : RepetitionWin);
+#else
+                return RepetitionDraw;
+#endif
+            }
+            else if (stp->boardKey == boardKeyAfter) {
+                if (themHand.isEqualOrSuperior(stp->hand)) return RepetitionSuperior;
+                if (stp->hand.isEqualOrSuperior(themHand)) return RepetitionInferior;
             }
             i += 2;
         } while (i <= e);
-- 
2.43.0


From 48258364fc15bfe5703df75b4aae3911f5acf996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:04 +0000
Subject: [PATCH 6/9] fix: keep two-digit hand counts when rotating an SFEN

---
 src/cshogi.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cshogi.h b/src/cshogi.h
index e974430..f5b85f7 100644
--- a/src/cshogi.h
+++ b/src/cshogi.h
@@ -610,17 +610,18 @@ std::string __rotate_sfen(const std::string& sfen) {
         for (int i = 0; i < hand.length(); i++) {
             char c = hand[i];
 
-            if (c >= '2' && c <= '9') {
-                // 数字の場合、次の駒と組み合わせる
-                i++;
+            if (c >= '0' && c <= '9') {
+                // 数字の場合、次の駒と組み合わせる (10枚以上は2桁)
+                std::string num;
+                while (i < hand.length() && hand[i] >= '0' && hand[i] <= '9') num += hand[i++];
                 if (i < hand.length()) {
                     char piece = hand[i];
                     if (piece >= 'A' && piece <= 'Z') {
-                        senteHand += c;
+                        senteHand += num;
                         senteHand += piece;
                     }
                     else {
-                        goteHand += c;
+                        goteHand += num;
                         goteHand += piece;
                     }
                 }
-- 
2.43.0


From e7b321bcc8e99732c1a7a183348ad43ba2cdfe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:17 +0000
Subject: [PATCH 7/9] fix: mate search buffers hold every evasion (more than 91
 are possible)

---
 src/mate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mate.cpp b/src/mate.cpp
index 6c9fb3f..1001348 100644
--- a/src/mate.cpp
+++ b/src/mate.cpp
@@ -4,7 +4,7 @@
 
 #include "mate.h"
 
-const constexpr size_t MaxCheckMoves = 91;
+const constexpr size_t MaxCheckMoves = MaxLegalMoves; // 王手は91手以下だが、王手回避は91手を超える場合がある
 
 // 詰み探索用のMovePicker
 template <bool or_node, bool INCHECK>
-- 
2.43.0


From fe81464a6c30e27661d8e381ccb527debc4d5e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:17 +0000
Subject: [PATCH 8/9] fix: df-pn move buffers hold every evasion (more than 91
 are possible)

---
 src/dfpn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dfpn.cpp b/src/dfpn.cpp
index c9fce7f..607f245 100644
--- a/src/dfpn.cpp
+++ b/src/dfpn.cpp
@@ -19,7 +19,7 @@ void DfPn::dfpn_stop(const bool stop)
 
 // 詰将棋エンジン用のMovePicker
 namespace ns_dfpn {
-    const constexpr size_t MaxCheckMoves = 91;
+    const constexpr size_t MaxCheckMoves = MaxLegalMoves; // 王手は91手以下だが、王手回避は91手を超える場合がある
 
     template <bool or_node>
     class MovePicker {
-- 
2.43.0


From ae913d727290abcf23cf9d8c91c25bb6ee41e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:31 +0000
Subject: [PATCH 9/9] fix: mate-in-one test returns the real type of the moving
 promoted piece

The discovered-check branches of mateMoveIn1Ply handle promoted pawns, lances,
knights and silvers as golds and then encoded the returned move with the gold
type, so the move was none of the legal moves of the position.
---
 src/position.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/position.cpp b/src/position.cpp
index 7a1b949..243f5be 100644
--- a/src/position.cpp
+++ b/src/position.cpp
@@ -2538,7 +2538,7 @@ silver_drop_end:
                     if (!can_king_escape_cangoto(*this, Them, from, to, bb_attacks, slide)) {
                         if (promo && !(pt & PTPromote) && pt != Gold)
                             return makePromoteMove<Capture>(pt, from, to, *this);
-                        return makeCaptureMove(pt, from, to, *this);
+                        return makeCaptureMove(pieceToPieceType(piece(from)), from, to, *this);
                     }
 
                 DC_Silver_NO_PRO:
@@ -2787,7 +2787,7 @@ silver_drop_end:
                         if (canPromote(US, from, to) && !(piece(from) & PTPromote) && pt != Gold)
                             return makePromoteMove<Capture>(pt, from, to, *this);
                         else
-                            return makeCaptureMove(pt, from, to, *this);
+                            return makeCaptureMove(pieceToPieceType(piece(from)), from, to, *this);
                     }
 
                 DISCOVER_ATTACK_CONTINUE_Silver:
-- 
2.43.0

