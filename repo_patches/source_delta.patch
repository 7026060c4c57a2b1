From 38bf9c337cd98faa7f57e1b49067e50545136fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 01/61] fix: laymine_op on boards with a single row or column

The size of the opening was taken as 4, 6 or 9 cells even when the board has
only one row or column, which underflowed or indexed past the shuffled cells.
---
 base/src/utils.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 001bb21..22da7b7 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -509,18 +509,8 @@ pub fn laymine_op(
     X0: usize,
     Y0: usize,
 ) -> Vec<Vec<i32>> {
-    let mut areaOp = 9;
-    if X0 == 0 || Y0 == 0 || X0 == row - 1 || Y0 == column - 1 {
-        if X0 == 0 && Y0 == 0
-            || X0 == 0 && Y0 == column - 1
-            || X0 == row - 1 && Y0 == 0
-            || X0 == row - 1 && Y0 == column - 1
-        {
-            areaOp = 4;
-        } else {
-            areaOp = 6;
-        }
-    }
+    // 起手位置及其周围在局面内的格子数（兼容只有一行或一列的局面）
+    let areaOp = (min(row, X0 + 2) + 1 - max(1, X0)) * (min(column, Y0 + 2) + 1 - max(1, Y0));
     let area = row * column - areaOp;
     let mut board1_dim = vec![0; area - minenum];
     board1_dim.append(&mut vec![-1; minenum]);
-- 
2.43.0


From ead49b344297755617bfb30a7a1937d2eeffa985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 02/61] fix: is_good_chording indexed past the last column

The guard for the right neighbour compared with column + 1.
---
 base/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 22da7b7..a60983a 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -1723,7 +1723,7 @@ pub fn is_good_chording(board_of_game: &Vec<Vec<i32>>, pos: (usize, usize)) -> b
             return false;
         }
     }
-    if pos.1 < column + 1 {
+    if pos.1 + 1 < column {
         if mid_num < surround_cell_num(board_of_game, (pos.0, pos.1 + 1)) {
             return false;
         }
-- 
2.43.0


From 27b7e5d00a8349c59eea81cb88c3c887d9662584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 03/61] fix: refresh_matrixses split or duplicated segments of
 a block

The traversal of the segment graph only followed edges to larger indices, which
left linked segments in separate blocks, and could visit a segment twice, which
added empty segments.
---
 base/src/utils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index a60983a..2748b9a 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -382,6 +382,9 @@ pub fn refresh_matrixses(
         xses.push(vec![]);
         bses.push(vec![]);
         let mut buffer = vec![i];
+        // 已经加入过当前块的段，避免重复加入
+        let mut visited = vec![false; As.len()];
+        visited[i] = true;
 
         while !buffer.is_empty() {
             let t = buffer.pop().unwrap();
@@ -403,8 +406,9 @@ pub fn refresh_matrixses(
                 .last_mut()
                 .unwrap()
                 .append(&mut bs[t]);
-            for idj in t..As.len() {
-                if adjacency_matrix[t][idj] {
+            for idj in 0..As.len() {
+                if adjacency_matrix[t][idj] && !visited[idj] {
+                    visited[idj] = true;
                     buffer.push(idj);
                 }
             }
-- 
2.43.0


From 4021d838c33dbe87d7b5d0e6a1e96b56ed242673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 04/61] fix: Board returned 0 when 3BV, openings or islands
 were read again

The getters set their has_cal flag without storing the value.
---
 base/src/board.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/base/src/board.rs b/base/src/board.rs
index 12f2280..00fd60e 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -210,21 +210,24 @@ impl Board {
             self.has_cal_openings = true;
         }
         self.has_cal_bbbv = true;
-        return a + self.openings;
+        self.bbbv = a + self.openings;
+        return self.bbbv;
     }
     pub fn get_op(&mut self) -> usize {
         if self.has_cal_openings {
             return self.openings;
         }
         self.has_cal_openings = true;
-        return cal_op(&self.board);
+        self.openings = cal_op(&self.board);
+        return self.openings;
     }
     pub fn get_isl(&mut self) -> usize {
         if self.has_cal_islands {
             return self.islands;
         }
         self.has_cal_islands = true;
-        return cal_isl(&self.board);
+        self.islands = cal_isl(&self.board);
+        return self.islands;
     }
     fn cal_cell_nums(&mut self) {
         let ans = cal_cell_nums(&self.board);
-- 
2.43.0


From 1798e531dab6925f526da7d853895f82a17ef6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 05/61] fix: GameBoard answered for an earlier board after
 set_game_board

The cached marks, lists and probabilities were kept when the board changed.
---
 base/src/board.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/src/board.rs b/base/src/board.rs
index 00fd60e..b8ee87b 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -63,6 +63,13 @@ impl GameBoard {
         }
         self.game_board = board.clone();
         self.game_board_marked = game_board_marked;
+        // 局面变了，之前的计算结果全部作废
+        self.is_marked = false;
+        self.has_poss = false;
+        self.basic_not_mine.clear();
+        self.basic_is_mine.clear();
+        self.enum_not_mine.clear();
+        self.enum_is_mine.clear();
     }
     fn mark(&mut self) {
         // 一旦被标记，那么就会用3大判雷引擎都分析一遍
-- 
2.43.0


From ae3ab46371248535e069052b98b166950cd6af16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 06/61] fix: GameBoard never reported mines found by
 enumeration

get_enum_is_mine looked for marks on the board, but the enumeration engine does
not mark it.
---
 base/src/board.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/base/src/board.rs b/base/src/board.rs
index b8ee87b..ea01185 100644
--- a/base/src/board.rs
+++ b/base/src/board.rs
@@ -97,15 +97,10 @@ impl GameBoard {
                 }
             }
         }
-        self.enum_not_mine = solve_enumerate(&a_s, &x_s, &b_s).0;
-        // println!("yyyyyyyyyyyyyyyyy");
-        for i in 0..self.game_board_marked.len() {
-            for j in 0..self.game_board_marked[0].len() {
-                if self.game_board_marked[i][j] == 11 && !self.basic_is_mine.contains(&(i, j)) {
-                    self.enum_is_mine.push((i, j));
-                }
-            }
-        }
+        let ans = solve_enumerate(&a_s, &x_s, &b_s);
+        self.enum_not_mine = ans.0;
+        // 枚举引擎不在局面上标雷，直接取其返回值
+        self.enum_is_mine = ans.1;
         self.is_marked = true;
     }
     pub fn get_poss(&mut self) -> &Vec<Vec<f64>> {
-- 
2.43.0


From 3e0c38cbedc4235a978c9999e2b40315b53eb5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 07/61] fix: iterating over a SafeBoardRow yielded internal
 codes

The iterator skipped the table lookup that indexing and into_vec do.
---
 base/src/safe_board.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/safe_board.rs b/base/src/safe_board.rs
index 72a6a88..43d3a23 100644
--- a/base/src/safe_board.rs
+++ b/base/src/safe_board.rs
@@ -172,7 +172,7 @@ impl Iterator for SafeBoardRow {
                 self.value_3[self.counter],
             );
             self.counter += 1;
-            Some(t)
+            Some(self.table[t as usize])
         } else {
             None
         }
-- 
2.43.0


From cf02503724f9cca0d27f338972bf10694b11f71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 08/61] fix: solve_enumerate missed certain mines in merged
 cells

The per-cell number of arrangements was compared with the total times the size
of the merged group, so a group of two or more certain mines was never found.
---
 base/src/algorithms.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 608f86a..7f4f325 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -606,8 +606,8 @@ pub fn solve_enumerate(
                 for kk in &comb_relp_s[i][jj] {
                     not_mine.push(xs[i][*kk]);
                 }
-            } else if s_num == table_minenum_i[1].iter().sum::<usize>() * comb_relp_s[i][jj].len()
-            {
+            } else if s_num == table_minenum_i[1].iter().sum::<usize>() {
+                // table_cell_minenum统计的是合成格子中每一格的情况数
                 for kk in &comb_relp_s[i][jj] {
                     is_mine.push(xs[i][*kk]);
                 }
-- 
2.43.0


From d53b5d852e217c92e3dac6d6fb2d3844462a06bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 09/61] fix: solve_direct and solve_minus panicked on, or hid,
 contradictory boards

---
 base/src/algorithms.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 7f4f325..17f7f40 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -119,6 +119,9 @@ pub fn solve_minus(
             }
         }
         if xs[b].is_empty() {
+            if bs[b].iter().any(|&x| x != 0) {
+                return Err(6); // 格子全部判出，但数字不能满足
+            }
             remove_blocks_id.push(b);
         }
     }
@@ -196,13 +199,13 @@ pub fn solve_direct(
             xs.remove(b);
         }
     }
-    let ans = bs.iter().find(|&b| match b.iter().find(|&&x| x < 0) {
-        Some(_) => return true,
-        None => return false,
-    });
-    match ans {
-        Some(_) => return Err(6),
-        None => {}
+    for b in 0..bs.len() {
+        for i in 0..bs[b].len() {
+            // 剩余的雷数为负，或多于剩余的格子数
+            if bs[b][i] < 0 || bs[b][i] > As[b][i].iter().sum::<i32>() {
+                return Err(6);
+            }
+        }
     }
     chunk_matrixes(As, xs, bs);
     Ok((not_mine, is_mine))
-- 
2.43.0


From 8c1cff1f2fa88d9a784012245d47fc8df51b2383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 10/61] fix: cal_possibility mine range, densities below the
 marked mines, and impossible totals

---
 base/src/algorithms.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 17f7f40..a94f5ec 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -299,7 +299,7 @@ pub fn cal_possibility(
     let minenum = if minenum < 1.0 {
         let mn = ((board_of_game.len() * board_of_game[0].len()) as f64 * minenum) as usize;
         min(
-            max(mn - is_minenum, min_minenum),
+            max(mn.saturating_sub(is_minenum), min_minenum),
             max_minenum + unknow_block,
         )
     } else {
@@ -311,13 +311,15 @@ pub fn cal_possibility(
         }
     };
 
-    max_minenum = min(max_minenum, minenum);
-    if max_minenum < min_minenum {
+    if minenum < min_minenum {
         return Err(3); // 这种错误，例如一共10个雷，却出现了3个不相邻的5
     }
+    if minenum > max_minenum + unknow_block {
+        return Err(4); // 这种错误，例如只能放下10个雷，雷数却是11
+    }
     // println!("{:?}, {:?}, {:?}", max_minenum, minenum, min_minenum);
     let unknow_minenum: Vec<usize> =
-        (minenum - max_minenum..min(minenum - min_minenum, unknow_block) + 1).collect();
+        (minenum - min(max_minenum, minenum)..min(minenum - min_minenum, unknow_block) + 1).collect();
     // 这里的写法存在极小的风险，例如边缘格雷数分布是0，1，3，而我们直接认为了可能有2
     let mut unknow_mine_s_num = vec![];
     for i in &unknow_minenum {
-- 
2.43.0


From f364f0c48e4e8212710e3c0d7025d0facd24d70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 11/61] fix: enumeration overflowed when marked mines exceed a
 number

---
 base/src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 2748b9a..6ed54fd 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -997,6 +997,9 @@ fn cal_table_minenum_recursion_step(
                 lower_limit_i -= combination_relationship[*j].len() as i32;
             }
         }
+        if upper_limit_i < 0 {
+            return Ok(false); // 标雷数已经超过数字，矛盾的局面
+        }
         if upper_limit_i < upper_limit as i32 {
             upper_limit = upper_limit_i as usize;
         }
-- 
2.43.0


From 6f4b30f1d519ee62e20577a7f79b59af0871f46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 12/61] fix: is_guess_while_needless called an interior click a
 certain mine

---
 base/src/algorithms.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index a94f5ec..3530cee 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -1357,7 +1357,7 @@ pub fn is_guess_while_needless(board_of_game: &mut Vec<Vec<i32>>, xy: &(usize, u
         flag_need = n.is_empty();
         match board_of_game[xy.0][xy.1] {
             12 => return 1,
-            11 => return 4,
+            11 if flag_border => return 4,
             _ => {
                 let (n, _) = solve_minus(As, xs, bs, board_of_game).unwrap();;
                 if !flag_border && !n.is_empty() {
@@ -1366,7 +1366,7 @@ pub fn is_guess_while_needless(board_of_game: &mut Vec<Vec<i32>>, xy: &(usize, u
                 flag_need = flag_need && n.is_empty();
                 match board_of_game[xy.0][xy.1] {
                     12 => return 1,
-                    11 => return 4,
+                    11 if flag_border => return 4,
                     _ => {
                         let (n, i) = solve_enumerate(As, xs, bs);
                         if !flag_border && !n.is_empty() {
@@ -1375,7 +1375,7 @@ pub fn is_guess_while_needless(board_of_game: &mut Vec<Vec<i32>>, xy: &(usize, u
                         flag_need = flag_need && n.is_empty();
                         if n.contains(&xy) {
                             return 1;
-                        } else if i.contains(&xy) {
+                        } else if flag_border && i.contains(&xy) {
                             return 4;
                         } else if flag_need {
                             return 2;
-- 
2.43.0


From 9657481e2d980e1c9ce5e0cb946700b9e74abc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 13/61] fix: laymine_solvable_adjust flagged unsolvable boards
 and wrong mine counts as success

---
 base/src/algorithms.rs | 63 +++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 3530cee..95a5108 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -848,45 +848,46 @@ pub fn laymine_solvable_adjust(
             }
         }
     }
-    // 开始递归求解
-    let (mut b, flag) = adjust_step(
-        &board,
-        &board_of_game,
-        &cells_plan_to_click,
-        remain_minenum,
-        remain_not_minenum,
-    );
-    // println!("+++++");
-    // b.iter().for_each(|i| {
-    //     i.iter()
-    //         .for_each(|j| print!("{number:>width$}", number = j, width = 4));
-    //     println!("")
-    // });
-    if !flag || b.is_empty() {
-        return (laymine_op(row, column, minenum, x0, y0), false);
-    }
-    for i in 0..row {
-        for j in 0..column {
-            if b[i][j] == -10 {
-                b[i][j] = -1;
+    // 逐步调整不能保证雷数正确、所有非雷都能点开，因此要验证，不通过则重试
+    for _ in 0..20 {
+        // 开始递归求解
+        let (mut b, flag) = adjust_step(
+            &board,
+            &board_of_game,
+            &cells_plan_to_click,
+            remain_minenum,
+            remain_not_minenum,
+        );
+        if !flag || b.is_empty() {
+            continue;
+        }
+        for i in 0..row {
+            for j in 0..column {
+                if b[i][j] == -10 {
+                    b[i][j] = -1;
+                }
             }
         }
-    }
-    // 最后，算数字
-    for i in 0..row {
-        for j in 0..column {
-            if b[i][j] == -1 {
-                for m in max(1, i) - 1..min(row, i + 2) {
-                    for n in max(1, j) - 1..min(column, j + 2) {
-                        if b[m][n] >= 0 {
-                            b[m][n] += 1;
+        // 最后，算数字
+        for i in 0..row {
+            for j in 0..column {
+                if b[i][j] == -1 {
+                    for m in max(1, i) - 1..min(row, i + 2) {
+                        for n in max(1, j) - 1..min(column, j + 2) {
+                            if b[m][n] >= 0 {
+                                b[m][n] += 1;
+                            }
                         }
                     }
                 }
             }
         }
+        let mine_count = b.iter().flatten().filter(|x| **x == -1).count();
+        if mine_count == minenum && is_solvable(&b, x0, y0) {
+            return (b, true);
+        }
     }
-    (b, flag)
+    (laymine_op(row, column, minenum, x0, y0), false)
 }
 
 // 调整法的递归部分。注意空间复杂度为局面面积乘求解步数。
-- 
2.43.0


From 33eef7bdebe8dd1fe7339373cf71c155835adbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 14/61] fix: chording after a right press outside the board
 subtracted an uncounted right click

---
 base/src/videos/minesweeper_board.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index e85f783..af39200 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -668,7 +668,8 @@ impl<T> MinesweeperBoard<T> {
                         }
                         return self.right_click(pos.0, pos.1);
                     } else {
-                        self.mouse_state = MouseState::UpDownNotFlag;
+                        // 局面外的右键没有计数，双击时不能再减去
+                        self.mouse_state = MouseState::UpDown;
                     }
                 }
                 MouseState::DownUp => self.mouse_state = MouseState::Chording,
-- 
2.43.0


From b08f378616217eaf632434fa500d08b1adb6e975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 15/61] fix: effective clicks were kept when all marks set
 before the game are taken back

---
 base/src/videos/minesweeper_board.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index af39200..6714b9d 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -543,6 +543,7 @@ impl<T> MinesweeperBoard<T> {
                                     self.double = 0;
                                     self.left = 0;
                                     self.right = 0;
+                                    self.ce = 0;
                                     self.game_board[pos.0][pos.1] = 10;
                                     return Ok(0);
                                 } else {
@@ -848,6 +849,7 @@ impl<T> MinesweeperBoard<T> {
         self.double = 0;
         self.left = 0;
         self.right = 0;
+        self.ce = 0;
     }
 }
 
-- 
2.43.0


From e0adf9bb935138151bda938adba4b2f800fcabf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 16/61] fix: solved 3BV counted an opening twice, or missed it,
 around marked zeros

---
 base/src/videos/minesweeper_board.rs | 58 +++++++++++++---------------
 1 file changed, 26 insertions(+), 32 deletions(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 6714b9d..d954f93 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -176,11 +176,11 @@ impl<T> MinesweeperBoard<T> {
         // refresh_board(&self.board, &mut self.game_board, vec![(x, y)]);
         match self.board[x][y] {
             0 => {
+                self.ce += 1;
+                refresh_board(&self.board, &mut self.game_board, vec![(x, y)]);
                 if self.cell_is_op_completed(x, y, &mut vec![vec![false; self.column]; self.row]) {
                     self.bbbv_solved += 1;
                 }
-                self.ce += 1;
-                refresh_board(&self.board, &mut self.game_board, vec![(x, y)]);
                 if self.is_win() {
                     self.game_board_state = GameBoardState::Win;
                 }
@@ -293,8 +293,13 @@ impl<T> MinesweeperBoard<T> {
             }
             self.ce += 1;
             self.bbbv_solved += surround3BV;
-            self.bbbv_solved += self.op_num_around_cell(x, y);
+            let chording_ops = chording_cells
+                .iter()
+                .filter(|c| self.board[c.0][c.1] == 0)
+                .cloned()
+                .collect();
             refresh_board(&self.board, &mut self.game_board, chording_cells);
+            self.bbbv_solved += self.op_num_of_cells(chording_ops);
             // if flag_ch_op {
             //     if self.cell_is_op_completed(surround_op_x, surround_op_y) {
             //         self.bbbv_solved += 1;
@@ -327,57 +332,46 @@ impl<T> MinesweeperBoard<T> {
         }
         true
     }
-    // 在传入格子上双击以后，将新打开的（完整）op数。（已打开的不算）
-    // 这个格子不是雷、双击是合法的
-    // 只可能返回0，1，2
-    fn op_num_around_cell(&self, x: usize, y: usize) -> usize
+    // 刚刚打开的这些0所在的op中，已经完整打开的op数。
+    fn op_num_of_cells(&self, cells: Vec<(usize, usize)>) -> usize
     where
         T: std::ops::Index<usize> + BoardSize,
         T::Output: std::ops::Index<usize, Output = i32>,
     {
         let mut op_num = 0;
         let mut game_board_mark = vec![vec![false; self.column]; self.row];
-        for i in max(1, x) - 1..min(self.row, x + 2) {
-            for j in max(1, y) - 1..min(self.column, y + 2) {
-                if self.game_board[i][j] == 10 && self.board[i][j] == 0 && !game_board_mark[i][j] {
-                    if self.cell_is_op_completed(i, j, &mut game_board_mark) {
-                        op_num += 1;
-                    }
-                }
+        for (i, j) in cells {
+            if !game_board_mark[i][j] && self.cell_is_op_completed(i, j, &mut game_board_mark) {
+                op_num += 1;
             }
         }
         op_num
     }
 
-    // 是局面上能够完全打开的op（在游戏局面上是没有打开的状态，点下后能够完全打开）
+    // 该0所在的op是否已经完整打开。
     // 这是为了防范一种特殊情况，在空上面右击标雷使得空打开的时候不能完全打开；没有完全打开的空，不应计入3bv。
     fn cell_is_op_completed(&self, x: usize, y: usize, game_board_mark: &mut Vec<Vec<bool>>) -> bool
     where
         T: std::ops::Index<usize> + BoardSize,
         T::Output: std::ops::Index<usize, Output = i32>,
     {
-        // let mut game_board_mark = vec![vec![false; self.column]; self.row];
+        let mut is_completed = true;
         let mut poses = vec![(x, y)];
-        while let Some(top) = poses.pop() {
-            let (i, j) = top;
-            if self.board[i][j] > 0 {
-                continue;
-            } else if self.board[i][j] == 0 {
-                if self.game_board[i][j] == 11 {
-                    return false;
-                }
-                game_board_mark[i][j] = true;
-                for m in max(1, i) - 1..min(self.row, i + 2) {
-                    for n in max(1, j) - 1..min(self.column, j + 2) {
-                        if (i != m || j != n) && (!game_board_mark[m][n]) {
-                            poses.push((m, n));
-                        }
+        game_board_mark[x][y] = true;
+        while let Some((i, j)) = poses.pop() {
+            if self.game_board[i][j] != 0 {
+                is_completed = false;
+            }
+            for m in max(1, i) - 1..min(self.row, i + 2) {
+                for n in max(1, j) - 1..min(self.column, j + 2) {
+                    if self.board[m][n] == 0 && !game_board_mark[m][n] {
+                        game_board_mark[m][n] = true;
+                        poses.push((m, n));
                     }
                 }
-            } else {
             }
         }
-        true
+        is_completed
     }
     /// 返回的值的含义是：0：没有任何作用的操作，例如左键数字、踩雷。  
     /// 1：推进了局面，但没有改变ai对局面的判断，特指标雷。  
-- 
2.43.0


From abff6b10f067360e89a3f503f5d06e773f4d235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:09 +0000
Subject: [PATCH 17/61] fix: a pre-game mark on a marked or outside cell
 panicked instead of being refused

---
 base/src/videos/minesweeper_board.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index d954f93..76d9099 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -421,10 +421,13 @@ impl<T> MinesweeperBoard<T> {
                     return Ok(0);
                 }
                 "pf" => {
-                    assert!(
-                        self.game_board[pos.0][pos.1] == 10,
-                        "按定义，pf不能在标雷上执行。请报告这个奇怪的录像。"
-                    );
+                    // 按定义，pf不能在标雷上执行
+                    if pos.0 >= self.row
+                        || pos.1 >= self.column
+                        || self.game_board[pos.0][pos.1] != 10
+                    {
+                        return Err(());
+                    }
                     self.pre_flag_num += 1;
                     self.game_board_state = GameBoardState::PreFlaging;
                     return self.right_click(pos.0, pos.1);
@@ -513,10 +516,13 @@ impl<T> MinesweeperBoard<T> {
                     _ => return Err(()),
                 },
                 "pf" => {
-                    assert!(
-                        self.game_board[pos.0][pos.1] == 10,
-                        "按定义，pf不能在标雷上执行。请报告这个奇怪的录像。"
-                    );
+                    // 按定义，pf不能在标雷上执行
+                    if pos.0 >= self.row
+                        || pos.1 >= self.column
+                        || self.game_board[pos.0][pos.1] != 10
+                    {
+                        return Err(());
+                    }
                     self.pre_flag_num += 1;
                     return self.right_click(pos.0, pos.1);
                 }
-- 
2.43.0


From e1452266eb91de9c857d8f3eba28069d4e35d9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 18/61] fix: MinesweeperBoard::step panicked on positions
 outside the board

---
 base/src/videos/minesweeper_board.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index 76d9099..fc3a606 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -400,6 +400,12 @@ impl<T> MinesweeperBoard<T> {
         //         _ => {}
         //     }
         // }
+        // 局面外的位置统一用(row, column)表示
+        let pos = if pos.0 < self.row && pos.1 < self.column {
+            pos
+        } else {
+            (self.row, self.column)
+        };
         match self.game_board_state {
             GameBoardState::Ready => match e {
                 "mv" => {
@@ -726,6 +732,10 @@ impl<T> MinesweeperBoard<T> {
                 }
                 // 以下情况其实是不可能的
                 MouseState::UpUp => {
+                    if pos.0 == self.row && pos.1 == self.column {
+                        self.mouse_state = MouseState::UpDown;
+                        return Ok(0);
+                    }
                     if self.game_board[pos.0][pos.1] < 10 {
                         self.mouse_state = MouseState::UpDownNotFlag;
                     } else {
@@ -743,11 +753,14 @@ impl<T> MinesweeperBoard<T> {
             }
             "mr" => {
                 self.middle_hold = false;
+                if pos.0 == self.row && pos.1 == self.column {
+                    return Ok(0);
+                }
                 return self.chording_click(pos.0, pos.1);
             }
             "m" => {
                 self.middle_hold = !self.middle_hold;
-                if !self.middle_hold {
+                if !self.middle_hold && pos.0 < self.row {
                     return self.chording_click(pos.0, pos.1);
                 }
             }
-- 
2.43.0


From 970a3598d5c05a17d698c457cdd6249bb356f962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 19/61] fix: MinesweeperBoard::reset kept the pre-game mark
 count and the middle button

---
 base/src/videos/minesweeper_board.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index fc3a606..de9e6e9 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -142,6 +142,8 @@ impl MinesweeperBoard<Vec<Vec<i32>>> {
         self.game_board_state = GameBoardState::Ready;
         self.pointer_x = 0;
         self.pointer_y = 0;
+        self.pre_flag_num = 0;
+        self.middle_hold = false;
     }
 }
 
-- 
2.43.0


From f16a1b937d240bb814ab4bd62d54cbfcc768eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 20/61] fix: a game decided by its first click had no start
 time and a wrong result time

---
 base/src/videos/base_video.rs | 40 +++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 766973c..616a4c5 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -800,6 +800,27 @@ impl<T> BaseVideo<T> {
 
         let a = self.minesweeper_board.step(e, (x, y))?;
         self.game_board_state = self.minesweeper_board.game_board_state;
+        // 游戏从这一步开始计时，包括一步就赢、一步就输
+        if old_state != GameBoardState::Playing
+            && (self.game_board_state == GameBoardState::Playing
+                || self.game_board_state == GameBoardState::Win
+                || self.game_board_state == GameBoardState::Loss)
+        {
+            if old_state == GameBoardState::Ready {
+                self.video_start_instant = step_instant;
+                time_ms = time_ms_between(step_instant, self.video_start_instant);
+                time = time_ms as f64 / 1000.0;
+            }
+            self.game_start_ms = time_ms;
+            // 高精度的时间戳，单位为微秒
+            // https://doc.rust-lang.org/std/time/struct.Instant.html
+            self.start_time = SystemTime::now()
+                .duration_since(UNIX_EPOCH)
+                .unwrap()
+                .as_micros()
+                .to_string()
+                .into_bytes();
+        }
         match self.game_board_state {
             GameBoardState::Ready => {
                 self.game_board_stream.clear();
@@ -813,24 +834,7 @@ impl<T> BaseVideo<T> {
                     time = time_ms as f64 / 1000.0;
                 }
             }
-            GameBoardState::Playing => {
-                if old_state != GameBoardState::Playing {
-                    if old_state == GameBoardState::Ready {
-                        self.video_start_instant = step_instant;
-                        time_ms = time_ms_between(step_instant, self.video_start_instant);
-                        time = time_ms as f64 / 1000.0;
-                    }
-                    self.game_start_ms = time_ms;
-                    // 高精度的时间戳，单位为微秒
-                    // https://doc.rust-lang.org/std/time/struct.Instant.html
-                    self.start_time = SystemTime::now()
-                        .duration_since(UNIX_EPOCH)
-                        .unwrap()
-                        .as_micros()
-                        .to_string()
-                        .into_bytes();
-                }
-            }
+            GameBoardState::Playing => {}
             // 不可能
             GameBoardState::Display => {}
             GameBoardState::Loss => {
-- 
2.43.0


From 5615752f35516363c600a0d503737cd24921aeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 21/61] fix: the replayed boards never showed the cell a losing
 click hits

---
 base/src/videos/base_video.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 616a4c5..4d69d19 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -474,15 +474,18 @@ impl BaseVideo<Vec<Vec<i32>>> {
                     .unwrap();
                 // println!("{:?}, {:?}", svi.mouse, b.game_board);
                 svi.useful_level = u_level;
-                if u_level >= 1 {
+                // 踩雷、收回最后一个开局前标的雷，没有推进局面，但显示的局面变了
+                if u_level >= 1
+                    || self.game_board_stream.last().unwrap().game_board != b.game_board
+                {
                     let mut g_b = GameBoard::new(self.mine_num);
                     g_b.set_game_board(&b.game_board);
                     self.game_board_stream.push(g_b);
-                    if old_state != GameBoardState::Playing {
-                        self.delta_time = svi.time;
-                    }
                     // println!("{:?}, {:?}", self.game_board_stream.len(), svi.mouse);
                 }
+                if u_level >= 1 && old_state != GameBoardState::Playing {
+                    self.delta_time = svi.time;
+                }
             }
             svi.next_game_board_id = self.game_board_stream.len() - 1;
             svi.mouse_state = b.mouse_state.clone();
@@ -910,7 +913,11 @@ impl<T> BaseVideo<T> {
         // self.current_time = time;
         let prior_game_board_id;
         let next_game_board_id;
-        if a >= 1 {
+        // 踩雷、收回最后一个开局前标的雷，没有推进局面，但显示的局面变了
+        if a >= 1
+            || self.game_board_stream.last().unwrap().game_board
+                != self.minesweeper_board.game_board
+        {
             let mut g_b = GameBoard::new(self.mine_num);
             g_b.set_game_board(&self.minesweeper_board.game_board);
             self.game_board_stream.push(g_b);
-- 
2.43.0


From bce2680cd4d911513a03a88703c5e394cec47943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 22/61] fix: replays whose first click hits a mine had no start
 time

---
 base/src/videos/base_video.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 4d69d19..f2ced72 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -483,7 +483,13 @@ impl BaseVideo<Vec<Vec<i32>>> {
                     self.game_board_stream.push(g_b);
                     // println!("{:?}, {:?}", self.game_board_stream.len(), svi.mouse);
                 }
-                if u_level >= 1 && old_state != GameBoardState::Playing {
+                if old_state != GameBoardState::Playing
+                    && old_state != GameBoardState::Win
+                    && old_state != GameBoardState::Loss
+                    && (b.game_board_state == GameBoardState::Playing
+                        || b.game_board_state == GameBoardState::Win
+                        || b.game_board_state == GameBoardState::Loss)
+                {
                     self.delta_time = svi.time;
                 }
             }
-- 
2.43.0


From b17e16dd79778d2a5beb70dc8811e65467f175c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:00 +0000
Subject: [PATCH 23/61] fix: the mouse path counted movement before the game
 and outside the board differently live and in replays

---
 base/src/videos/base_video.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index f2ced72..bbe9c9b 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -460,8 +460,8 @@ impl BaseVideo<Vec<Vec<i32>>> {
             // 控制svi的生命周期
             let svi = &mut self.video_action_state_recorder[ide];
             svi.prior_game_board_id = self.game_board_stream.len() - 1;
+            let old_state = b.game_board_state;
             if svi.mouse != "mv" {
-                let old_state = b.game_board_state;
                 // println!("{:?}, {:?}", svi.mouse, svi.y);
                 let u_level = b
                     .step(
@@ -505,13 +505,13 @@ impl BaseVideo<Vec<Vec<i32>>> {
             svi.key_dynamic_params.op_solved = 0;
             svi.key_dynamic_params.isl_solved = 0;
             let svi = &self.video_action_state_recorder[ide];
-            // 第一下操作不可能是在局面外的
-            if b.game_board_state == GameBoardState::Playing
-                || b.game_board_state == GameBoardState::Win
-                || b.game_board_state == GameBoardState::Loss
+            // 第一下操作不可能是在局面外的。和游戏时一致，路径从第一下操作开始算，界外的部分不算
+            if old_state == GameBoardState::Playing
+                || old_state == GameBoardState::Win
+                || old_state == GameBoardState::Loss
             {
                 if svi.y >= self.height as u16 * self.cell_pixel_size as u16
-                    && svi.x >= self.width as u16 * self.cell_pixel_size as u16
+                    || svi.x >= self.width as u16 * self.cell_pixel_size as u16
                 {
                     self.video_action_state_recorder[ide].path =
                         self.video_action_state_recorder[ide - 1].path;
@@ -526,7 +526,7 @@ impl BaseVideo<Vec<Vec<i32>>> {
                         svi_1_x = svis.x;
                         svi_1_path = svis.path;
                         if svi_1_y >= self.height as u16 * self.cell_pixel_size as u16
-                            && svi_1_x >= self.width as u16 * self.cell_pixel_size as u16
+                            || svi_1_x >= self.width as u16 * self.cell_pixel_size as u16
                         {
                             skip += 1;
                             continue;
@@ -883,7 +883,13 @@ impl<T> BaseVideo<T> {
         }
         // 维护path，挺复杂的
         let mut path = 0.0;
-        if old_state == GameBoardState::Playing {
+        if old_state == GameBoardState::Playing
+            && (pos.0 >= self.height * self.cell_pixel_size as usize
+                || pos.1 >= self.width * self.cell_pixel_size as usize)
+        {
+            // 界外的操作不增加路径
+            path = self.video_action_state_recorder.last().unwrap().path;
+        } else if old_state == GameBoardState::Playing {
             let mut outside_skip = self.video_action_state_recorder.len() - 1;
             loop {
                 let p = &self.video_action_state_recorder[outside_skip];
-- 
2.43.0


From dd3a18bfe595281ce3069820e3ef95f5e0c3dbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 24/61] fix: set_checksum panicked before generating and did
 not remember a second check sum

---
 base/src/videos/base_video.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index bbe9c9b..421f3a4 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1385,20 +1385,19 @@ impl<T> BaseVideo<T> {
         {
             return Err(());
         };
-        if !self.has_checksum {
-            *self.raw_data.last_mut().unwrap() = 0;
-            self.raw_data
-                .append(&mut checksum.clone().to_vec().to_owned());
-            self.checksum = checksum;
-            self.has_checksum = true;
-            return Ok(0);
-        } else {
-            let ptr = self.raw_data.len() - 32;
-            for i in 0..32 {
-                self.raw_data[ptr + i] = checksum[i];
+        if !self.raw_data.is_empty() {
+            // 已经生成过二进制数据
+            if !self.has_checksum {
+                *self.raw_data.last_mut().unwrap() = 0;
+                self.raw_data.extend_from_slice(&checksum);
+            } else {
+                let ptr = self.raw_data.len() - 32;
+                self.raw_data[ptr..].copy_from_slice(&checksum);
             }
-            return Ok(0);
         }
+        self.checksum = checksum;
+        self.has_checksum = true;
+        Ok(0)
     }
     pub fn get_raw_data(&self) -> Result<Vec<u8>, ()> {
         if self.game_board_state != GameBoardState::Win
-- 
2.43.0


From 01c69319258b59dd0b6c80e5ffa537631d8e6d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 25/61] fix: reset kept the check sum of the previous game

---
 base/src/videos/base_video.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 421f3a4..7c955a6 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -441,6 +441,8 @@ impl BaseVideo<Vec<Vec<i32>>> {
         self.static_params = StaticParams::default();
         self.game_dynamic_params = GameDynamicParams::default();
         self.video_dynamic_params = VideoDynamicParams::default();
+        self.checksum = [0; 32];
+        self.has_checksum = false;
         self.game_board_state = GameBoardState::Ready;
     }
     /// 进行局面的推衍，计算基本的局面参数，记录所有中间过程。不包含概率计算。
@@ -653,6 +655,8 @@ impl BaseVideo<SafeBoard> {
         self.static_params = StaticParams::default();
         self.game_dynamic_params = GameDynamicParams::default();
         self.video_dynamic_params = VideoDynamicParams::default();
+        self.checksum = [0; 32];
+        self.has_checksum = false;
         self.game_board_state = GameBoardState::Ready;
     }
     /// 两种情况调用：游戏开始前、可猜模式（尺寸相等，雷数不检查）
-- 
2.43.0


From 3427055be28f42ab272c4f9783b26c733d31c8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:44 +0000
Subject: [PATCH 26/61] fix: RMV pre-game marks had rows and columns swapped

---
 base/src/videos/rmv_video.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index 4de14b6..a21bf2c 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -169,8 +169,8 @@ impl RmvVideo {
                     .video_action_state_recorder
                     .push(VideoActionStateRecorder {
                         mouse: "pf".to_string(),
-                        x: d * 16,
-                        y: c * 16,
+                        x: c * 16,
+                        y: d * 16,
                         ..VideoActionStateRecorder::default()
                     });
             }
-- 
2.43.0


From 432e3f7878450fb90484c660b3d41cca9e267bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 27/61] fix: analysing a replay with an event the game refuses
 panicked

---
 base/src/videos/base_video.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 7c955a6..8e76ef0 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -473,7 +473,7 @@ impl BaseVideo<Vec<Vec<i32>>> {
                             (svi.x / self.cell_pixel_size as u16) as usize,
                         ),
                     )
-                    .unwrap();
+                    .unwrap_or(0); // 不合法的操作没有任何作用
                 // println!("{:?}, {:?}", svi.mouse, b.game_board);
                 svi.useful_level = u_level;
                 // 踩雷、收回最后一个开局前标的雷，没有推进局面，但显示的局面变了
-- 
2.43.0


From c021a47c16288fac7223327304a53885690dc9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 28/61] fix: MVF decoding added a movement after the first
 event

---
 base/src/videos/mvf_video.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index c37a8a9..a27de99 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -216,8 +216,8 @@ impl MvfVideo {
         // println!("rb: {:?}, mb: {:?}, lb: {:?}", rb, mb, lb);
         let mut x = 0u16;
         let mut y = 0u16;
-        let mut prev_x = 0u16;
-        let mut prev_y = 0u16;
+        let mut prev_x;
+        let mut prev_y;
         let mut ths = 0;
         let mut sec = 0;
         let mouse;
@@ -252,6 +252,8 @@ impl MvfVideo {
                 y,
                 ..VideoActionStateRecorder::default()
             });
+        prev_x = x;
+        prev_y = y;
         for _ in 0..event_size - 1 {
             for ii in 0..5 {
                 e[ii] = self.data.get_u8()?;
-- 
2.43.0


From 9593dded2573ce2eca625916595de176357902a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 29/61] fix: MVF files of other versions, or no MVF files at
 all, were reported as read

---
 base/src/videos/mvf_video.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index a27de99..e1ec331 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -301,10 +301,10 @@ impl MvfVideo {
         }
 
         // return 1;
+        self.data.can_analyse = true;
         Ok(())
     }
     pub fn parse_video(&mut self) -> Result<(), ErrReadVideoReason> {
-        self.data.can_analyse = true;
         // self.data.is_completed; // 该格式解析前不能确定是否扫完
         self.data.is_offical = true;
         self.data.is_fair = true;
@@ -320,10 +320,11 @@ impl MvfVideo {
                 self.data.software = "0.97 beta".as_bytes().to_vec();
                 return self.read_097();
             } else {
-                Ok(())
+                // 只支持Clone 0.97
+                Err(ErrReadVideoReason::InvalidParams)
             }
         } else {
-            Ok(())
+            Err(ErrReadVideoReason::InvalidParams)
         }
     }
 }
-- 
2.43.0


From a1914fc2ad145ee36a7dc7bc1ea36ac42748ef9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 30/61] fix: replays with zero rows or columns were accepted
 and made the analysis panic

---
 base/src/videos/evf_video.rs | 3 +++
 base/src/videos/mvf_video.rs | 3 +++
 base/src/videos/rmv_video.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/base/src/videos/evf_video.rs b/base/src/videos/evf_video.rs
index 1ffba40..a3f5e8f 100644
--- a/base/src/videos/evf_video.rs
+++ b/base/src/videos/evf_video.rs
@@ -49,6 +49,9 @@ impl EvfVideo {
         self.data.is_fair = the_byte & 0b0010_0000 != 0;
         self.data.height = self.data.get_u8()? as usize;
         self.data.width = self.data.get_u8()? as usize;
+        if self.data.width == 0 || self.data.height == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.mine_num = self.data.get_u16()? as usize;
         if self.data.height == 8 && self.data.width == 8 && self.data.mine_num == 10 {
             self.data.level = 3;
diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index e1ec331..83ce3e9 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -44,6 +44,9 @@ impl MvfVideo {
         // int board_sz,i,pos;
         self.data.width = self.data.get_u8()?.into();
         self.data.height = self.data.get_u8()?.into();
+        if self.data.width == 0 || self.data.height == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.board = vec![vec![0; self.data.width]; self.data.height];
 
         self.data.mine_num = self.data.get_u16()?.into();
diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index a21bf2c..78e7da0 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -145,6 +145,9 @@ impl RmvVideo {
 
         self.data.width = self.data.get_u8()?.into();
         self.data.height = self.data.get_u8()?.into();
+        if self.data.width == 0 || self.data.height == 0 {
+            return Err(ErrReadVideoReason::InvalidBoardSize);
+        }
         self.data.mine_num = self.data.get_u16()?.into();
 
         self.data.board = vec![vec![0; self.data.width]; self.data.height];
-- 
2.43.0


From 43af975ac9d4f8743907cf33d91e5d0724d7664c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 31/61] fix: AVF and MVF mines outside the board made the
 parser panic

---
 base/src/videos/avf_video.rs | 3 +++
 base/src/videos/mvf_video.rs | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/avf_video.rs b/base/src/videos/avf_video.rs
index 3c58127..3bcd43c 100644
--- a/base/src/videos/avf_video.rs
+++ b/base/src/videos/avf_video.rs
@@ -106,6 +106,9 @@ impl AvfVideo {
         for _ in 0..self.data.mine_num {
             let c = self.data.get_u8()? as usize;
             let d = self.data.get_u8()? as usize;
+            if c == 0 || d == 0 || c > self.data.height || d > self.data.width {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
             self.data.board[c - 1][d - 1] = -1;
         }
 
diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index 83ce3e9..ad3e59a 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -53,7 +53,9 @@ impl MvfVideo {
         for _ in 0..self.data.mine_num {
             let w = (self.data.get_u8()? as i32 + add) as usize;
             let h = (self.data.get_u8()? as i32 + add) as usize;
-            // 要检查
+            if h >= self.data.height || w >= self.data.width {
+                return Err(ErrReadVideoReason::InvalidMinePosition);
+            }
             self.data.board[h][w] = -1;
         }
         cal_board_numbers(&mut self.data.board);
-- 
2.43.0


From d1de3d65abc2be809df058bacef86154f79e1cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 32/61] fix: an EVF replay with cell size 0 made the analysis
 divide by zero

---
 base/src/videos/evf_video.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/videos/evf_video.rs b/base/src/videos/evf_video.rs
index a3f5e8f..8643213 100644
--- a/base/src/videos/evf_video.rs
+++ b/base/src/videos/evf_video.rs
@@ -64,6 +64,9 @@ impl EvfVideo {
         }
         // println!("{:?}", self.data.mine_num);
         self.data.cell_pixel_size = self.data.get_u8()?;
+        if self.data.cell_pixel_size == 0 {
+            return Err(ErrReadVideoReason::InvalidParams);
+        }
         self.data.mode = self.data.get_u16()?;
         self.data.static_params.bbbv = self.data.get_u16()? as usize;
         let t = self.data.get_u24()?;
-- 
2.43.0


From 5bf0bfca644813bb9cfb428ee9c7f964618fa4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 33/61] fix: EVF and RMV replays without events made the parser
 or the playback panic

---
 base/src/videos/evf_video.rs | 3 +++
 base/src/videos/rmv_video.rs | 8 +++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/base/src/videos/evf_video.rs b/base/src/videos/evf_video.rs
index 8643213..e53c5e6 100644
--- a/base/src/videos/evf_video.rs
+++ b/base/src/videos/evf_video.rs
@@ -200,6 +200,9 @@ impl EvfVideo {
                     ..VideoActionStateRecorder::default()
                 });
         }
+        if self.data.video_action_state_recorder.is_empty() {
+            return Err(ErrReadVideoReason::InvalidVideoEvent);
+        }
         let mut csum = [0; 32];
         if have_checksum {
             for i in 0..32 {
diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index 78e7da0..ab07c15 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -246,9 +246,11 @@ impl RmvVideo {
                 return Err(ErrReadVideoReason::InvalidParams);
             }
         }
-        self.data
-            .set_rtime(self.data.video_action_state_recorder.last().unwrap().time)
-            .unwrap();
+        let rtime = match self.data.video_action_state_recorder.last() {
+            Some(e) => e.time,
+            None => return Err(ErrReadVideoReason::InvalidVideoEvent),
+        };
+        self.data.set_rtime(rtime).unwrap();
         self.data.software = "Viennasweeper".as_bytes().to_vec();
         self.data.can_analyse = true;
         return Ok(());
-- 
2.43.0


From 85046168aa0a9e7060ea0e86aa56cd68b2fe1a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 34/61] fix: MVF level and event count overflowed

---
 base/src/videos/mvf_video.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/mvf_video.rs b/base/src/videos/mvf_video.rs
index ad3e59a..4013361 100644
--- a/base/src/videos/mvf_video.rs
+++ b/base/src/videos/mvf_video.rs
@@ -121,7 +121,10 @@ impl MvfVideo {
         let _second = self.data.get_u8()?;
 
         // //Next 2 bytes are Level and Mode
-        self.data.level = self.data.get_u8()? + 2;
+        self.data.level = match self.data.get_u8()?.checked_add(2) {
+            Some(v) => v,
+            None => return Err(ErrReadVideoReason::InvalidLevel),
+        };
         let mode = self.data.get_u8()?;
         if mode == 1 {
             self.data.mode = 0;
@@ -209,6 +212,9 @@ impl MvfVideo {
         // println!("s: {:?}, byte: {:?}, bit: {:?}", s, byte, bit);
 
         let event_size = self.data.get_u24()?;
+        if event_size == 0 {
+            return Err(ErrReadVideoReason::InvalidVideoEvent);
+        }
         let mut prev_rb;
         let mut prev_mb;
         let mut prev_lb;
-- 
2.43.0


From aeaa0f079fc6b8d339b57b9944d5e64a859026e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 35/61] fix: RMV level and section sizes overflowed

---
 base/src/videos/rmv_video.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/rmv_video.rs b/base/src/videos/rmv_video.rs
index ab07c15..70917ce 100644
--- a/base/src/videos/rmv_video.rs
+++ b/base/src/videos/rmv_video.rs
@@ -101,6 +101,9 @@ impl RmvVideo {
             // 2 beta和更早的版本里没有3bv和时间戳
         } else {
             self.data.static_params.bbbv = 0;
+            if result_string_size < 3 {
+                return Err(ErrReadVideoReason::InvalidParams);
+            }
             for _ in 0..result_string_size - 3 {
                 self.data.get_u8()?;
             }
@@ -186,8 +189,14 @@ impl RmvVideo {
             false
         };
         self.data.mode = self.data.get_u8()? as u16;
-        self.data.level = self.data.get_u8()? + 3;
+        self.data.level = match self.data.get_u8()?.checked_add(3) {
+            Some(v) => v,
+            None => return Err(ErrReadVideoReason::InvalidLevel),
+        };
 
+        if properties_size < 4 {
+            return Err(ErrReadVideoReason::InvalidParams);
+        }
         self.data.offset += (properties_size - 4) as usize;
 
         // 是不是第一个操作。录像里省略了第一个左键按下。
-- 
2.43.0


From da7f3703bf3ccdcf1872fa06ed82d32d4dd72b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 36/61] fix: get_game_board_poss underflowed at the first event
 and swapped rows and columns

---
 base/src/videos/base_video.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 8e76ef0..6cf1b9b 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1145,24 +1145,18 @@ impl<T> BaseVideo<T> {
     }
     /// 获取当前录像时刻的局面概率
     pub fn get_game_board_poss(&mut self) -> Vec<Vec<f64>> {
-        let mut id = self.current_event_id;
-        loop {
-            if self.video_action_state_recorder[id].useful_level < 2 {
-                id -= 1;
-                if id <= 0 {
-                    let p = self.mine_num as f64 / (self.height * self.width) as f64;
-                    return vec![vec![p; self.height]; self.width];
-                }
-            } else {
-                // println!("{:?}, {:?}",self.current_event_id, self.video_action_state_recorder.len());
-                return self.game_board_stream[self.video_action_state_recorder
-                    [self.current_event_id]
-                    .next_game_board_id as usize]
-                    .get_poss()
-                    .to_vec();
-                // return self.events[id].prior_game_board.get_poss().clone();
-            }
+        let id = self.current_event_id;
+        if self.video_action_state_recorder[..=id]
+            .iter()
+            .all(|e| e.useful_level < 2)
+        {
+            // 还没有打开任何格子
+            let p = self.mine_num as f64 / (self.height * self.width) as f64;
+            return vec![vec![p; self.width]; self.height];
         }
+        self.game_board_stream[self.video_action_state_recorder[id].next_game_board_id as usize]
+            .get_poss()
+            .to_vec()
     }
     // 录像解析时，设置游戏时间，时间成绩。
     // 什么意思？
-- 
2.43.0


From b79fef5fde6178c161841374fc5a160b7ef0e3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 37/61] fix: seeking to the time of the current event went back
 one event

---
 base/src/videos/base_video.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 6cf1b9b..1a2a785 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1234,7 +1234,7 @@ impl<T> BaseVideo<T> {
             self.current_time = self.get_video_end_time().unwrap()
         }
         time += self.delta_time;
-        if time > self.video_action_state_recorder[self.current_event_id].time {
+        if time >= self.video_action_state_recorder[self.current_event_id].time {
             loop {
                 if self.current_event_id >= self.video_action_state_recorder.len() - 1 {
                     // 最后一帧
-- 
2.43.0


From bbe4e01f8652e24396a796506f4aa31c5a2f043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 38/61] fix: the FL commentary indexed marks outside the board

---
 base/src/videos/analyse_methods.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 04a12f0..fb39a5b 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -273,8 +273,8 @@ pub fn analyse_super_fl_local(video: &mut BaseVideo<Vec<Vec<i32>>>) {
         // }
 
         if video.video_action_state_recorder[ide].mouse == "rc"
-            && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
             && video.video_action_state_recorder[ide].useful_level == 1
+            && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
         {
             // 正确的标雷
             match state {
-- 
2.43.0


From 2ebc1a75f1a50877dcaf2a85f6c2a38ee795af37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 39/61] fix: get_x_y underflowed while every position so far is
 outside the board

---
 base/src/videos/base_video.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 1a2a785..062a251 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1746,15 +1746,20 @@ impl<T> BaseVideo<T> {
             if self.video_action_state_recorder[self.current_event_id - k].x
                 < self.cell_pixel_size as u16 * self.width as u16
             {
-                return Ok((
-                    (self.video_action_state_recorder[self.current_event_id - k].x as f64
-                        * self.video_playing_pix_size_k) as u16,
-                    (self.video_action_state_recorder[self.current_event_id - k].y as f64
-                        * self.video_playing_pix_size_k) as u16,
-                ));
+                break;
+            }
+            if k == self.current_event_id {
+                // 此前一直在界外
+                k = 0;
+                break;
             }
             k += 1;
         }
+        let e = &self.video_action_state_recorder[self.current_event_id - k];
+        Ok((
+            (e.x as f64 * self.video_playing_pix_size_k) as u16,
+            (e.y as f64 * self.video_playing_pix_size_k) as u16,
+        ))
     }
     // 返回录像文件里记录的方格尺寸。flop_new播放器里会用到。这是因为元扫雷和flop播放器的播放机制不同。
     pub fn get_pix_size(&self) -> Result<u8, ()> {
-- 
2.43.0


From d576a10a3a8ed5c514838f428d05624099c949f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 40/61] fix: a replay whose mine count disagrees with its board
 made the probabilities panic

---
 base/src/videos/base_video.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 062a251..52a1bd2 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -455,7 +455,14 @@ impl BaseVideo<Vec<Vec<i32>>> {
         );
         // self.minesweeper_board
         let mut b = MinesweeperBoard::<Vec<Vec<i32>>>::new(self.board.clone());
-        let mut first_game_board = GameBoard::new(self.mine_num);
+        // 概率按局面里实际的雷数算，损坏的录像里文件头的雷数可能与局面不符
+        let mine_num = self
+            .board
+            .iter()
+            .flatten()
+            .filter(|x| **x == -1)
+            .count();
+        let mut first_game_board = GameBoard::new(mine_num);
         first_game_board.set_game_board(&vec![vec![10; self.width]; self.height]);
         self.game_board_stream.push(first_game_board);
         for ide in 0..self.video_action_state_recorder.len() {
@@ -480,7 +487,7 @@ impl BaseVideo<Vec<Vec<i32>>> {
                 if u_level >= 1
                     || self.game_board_stream.last().unwrap().game_board != b.game_board
                 {
-                    let mut g_b = GameBoard::new(self.mine_num);
+                    let mut g_b = GameBoard::new(mine_num);
                     g_b.set_game_board(&b.game_board);
                     self.game_board_stream.push(g_b);
                     // println!("{:?}, {:?}", self.game_board_stream.len(), svi.mouse);
-- 
2.43.0


From 646eff33d493420ffea77203c5a5a936b3d978f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 41/61] fix: is_valid panicked on a Viennasweeper replay
 without a time stamp

---
 base/src/videos/base_video.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 52a1bd2..3373969 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1949,16 +1949,14 @@ impl<T> BaseVideo<T> {
         if self.software == "Arbiter".as_bytes().to_vec() {
             // 对于arbiter，开源界没有鉴定的能力，只能追溯
         } else if self.software == "Viennasweeper".as_bytes().to_vec() {
-            let start_time = ((self.start_time[0] - 48) as u64) * 1000000000
-                + ((self.start_time[1] - 48) as u64) * 100000000
-                + ((self.start_time[2] - 48) as u64) * 10000000
-                + ((self.start_time[3] - 48) as u64) * 1000000
-                + ((self.start_time[4] - 48) as u64) * 100000
-                + ((self.start_time[5] - 48) as u64) * 10000
-                + ((self.start_time[6] - 48) as u64) * 1000
-                + ((self.start_time[7] - 48) as u64) * 100
-                + ((self.start_time[8] - 48) as u64) * 10
-                + (self.start_time[9] - 48) as u64;
+            // 前10位是以秒为单位的时间戳
+            if self.start_time.len() < 10 || !self.start_time[..10].iter().all(u8::is_ascii_digit) {
+                // 很早的版本没有时间戳，报不确定
+                return 3;
+            }
+            let start_time = self.start_time[..10]
+                .iter()
+                .fold(0u64, |t, d| t * 10 + (d - 48) as u64);
             if start_time > 1682265600 {
                 // 2023-04-24 00:00:00后被禁
                 return 1;
-- 
2.43.0


From 7df2293c1b45b2e40eaa9323630e1627c641903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 42/61] fix: the FL commentary overflowed on distances of far
 positions

---
 base/src/videos/analyse_methods.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index fb39a5b..ac081cf 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -346,8 +346,8 @@ pub fn analyse_super_fl_local(video: &mut BaseVideo<Vec<Vec<i32>>>) {
                 }
             }
         }
-        if (x as i32 - x_1 as i32) * (x as i32 - x_1 as i32)
-            + (y as i32 - y_1 as i32) * (y as i32 - y_1 as i32)
+        if (x as i64 - x_1 as i64) * (x as i64 - x_1 as i64)
+            + (y as i64 - y_1 as i64) * (y as i64 - y_1 as i64)
             > euclidean_distance
         {
             match state {
-- 
2.43.0


From 1ada3b2fbda22582c6b4a3d7569090e4c8a77d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:14 +0000
Subject: [PATCH 43/61] fix: forced guesses were called needless

---
 base/src/videos/analyse_methods.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index ac081cf..905ecd3 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -83,13 +83,12 @@ pub fn analyse_needless_guess(video: &mut BaseVideo<Vec<Vec<i32>>>) {
             x = (video.video_action_state_recorder[ide].y / video.cell_pixel_size as u16) as usize;
             y = (video.video_action_state_recorder[ide].x / video.cell_pixel_size as u16) as usize;
 
-            if video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].get_poss()[x][y] > 0.0
-                && !video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
-                    .get_basic_not_mine()
-                    .contains(&(x, y))
-                && !video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
-                    .get_enum_not_mine()
-                    .contains(&(x, y))
+            // 确实有能判定的安全格子，才算"可以判雷"
+            let prior = &mut video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id];
+            if prior.get_poss()[x][y] > 0.0
+                && !prior.get_basic_not_mine().contains(&(x, y))
+                && !prior.get_enum_not_mine().contains(&(x, y))
+                && !(prior.get_basic_not_mine().is_empty() && prior.get_enum_not_mine().is_empty())
             {
                 video.video_action_state_recorder[ide].comments = format!(
                     "{}{}",
-- 
2.43.0


From f46247baf63cc7d77737e29058f2bbd5e46e37dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 44/61] fix: taking a mark back was called a difficult
 deduction

---
 base/src/videos/analyse_methods.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index 905ecd3..ce86f99 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -58,7 +58,9 @@ pub fn analyse_jump_judge(video: &mut BaseVideo<Vec<Vec<i32>>>) {
                 );
             }
         } else if video.video_action_state_recorder[ide].useful_level == 1 && video.video_action_state_recorder[ide].mouse == "rc" {
-            if !video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
+            // 取消标雷不算判雷
+            if video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id].game_board[x][y] == 10
+                && !video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
                 .get_basic_is_mine()
                 .contains(&(x, y))
                 && video.game_board_stream[video.video_action_state_recorder[ide].prior_game_board_id]
-- 
2.43.0


From b8e367c659a8480c96df04c89d0c6fbf04219911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 45/61] fix: survive_poss erased the other comments of the last
 event

---
 base/src/videos/analyse_methods.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/analyse_methods.rs b/base/src/videos/analyse_methods.rs
index ce86f99..09ffce4 100644
--- a/base/src/videos/analyse_methods.rs
+++ b/base/src/videos/analyse_methods.rs
@@ -241,7 +241,12 @@ pub fn analyse_survive_poss(video: &mut BaseVideo<Vec<Vec<i32>>>) {
     } else {
         message.push_str("1;");
     }
-    video.video_action_state_recorder.last_mut().unwrap().comments = message;
+    video
+        .video_action_state_recorder
+        .last_mut()
+        .unwrap()
+        .comments
+        .push_str(&message);
 }
 
 #[derive(Debug, PartialEq)]
-- 
2.43.0


From 639d5652e49ae792d8e47b02cce5a0d0dc195e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:27 +0000
Subject: [PATCH 46/61] fix: RQP, QG and effective clicks per second were
 always 0 after a live game

---
 base/src/videos/base_video.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 3373969..75c8966 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1634,19 +1634,27 @@ impl<T> BaseVideo<T> {
             )
         }
     }
+    // 播放录像时是当前时间，游戏结束后是时间成绩
+    fn shown_time(&self) -> f64 {
+        if self.game_board_state == GameBoardState::Display {
+            self.current_time
+        } else {
+            self.game_dynamic_params.rtime
+        }
+    }
     pub fn get_rqp(&self) -> Result<f64, ()> {
         let bbbv_solved = self.get_bbbv_solved()?;
         if bbbv_solved == 0 {
             return Ok(0.0);
         }
-        Ok(self.current_time.powf(2.0) / bbbv_solved as f64)
+        Ok(self.shown_time().powf(2.0) / bbbv_solved as f64)
     }
     pub fn get_qg(&self) -> Result<f64, ()> {
         let bbbv_solved = self.get_bbbv_solved()?;
         if bbbv_solved == 0 {
             return Ok(0.0);
         }
-        Ok(self.current_time.powf(1.7) / bbbv_solved as f64)
+        Ok(self.shown_time().powf(1.7) / bbbv_solved as f64)
     }
     pub fn get_ce(&self) -> Result<usize, ()> {
         match self.game_board_state {
@@ -1664,10 +1672,11 @@ impl<T> BaseVideo<T> {
     }
     pub fn get_ce_s(&self) -> Result<f64, ()> {
         let ce = self.get_ce()?;
-        if self.current_time < 0.00099 {
+        let t = self.shown_time();
+        if t < 0.00099 {
             return Ok(0.0);
         }
-        Ok(ce as f64 / self.current_time)
+        Ok(ce as f64 / t)
     }
     pub fn get_corr(&self) -> Result<f64, ()> {
         let ce = self.get_ce()?;
-- 
2.43.0


From 3c19eadbc157a2a1706339ad48259b65118d9e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 47/61] fix: reading the clock or the rates just after the
 start of a game underflowed

---
 base/src/videos/base_video.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 75c8966..e9b597a 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -1183,7 +1183,7 @@ impl<T> BaseVideo<T> {
             GameBoardState::Playing => {
                 let now = Instant::now();
                 // return now.duration_since(self.game_start_instant).as_millis() as f64 / 1000.0;
-                let time_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let time_ms = time_ms_between(now, self.video_start_instant);
                 return (time_ms - self.game_start_ms) as f64 / 1000.0;
             }
             GameBoardState::PreFlaging => {
@@ -1469,7 +1469,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_left() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1489,7 +1489,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_right() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1509,7 +1509,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_double() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1529,7 +1529,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_cl() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
@@ -1549,7 +1549,7 @@ impl<T> BaseVideo<T> {
             #[cfg(any(feature = "py", feature = "rs"))]
             GameBoardState::Playing => {
                 let now = Instant::now();
-                let t_ms = now.duration_since(self.video_start_instant).as_millis() as u32;
+                let t_ms = time_ms_between(now, self.video_start_instant);
                 self.get_flag() as f64 * 1000.0 / (t_ms - self.game_start_ms) as f64
             }
             #[cfg(any(feature = "js"))]
-- 
2.43.0


From 93d384a90f18b578a937fb6daa38e442da3dd990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 48/61] fix: two saves at once under one name overwrote each
 other

---
 base/src/videos/base_video.rs | 37 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index e9b597a..8e7cb5f 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -12,6 +12,8 @@ use crate::videos::analyse_methods::{
 };
 use std::fs;
 #[cfg(any(feature = "py", feature = "rs"))]
+use std::io::{ErrorKind, Write};
+#[cfg(any(feature = "py", feature = "rs"))]
 use std::time::{Instant, SystemTime, UNIX_EPOCH};
 #[cfg(feature = "js")]
 use web_sys::console;
@@ -1922,27 +1924,24 @@ impl<T> BaseVideo<T> {
     // }
     /// 存evf文件，自动加后缀，xxx.evf重复变成xxx(2).evf
     pub fn save_to_evf_file(&self, file_name: &str) {
-        let file_exist =
-            std::path::Path::new((file_name.to_string() + &(".evf".to_string())).as_str()).exists();
-        if !file_exist {
-            fs::write(
-                (file_name.to_string() + &(".evf".to_string())).as_str(),
-                &self.raw_data,
-            )
-            .unwrap();
-            return;
-        } else {
-            let mut id = 2;
-            let mut format_name;
-            loop {
-                format_name = file_name.to_string() + &(format!("({}).evf", id).to_string());
-                let new_file_name = format_name.as_str();
-                let file_exist = std::path::Path::new(new_file_name).exists();
-                if !file_exist {
-                    fs::write(new_file_name, &self.raw_data).unwrap();
+        let mut name = format!("{}.evf", file_name);
+        let mut id = 2;
+        loop {
+            // create_new保证不会覆盖已有的文件，包括别处同时正在保存的
+            match fs::OpenOptions::new()
+                .write(true)
+                .create_new(true)
+                .open(&name)
+            {
+                Ok(mut file) => {
+                    file.write_all(&self.raw_data).unwrap();
                     return;
                 }
-                id += 1;
+                Err(e) if e.kind() == ErrorKind::AlreadyExists => {
+                    name = format!("{}({}).evf", file_name, id);
+                    id += 1;
+                }
+                Err(e) => panic!("{:?}", e),
             }
         }
     }
-- 
2.43.0


From 1842818efce9aca3537dfb82413ed51b2745a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 49/61] fix: the 3BV sampler counted some openings more than
 once

---
 base/src/algorithms.rs |  4 +-
 base/src/utils.rs      | 91 ------------------------------------------
 2 files changed, 2 insertions(+), 93 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 95a5108..5bcfdc8 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -1,5 +1,5 @@
 use crate::utils::{
-    cal_bbbv_exp, cal_table_minenum_recursion, chunk_matrixes,
+    cal_bbbv, cal_table_minenum_recursion, chunk_matrixes,
     combine, find_a_border_cell, laymine, laymine_op, legalize_board,
     refresh_board, refresh_matrixs, refresh_matrixses, unsolvable_structure,
     BigNumber, C,
@@ -1130,7 +1130,7 @@ fn laymine_study_exp(x0: usize, y0: usize, n: usize) -> [usize; 382] {
                 }
             }
         }
-        bv_record[cal_bbbv_exp(&board)] += 1;
+        bv_record[cal_bbbv(&board)] += 1;
     }
     bv_record
 }
diff --git a/base/src/utils.rs b/base/src/utils.rs
index 6ed54fd..4b8b09e 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -1416,97 +1416,6 @@ pub fn unsolvable_structure(BoardCheck: &Vec<Vec<i32>>) -> bool {
     false
 }
 
-// 专用于高级局面的3BV快速计算
-pub fn cal_bbbv_exp(Board: &Vec<Vec<i32>>) -> usize {
-    let mut board = Board.clone();
-    let mut op_id = 0;
-    let mut op_list = [false; 200];
-    let mut bv = 0;
-    for x in 0..16 {
-        for y in 0..30 {
-            if board[x][y] > 0 {
-                board[x][y] = 1000000;
-                bv += 1;
-            } else if board[x][y] == 0 {
-                let mut min_op_id = 1000;
-                let mut flag_op = false; // 该空周围有无空的标志位
-                if x >= 1 {
-                    for j in max(1, y) - 1..min(30, y + 2) {
-                        if board[x - 1][j] > 999999 {
-                            board[x - 1][j] = 1;
-                            bv -= 1;
-                        } else if Board[x - 1][j] == 0 {
-                            if board[x - 1][j] < min_op_id {
-                                if flag_op {
-                                    op_list[min_op_id as usize] = false;
-                                } else {
-                                    flag_op = true;
-                                }
-                                min_op_id = board[x - 1][j];
-                            }
-                        }
-                    }
-                }
-                if y >= 1 {
-                    if board[x][y - 1] > 999999 {
-                        board[x][y - 1] = 1;
-                        bv -= 1;
-                    } else if Board[x][y - 1] == 0 {
-                        if board[x][y - 1] < min_op_id {
-                            if flag_op {
-                                op_list[min_op_id as usize] = false;
-                            } else {
-                                flag_op = true;
-                            }
-                            min_op_id = board[x][y - 1];
-                        }
-                    }
-                }
-                if !flag_op {
-                    op_id += 1;
-                    op_list[op_id as usize] = true;
-                }
-            }
-        }
-    }
-    for x in (0..16).rev() {
-        for y in (0..30).rev() {
-            if board[x][y] == 0 {
-                if x <= 14 {
-                    for j in max(1, y) - 1..min(30, y + 2) {
-                        if board[x + 1][j] > 999999 {
-                            board[x + 1][j] = 1;
-                            bv -= 1;
-                        } else if Board[x + 1][j] == 0 {
-                            if board[x + 1][j] < board[x][y] {
-                                op_list[board[x][y] as usize] = false;
-                                board[x][y] = board[x + 1][j];
-                            }
-                        }
-                    }
-                }
-                if y <= 28 {
-                    if board[x][y + 1] > 999999 {
-                        board[x][y + 1] = 1;
-                        bv -= 1;
-                    } else if Board[x][y + 1] == 0 {
-                        if board[x][y + 1] < board[x][y] {
-                            op_list[board[x][y] as usize] = false;
-                            board[x][y] = board[x][y + 1];
-                        }
-                    }
-                }
-            }
-        }
-    }
-    for i in 0..op_id + 1 {
-        if op_list[i] {
-            bv += 1;
-        }
-    }
-    bv
-}
-
 // 把局面合法化：只能合法化简单的情况，不能应付所有的情况！因为检查一个局面是否合法也是NP难的
 // 配合局面光学识别算法
 // 局面中标记的标准是10为待判的雷，1到8，没有11、12
-- 
2.43.0


From 22e8369e558091f8a8d5d769a16d35b50eddf152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:06 +0000
Subject: [PATCH 50/61] fix: a stored 9 was read back from the guarded board as
 10

---
 base/src/safe_board.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/safe_board.rs b/base/src/safe_board.rs
index 43d3a23..92ea637 100644
--- a/base/src/safe_board.rs
+++ b/base/src/safe_board.rs
@@ -20,7 +20,7 @@ fn encode(v: i32, rng: &mut rand::rngs::ThreadRng) -> (i32, i32, i32) {
     let a = rng.gen_range(-2_0000_0000i32..2_0000_0001);
     let b = rng.gen_range(-1_0000i32..1_0001);
     let code = [
-        7, 1, 3, 14, 16, 17, 9, 11, 12, 5, 6, 13, 19, 19, 18, 15, 4, 8, 2, 0,
+        7, 1, 3, 14, 16, 17, 9, 11, 12, 5, 6, 13, 10, 19, 18, 15, 4, 8, 2, 0,
     ][(v + 3) as usize];
     let c = code + rng.gen_range(-1000_0000i32..1000_0001) * 20 - a - b;
     (a, b, c)
-- 
2.43.0


From 27f9c7a5414d9ceb6aae924282621cc5df8a5fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 51/61] fix: the C interface did not build: it named a function
 the library no longer has

---
 c/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/lib.rs b/c/src/lib.rs
index 6008ace..a396595 100644
--- a/c/src/lib.rs
+++ b/c/src/lib.rs
@@ -1,5 +1,5 @@
 extern crate libc;
-use ms_toollib::cal3BV as rs_cal3BV;
+use ms_toollib::cal_bbbv as rs_cal3BV;
 use ms_toollib::cal_possibility_onboard as rs_cal_possibility_onboard;
 use ms_toollib::laymine as rs_laymine;
 use ms_toollib::MinesweeperBoard as RustMinesweeperBoard;
-- 
2.43.0


From 685676feafe7ba6577704c6ae315a48b5461d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 52/61] fix: boards returned by the C interface were freed with
 another layout than they were allocated with

---
 c/src/lib.rs | 73 ++++++++++++++++++++--------------------------------
 1 file changed, 28 insertions(+), 45 deletions(-)

diff --git a/c/src/lib.rs b/c/src/lib.rs
index a396595..4c7d0fd 100644
--- a/c/src/lib.rs
+++ b/c/src/lib.rs
@@ -108,20 +108,22 @@ fn struct_board_to_vec_board(board: Board) -> Vec<Vec<i32>> {
     b
 }
 
-fn vec_board_to_struct_board(mut b: Vec<Vec<i32>>) -> Board {
-    let mut board: Vec<Row> = vec![];
+// 转为恰好占满分配空间的指针，释放时按同样的长度还原
+fn vec_to_ptr<T>(v: Vec<T>) -> *mut T {
+    Box::into_raw(v.into_boxed_slice()) as *mut T
+}
+
+fn vec_board_to_struct_board(b: Vec<Vec<i32>>) -> Board {
     let n_row = b.len();
-    for i in 0..n_row {
-        board.push(Row {
-            cells: b[i].as_mut_ptr(),
-            n_column: b[0].len(),
-        });
-    }
-    let p = board.as_mut_ptr();
-    mem::forget(b);
-    mem::forget(board);
+    let rows = b
+        .into_iter()
+        .map(|x| Row {
+            n_column: x.len(),
+            cells: vec_to_ptr(x),
+        })
+        .collect();
     Board {
-        rows: p,
+        rows: vec_to_ptr(rows),
         n_row: n_row,
     }
 }
@@ -178,21 +180,17 @@ pub extern "C" fn cal_possibility_onboard(board_of_game: Board, mine_num: f64) -
             b[i].push(array[j]);
         }
     }
-    let (mut b, c) = rs_cal_possibility_onboard(&b, mine_num).unwrap();
-
-    let mut board: Vec<RowPoss> = vec![];
-    for i in 0..b.len() {
-        board.push(RowPoss {
-            cells_poss: b[i].as_mut_ptr(),
-            n_column: b[0].len(),
-        });
-    }
-    let p = board.as_mut_ptr();
+    let (b, c) = rs_cal_possibility_onboard(&b, mine_num).unwrap();
 
-    mem::forget(b);
-    mem::forget(board);
+    let rows_poss = b
+        .into_iter()
+        .map(|x| RowPoss {
+            n_column: x.len(),
+            cells_poss: vec_to_ptr(x),
+        })
+        .collect();
     let t = BoardPoss {
-        rows_poss: p,
+        rows_poss: vec_to_ptr(rows_poss),
         n_row: board_of_game.n_row,
     };
     BoardPossReturn {
@@ -207,13 +205,9 @@ pub extern "C" fn cal_possibility_onboard(board_of_game: Board, mine_num: f64) -
 pub extern "C" fn free_board(board: Board) {
     // 由rust分配的局面内存，也应该由rust释放
     unsafe {
-        for i in 0..board.n_row {
-            let layout =
-                Layout::from_size_align_unchecked((*(board.rows)).n_column, mem::size_of::<i32>());
-            dealloc((*(board.rows).offset(i as isize)).cells as *mut u8, layout);
+        for row in Vec::from_raw_parts(board.rows, board.n_row, board.n_row) {
+            drop(Vec::from_raw_parts(row.cells, row.n_column, row.n_column));
         }
-        let layout = Layout::from_size_align_unchecked(board.n_row as usize, mem::size_of::<Row>());
-        dealloc(board.rows as *mut u8, layout);
     }
 }
 
@@ -221,21 +215,10 @@ pub extern "C" fn free_board(board: Board) {
 pub extern "C" fn free_board_poss(board_poss: BoardPossReturn) {
     // 由rust分配的局面内存，也应该由rust释放
     unsafe {
-        for i in 0..board_poss.board_poss.n_row {
-            let layout = Layout::from_size_align_unchecked(
-                (*(board_poss.board_poss.rows_poss)).n_column,
-                mem::size_of::<f64>(),
-            );
-            dealloc(
-                (*(board_poss.board_poss.rows_poss).offset(i as isize)).cells_poss as *mut u8,
-                layout,
-            );
+        let b = board_poss.board_poss;
+        for row in Vec::from_raw_parts(b.rows_poss, b.n_row, b.n_row) {
+            drop(Vec::from_raw_parts(row.cells_poss, row.n_column, row.n_column));
         }
-        let layout = Layout::from_size_align_unchecked(
-            board_poss.board_poss.n_row,
-            mem::size_of::<RowPoss>(),
-        );
-        dealloc(board_poss.board_poss.rows_poss as *mut u8, layout);
     }
 }
 
-- 
2.43.0


From 23ba4a72eb7f1e027399e0afb6cbc5e2978e88b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 53/61] fix: seeking by event through the Python and
 WebAssembly replay classes left the time, and every value that depends on it,
 where it was

---
 python_package/src/avf_video.rs | 2 +-
 python_package/src/evf_video.rs | 2 +-
 python_package/src/mvf_video.rs | 2 +-
 python_package/src/rmv_video.rs | 2 +-
 wasm/src/board.rs               | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/python_package/src/avf_video.rs b/python_package/src/avf_video.rs
index c42942f..f11ae73 100644
--- a/python_package/src/avf_video.rs
+++ b/python_package/src/avf_video.rs
@@ -305,7 +305,7 @@ impl PyAvfVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        self.core.data.set_current_event_id(id).unwrap();
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/python_package/src/evf_video.rs b/python_package/src/evf_video.rs
index 9fc15a2..2bb4d28 100644
--- a/python_package/src/evf_video.rs
+++ b/python_package/src/evf_video.rs
@@ -305,7 +305,7 @@ impl PyEvfVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        self.core.data.set_current_event_id(id).unwrap();
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/python_package/src/mvf_video.rs b/python_package/src/mvf_video.rs
index 1492c1f..c8b8a52 100644
--- a/python_package/src/mvf_video.rs
+++ b/python_package/src/mvf_video.rs
@@ -305,7 +305,7 @@ impl PyMvfVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        self.core.data.set_current_event_id(id).unwrap();
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/python_package/src/rmv_video.rs b/python_package/src/rmv_video.rs
index 6051c7b..4231e14 100644
--- a/python_package/src/rmv_video.rs
+++ b/python_package/src/rmv_video.rs
@@ -305,7 +305,7 @@ impl PyRmvVideo {
     }
     #[setter]
     pub fn set_current_event_id(&mut self, id: usize) {
-        self.core.data.current_event_id = id
+        self.core.data.set_current_event_id(id).unwrap();
     }
     #[getter]
     pub fn get_game_board(&self) -> PyResult<Vec<Vec<i32>>> {
diff --git a/wasm/src/board.rs b/wasm/src/board.rs
index a4aed12..f4b6bf8 100644
--- a/wasm/src/board.rs
+++ b/wasm/src/board.rs
@@ -404,7 +404,7 @@ macro_rules! generate_video {
                 }
                 #[wasm_bindgen(setter)]
                 pub fn set_current_event_id(&mut self, id: usize) {
-                    self.core.data.current_event_id = id
+                    self.core.data.set_current_event_id(id).unwrap();
                 }
                 #[wasm_bindgen(getter)]
                 pub fn get_game_board(&self) -> String {
-- 
2.43.0


From bf5fa72307588359f44f6ac5b479f31f8e10f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 54/61] fix: large openings overflowed the stack when 3BV or
 openings were counted

---
 base/src/utils.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 4b8b09e..1ff3016 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -47,10 +47,15 @@ fn infect_board(board: &mut Vec<Vec<i32>>, x: usize, y: usize) {
     let row = board.len();
     let column = board[0].len();
     board[x][y] = 1;
-    for i in max(1, x) - 1..min(row, x + 2) {
-        for j in max(1, y) - 1..min(column, y + 2) {
-            if board[i][j] == 0 {
-                infect_board(board, i, j);
+    // 不用递归，否则空很大时会爆栈
+    let mut stack = vec![(x, y)];
+    while let Some((x, y)) = stack.pop() {
+        for i in max(1, x) - 1..min(row, x + 2) {
+            for j in max(1, y) - 1..min(column, y + 2) {
+                if board[i][j] == 0 {
+                    board[i][j] = 1;
+                    stack.push((i, j));
+                }
             }
         }
     }
-- 
2.43.0


From f08c83d2a1ef2b46ed85a1629647851978e29c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:28 +0000
Subject: [PATCH 55/61] fix: A replay in the new format keeps its check sum
 when its data are generated again

---
 base/src/videos/base_video.rs | 2 +-
 base/src/videos/evf_video.rs  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 8e7cb5f..3c75fb6 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -329,7 +329,7 @@ pub struct BaseVideo<T> {
     // 允许设置最终成绩，解析录像文件时用
     allow_set_rtime: bool,
     // 是否有checksum
-    has_checksum: bool,
+    pub(crate) has_checksum: bool,
     // 播放录像文件时用，按几倍放大来播放，涉及回报的鼠标位置
     video_playing_pix_size_k: f64,
 }
diff --git a/base/src/videos/evf_video.rs b/base/src/videos/evf_video.rs
index e53c5e6..2702c4f 100644
--- a/base/src/videos/evf_video.rs
+++ b/base/src/videos/evf_video.rs
@@ -211,6 +211,7 @@ impl EvfVideo {
             }
         }
         self.data.checksum = csum;
+        self.data.has_checksum = have_checksum;
         self.data.can_analyse = true;
         return Ok(());
     }
-- 
2.43.0


From 70bb714eb2957c3a2f35e798f31e19c467df884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:20 +0000
Subject: [PATCH 56/61] fix: a board exchanged during play left the win check
 and the counters of the old board in place: the game could be won with safe
 cells still closed

---
 base/src/videos/base_video.rs        |  8 +++++++-
 base/src/videos/minesweeper_board.rs | 12 ++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index 3c75fb6..ce6f452 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -696,7 +696,13 @@ impl BaseVideo<SafeBoard> {
             self.level = 6;
         }
         self.board = SafeBoard::new(board);
-        self.minesweeper_board.board = self.board.clone();
+        let pix_size = self.cell_pixel_size as usize;
+        let ops = self
+            .video_action_state_recorder
+            .iter()
+            .map(|e| (e.mouse.as_str(), (e.y as usize / pix_size, e.x as usize / pix_size)))
+            .collect();
+        self.minesweeper_board.change_board(self.board.clone(), ops);
         Ok(0)
     }
 }
diff --git a/base/src/videos/minesweeper_board.rs b/base/src/videos/minesweeper_board.rs
index de9e6e9..2a5d6c9 100644
--- a/base/src/videos/minesweeper_board.rs
+++ b/base/src/videos/minesweeper_board.rs
@@ -162,6 +162,18 @@ impl MinesweeperBoard<SafeBoard> {
             ..MinesweeperBoard::<SafeBoard>::default()
         }
     }
+    /// 可猜模式中途换局面。ce、解决的3BV等按新局面重算，ops是已经发生过的操作
+    pub fn change_board(&mut self, board: SafeBoard, ops: Vec<(&str, (usize, usize))>) {
+        let mut b = MinesweeperBoard::<SafeBoard>::new(board.clone());
+        self.board = board;
+        self.pointer_x = 0;
+        self.pointer_y = 0;
+        if b.step_flow(ops).is_ok() && b.game_board == self.game_board {
+            self.ce = b.ce;
+            self.bbbv_solved = b.bbbv_solved;
+            self.flagedList = b.flagedList;
+        }
+    }
 }
 
 impl<T> MinesweeperBoard<T> {
-- 
2.43.0


From 289a52252458611245543907c65c4173c3dd195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:00 +0000
Subject: [PATCH 57/61] fix: the lines of a picture that had to be reduced were
 looked for in the picture before its reduction, so that boards with cells of
 80 pixels and more were never recognised

---
 base/src/OBR.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/src/OBR.rs b/base/src/OBR.rs
index e5da69b..a57211f 100644
--- a/base/src/OBR.rs
+++ b/base/src/OBR.rs
@@ -557,14 +557,14 @@ impl ImageBoard {
         let mut column = x[0][0].len() - 2;
         // LoG算子,Prewitt算子,Sobel算子
         let mut x_bw2 = self.get_gradient();
-        let x_bw3 = self.binarize_gradient(&x_bw2);
+        let mut x_bw3 = self.binarize_gradient(&x_bw2);
 
         let [mut r_1, mut r_2, mut c_1, mut c_2, mut r_p_1, mut r_p_2, mut c_p_1, mut c_p_2] =
             self.get_r12c12(&x_bw3);
         while r_2 - r_1 <= row / 3 || c_2 - c_1 <= column / 3 {
             self.narrow(3);
             x_bw2 = self.get_gradient();
-            let x_bw3 = self.binarize_gradient(&x_bw2);
+            x_bw3 = self.binarize_gradient(&x_bw2);
             let [r_1_, r_2_, c_1_, c_2_, r_p_1_, r_p_2_, c_p_1_, c_p_2_] = self.get_r12c12(&x_bw3);
             r_1 = r_1_;
             r_2 = r_2_;
-- 
2.43.0


From a749349eb4c8a172d4e7769b7041ffca8fb29df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:33 +0000
Subject: [PATCH 58/61] fix: a reset left the board of the last game in place:
 a game played without setting a board was saved with it, and saving panicked
 when the size had changed

---
 base/src/videos/base_video.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/src/videos/base_video.rs b/base/src/videos/base_video.rs
index ce6f452..b249ae1 100644
--- a/base/src/videos/base_video.rs
+++ b/base/src/videos/base_video.rs
@@ -655,6 +655,8 @@ impl BaseVideo<SafeBoard> {
         self.game_board_stream.clear();
         self.minesweeper_board =
             MinesweeperBoard::<SafeBoard>::new(SafeBoard::new(vec![vec![0; column]; row]));
+        self.board = SafeBoard::new(vec![vec![0; column]; row]);
+        self.mine_num = 0;
         self.width = column;
         self.height = row;
         self.cell_pixel_size = pix_size;
-- 
2.43.0


From a983666e5c638c5d05d3b5d2d697194bc87022de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:33 +0000
Subject: [PATCH 59/61] fix: a mine total within the range that no layout has
 gave probabilities that are not numbers instead of an error, and through them
 opening probabilities that are not numbers

---
 base/src/algorithms.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 5bcfdc8..417b70f 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -382,6 +382,9 @@ pub fn cal_possibility(
         T.add_big_number(&t);
     }
     // 第五步，计算局面总情况数
+    if T.a == 0.0 {
+        return Err(18); // 雷数在范围内，但没有一种情况恰好是这么多雷，例如没有未知区域时，边缘只可能有2或4个雷，雷数却是3
+    }
 
     for i in 0..block_num {
         for cells_id in 0..comb_relp_s[i].len() {
-- 
2.43.0


From 0570750c892b1251bdd11515209d49b30956fc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:59 +0000
Subject: [PATCH 60/61] fix: unsolvable_structure no longer panics on boards
 narrower than three cells

It indexed the third row and column (and subtracted from the sizes) of any
board, so is_solvable and the no-guess generators crashed on narrow boards.
---
 base/src/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/src/utils.rs b/base/src/utils.rs
index 1ff3016..08a9234 100644
--- a/base/src/utils.rs
+++ b/base/src/utils.rs
@@ -1204,6 +1204,10 @@ pub fn cal_table_minenum_enum(
 pub fn unsolvable_structure(BoardCheck: &Vec<Vec<i32>>) -> bool {
     let row = BoardCheck.len();
     let column = BoardCheck[0].len();
+    if row < 3 || column < 3 {
+        // 局面太窄，放不下这些结构
+        return false;
+    }
     let mut Board = vec![vec![0; column]; row];
     for i in 0..row {
         for j in 0..column {
-- 
2.43.0


From ecbeb75f37c0f1d0328ff6f2cbbab2ec9850614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:15 +0000
Subject: [PATCH 61/61] fix: the adjusting generator counts the opening's cells
 on boards of one row or column

It took four or six cells there, and returned a board without an opening at
the start although the mines left room for one.
---
 base/src/algorithms.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/base/src/algorithms.rs b/base/src/algorithms.rs
index 417b70f..c1ed2cd 100644
--- a/base/src/algorithms.rs
+++ b/base/src/algorithms.rs
@@ -811,18 +811,9 @@ pub fn laymine_solvable_adjust(
 ) -> (Vec<Vec<i32>>, bool) {
     // 利用局面调整算法，无猜埋雷
     let mut board;
-    let mut area_op = 9;
-    if x0 == 0 || y0 == 0 || x0 == row - 1 || y0 == column - 1 {
-        if x0 == 0 && y0 == 0
-            || x0 == 0 && y0 == column - 1
-            || x0 == row - 1 && y0 == 0
-            || x0 == row - 1 && y0 == column - 1
-        {
-            area_op = 4;
-        } else {
-            area_op = 6;
-        }
-    }
+    // 起手位置周围（含自身）的格子数
+    let area_op = (min(row, x0 + 2) - (max(1, x0) - 1))
+        * (min(column, y0 + 2) - (max(1, y0) - 1));
     if row * column - area_op < minenum {
         // 雷数太多以致起手无法开空，此时放弃无猜，返回任意一种局面
         let t = laymine(row, column, minenum, x0, y0);
-- 
2.43.0

