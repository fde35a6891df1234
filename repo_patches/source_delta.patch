From 40a94763417f8352e4e7a43a8733b00d84278aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:18 +0000
Subject: [PATCH 01/12] fix: bear off from a lower point only when no own
 checker is behind it

The checkers of both sides were summed, so opponent checkers in the home
board could hide (or fake) an own checker further from home.
---
 src/backgammon/backgammon_logic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backgammon/backgammon_logic.rs b/src/backgammon/backgammon_logic.rs
index 51227fd..049f334 100644
--- a/src/backgammon/backgammon_logic.rs
+++ b/src/backgammon/backgammon_logic.rs
@@ -571,8 +571,8 @@ impl Backgammon {
                 for m_idx in (0..point).rev() {
                     let m_idx_usize = m_idx as usize;
                     let n_pieces_on_point = board[m_idx_usize];
-                    let left_sum: i8 = board[m_idx_usize + 1..6].iter().sum();
-                    if n_pieces_on_point < 0 && left_sum >= 0 {
+                    let no_piece_behind = board[m_idx_usize + 1..6].iter().all(|&n| n >= 0);
+                    if n_pieces_on_point < 0 && no_piece_behind {
                         possible_actions.push((m, (m_idx, -1)));
                         break;
                     }
@@ -588,8 +588,8 @@ impl Backgammon {
                 for m_idx in point..=23 {
                     let m_idx_usize = m_idx as usize;
                     let n_pieces_on_point = board[m_idx_usize];
-                    let left_sum: i8 = board[18..m_idx_usize].iter().sum();
-                    if n_pieces_on_point > 0 && left_sum <= 0 {
+                    let no_piece_behind = board[18..m_idx_usize].iter().all(|&n| n <= 0);
+                    if n_pieces_on_point > 0 && no_piece_behind {
                         possible_actions.push((m, (m_idx, -1)));
                         break;
                     }
-- 
2.43.0


From 7e4bfdc25366e148d47265a9c73eb53df5794625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:18 +0000
Subject: [PATCH 02/12] fix: do not offer a one-die play when both dice can be
 played

---
 src/backgammon/backgammon_logic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backgammon/backgammon_logic.rs b/src/backgammon/backgammon_logic.rs
index 049f334..79ec00f 100644
--- a/src/backgammon/backgammon_logic.rs
+++ b/src/backgammon/backgammon_logic.rs
@@ -409,7 +409,10 @@ impl LearnableGame for Backgammon {
         };
         let action_trees = Self::_get_action_trees(&all_moves, self.board, self.player);
         // parse trees into actions here
-        let actions = Self::extract_sequences_list(action_trees);
+        let mut actions = Self::extract_sequences_list(action_trees);
+        // both dice must be played whenever that is possible
+        let max_len = actions.iter().map(|sequence| sequence.len()).max().unwrap_or(0);
+        actions.retain(|sequence| sequence.len() == max_len);
         Self::remove_duplicate_states(self.board, actions, self.player)
     }
 }
-- 
2.43.0


From 5f4438f0af63a7ce1d25558b47d774a85cc74553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:04 +0000
Subject: [PATCH 03/12] fix: let a rollout see the winner of the position it
 reached

---
 src/mcts/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcts/node.rs b/src/mcts/node.rs
index e3d91a7..598cfed 100644
--- a/src/mcts/node.rs
+++ b/src/mcts/node.rs
@@ -178,7 +178,7 @@ impl <T: LearnableGame> Node<T>{
         let mut curr_state = self.state;
 
         for _ in 0..sim_limit {
-            if let Some(winner) = self.state.check_winner() {
+            if let Some(winner) = curr_state.check_winner() {
                 return if winner == player {1.}
                 else if winner == -player {-1.}
                 else {0.};
-- 
2.43.0


From 2506af6a1b6fbb92e393df5118fe1c2014d626e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:24 +0000
Subject: [PATCH 04/12] fix: do not panic in mct_search on a position without
 legal moves

---
 src/mcts/simple_mcts.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mcts/simple_mcts.rs b/src/mcts/simple_mcts.rs
index d8c2210..6aebd71 100644
--- a/src/mcts/simple_mcts.rs
+++ b/src/mcts/simple_mcts.rs
@@ -27,6 +27,10 @@ pub fn mct_search<T: LearnableGame>(state: T, player: i8, mcts_config: &MctsConf
             else if winner == -player {-1.}
             else {0.};
             
+            backpropagate(selected_node_idx, value, &mut store)
+        } else if selected_node.is_fully_expanded() {
+            // The player to move has no legal moves here, the rollout starts by skipping its turn
+            let value = selected_node.simulate(player, mcts_config.simulate_round_limit);
             backpropagate(selected_node_idx, value, &mut store)
         } else {
             let new_node_idx = selected_node.expand(&mut store);
-- 
2.43.0


From c81dabc4e88ccce60b161a0fd1b47da81831288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:29 +0000
Subject: [PATCH 05/12] fix: alpha_mcts_parallel credits a stale node for games
 whose selection was terminal

---
 src/mcts/alpha_mcts.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index 981da3c..d82eb85 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -132,23 +132,20 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
                 - values ranging from 0 to N_SELF_PLAY_BATCHES
                 - used to track how many games are still not completed
             - Selected_nodes:
-                - N_SELF_PLAY_BATCHES node values
-                - selected_nodes[i] refers to the node that was last selected for game[i]
+                - at most N_SELF_PLAY_BATCHES node values
+                - the nodes selected in the current iteration for games which did not reach a terminal node
 
     */
     let games: HashSet<usize> = HashSet::from_iter(0..states.len());
 
-    // Game id to node idx mapping
-    let mut selected_nodes_idxs = vec![0; states.len()];
-
     let pb = match pb {
         Some(p) => p,
         None => ProgressBar::new(mcts_config.iterations as u64)
     };
 
     for _ in 0..mcts_config.iterations {
-        // Clear selected node indices
-        let mut node_selected = false;
+        // Nodes selected in this iteration which are not terminal
+        let mut selected_nodes_idxs = vec![];
         pb.inc(1);
         for &game_idx in games.iter() {
             let idx = alpha_select_leaf_node(game_idx, store, mcts_config.c);
@@ -162,12 +159,11 @@ pub fn alpha_mcts_parallel<T: LearnableGame>(store: &mut NodeStore<T>, states: &
                     else {0.};
                 backpropagate(idx, value as f32, store);
             } else {
-                node_selected = true;
-                selected_nodes_idxs[game_idx] = selected_node.idx;
+                selected_nodes_idxs.push(selected_node.idx);
             }
         }
 
-        if !node_selected {
+        if selected_nodes_idxs.is_empty() {
             continue;
         }
             
-- 
2.43.0


From 90e4719835e56639ff7c0645908e1ccf29b57530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:29 +0000
Subject: [PATCH 06/12] fix: alpha_mcts panics when the search reaches a
 finished game

---
 src/mcts/alpha_mcts.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index d82eb85..b695165 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -76,7 +76,11 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
             selected_node.alpha_expand(&mut store, policy_vec);
             eval.double_value(&[0]) as f32
         } else {
-            ((state.check_winner().unwrap() + 1) / 2) as f32
+            let winner = selected_node.state.check_winner().unwrap();
+            let root_player = state.get_player();
+            if winner == root_player {1.}
+                else if winner == -root_player {-1.}
+                else {0.}
         };
 
         backpropagate(idx, value, &mut store);
-- 
2.43.0


From 4807dce68f24b6b1bf771fdedad00c50306ad5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:19 +0000
Subject: [PATCH 07/12] fix: alpha_mcts reads the network's outputs for its
 state as if they were no batch

---
 src/mcts/alpha_mcts.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mcts/alpha_mcts.rs b/src/mcts/alpha_mcts.rs
index b695165..9e0f040 100644
--- a/src/mcts/alpha_mcts.rs
+++ b/src/mcts/alpha_mcts.rs
@@ -35,7 +35,8 @@ fn select_alpha<T: LearnableGame>(node_idx: usize, store: &NodeStore<T>, c: f32)
 pub fn apply_dirichlet_to_root<T: LearnableGame>(root_idx: usize, store: &mut NodeStore<T>, net: &ResNet, state: &impl LearnableGame, mcts_config: &MctsConfig) {
     let mut root_node = store.get_node(root_idx);
     
-    let policy = net.forward_policy(&state.as_tensor().to_device(*DEVICE), false);
+    // The network's outputs are batches, here of a single state
+    let policy = net.forward_policy(&state.as_tensor().to_device(*DEVICE), false).get(0);
 
     let policy_vec = turn_policy_to_probs(&policy, &root_node);
     root_node.alpha_expand(store, policy_vec);
@@ -72,7 +73,7 @@ pub fn alpha_mcts<T: LearnableGame>(state: &T, net: &ResNet, mcts_config: &MctsC
         let value = if !selected_node.is_terminal() {
             let (policy, eval) = net.forward_t(&selected_node.state.as_tensor().to_device(*DEVICE), false);
 
-            let policy_vec = turn_policy_to_probs(&policy, &selected_node);
+            let policy_vec = turn_policy_to_probs(&policy.get(0), &selected_node);
             selected_node.alpha_expand(&mut store, policy_vec);
             eval.double_value(&[0]) as f32
         } else {
-- 
2.43.0


From 0a99b34d4fbded80391eff1a627666d30b146233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:42 +0000
Subject: [PATCH 08/12] fix: self_play labels the turns of a drawn game as lost

---
 src/alphazero/alpha_no_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/alphazero/alpha_no_parallel.rs b/src/alphazero/alpha_no_parallel.rs
index 5478b59..248ea1d 100644
--- a/src/alphazero/alpha_no_parallel.rs
+++ b/src/alphazero/alpha_no_parallel.rs
@@ -73,7 +73,7 @@ impl AlphaZero {
                 return memory
                     .iter()
                     .map(|mem| MemoryFragment {
-                        outcome: if mem.outcome == winner { 1 } else { -1 },
+                        outcome: if mem.outcome == winner { 1 } else if mem.outcome == -winner { -1 } else { 0 },
                         ps: mem.ps.shallow_clone(),
                         state: mem.state.shallow_clone(),
                     })
-- 
2.43.0


From 8e5bfd7655265817e6cc31eb8acd1ea932a14cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:22 +0000
Subject: [PATCH 09/12] fix: self_play_parallel plays on, and records again, a
 game it ended at the round limit

---
 src/alphazero/alpha_parallel.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index b47783e..64e246c 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -177,6 +177,7 @@ impl AlphaZero {
                     });
                     all_memories.extend(curr_memory);
                     states_to_remove.push(*init_idx);
+                    continue;
                 }
 
                 // If prob tensor of the current state is all zeros then skip turn, has_children check just in case
-- 
2.43.0


From 5d685d395aed74850a91ff8c4d2ef5e35f22e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:54 +0000
Subject: [PATCH 10/12] fix: AlphaZero::new loads the stored model before the
 network has variables, so nothing is loaded

---
 src/alphazero/alphazero.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index a49edcc..956ce37 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -79,19 +79,20 @@ torch.optim.Adam(params, lr=0.001, betas=(0.9, 0.999), eps=1e-08, weight_decay=0
 
 impl AlphaZero {
     pub fn new<T: LearnableGame>(model_path: Option<PathBuf>, config: AlphaZeroConfig, mcts_config: MctsConfig, op: OptimizerParams) -> Self {
-        let mut vs = nn::VarStore::new(*DEVICE);
+        // Loading only fills variables which already exist, the network has to be built before
+        let mut model = ResNet::new::<T>(nn::VarStore::new(*DEVICE));
 
         println!("Initializing AlphaZero...\nDevice: {:?}\n{:?}\n{:?}", *DEVICE, &config, mcts_config);
 
         match model_path {
-            Some(m_path) => match vs.load(&m_path) {
+            Some(m_path) => match model.vs.load(&m_path) {
                 Ok(_) => println!("Successfully loaded model on path: {}", m_path.to_str().unwrap()),
                 Err(e) => panic!("failed to load model: (might be a large error log) \n{}", e),
             },
             None if Path::new(&format!("./models/{}/best_model.ot", T::name())).exists() => {
                 let m_path_str = format!("./models/{}/best_model.ot", T::name());
                 let bm_path = Path::new(&m_path_str);
-                match vs.load(bm_path) {
+                match model.vs.load(bm_path) {
                     Ok(_) => println!("Successfully loaded best model"),
                     Err(e) => panic!("failed to load best model: {}", e),
                 }
@@ -99,10 +100,10 @@ impl AlphaZero {
             None => println!("No best model found, initialized from scratch")
         }
 
-        let opt = Adam::default().wd(op.wd).build(&vs, op.lr).unwrap();
+        let opt = Adam::default().wd(op.wd).build(&model.vs, op.lr).unwrap();
 
         AlphaZero {
-            model: ResNet::new::<T>(vs),
+            model,
             optimizer: opt,
             config,
             mcts_config,
-- 
2.43.0


From 101150a9470f2a338132f5bdbc9cdada4c07a510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:17 +0000
Subject: [PATCH 11/12] fix: load_training_data cannot read data of a single
 turn

---
 src/alphazero/alphazero.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/alphazero/alphazero.rs b/src/alphazero/alphazero.rs
index 956ce37..490ee53 100644
--- a/src/alphazero/alphazero.rs
+++ b/src/alphazero/alphazero.rs
@@ -186,9 +186,9 @@ impl AlphaZero {
         if !path.exists() {
             panic!("path: {} does not exist!", path.to_str().unwrap())
         }
-        let ps = Tensor::load(path.join("ps.ot")).unwrap().squeeze();
-        let states = Tensor::load(path.join("states.ot")).unwrap().squeeze();
-        let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap().squeeze();
+        let ps = Tensor::load(path.join("ps.ot")).unwrap();
+        let states = Tensor::load(path.join("states.ot")).unwrap();
+        let outcomes = Tensor::load(path.join("outcomes.ot")).unwrap();
 
         let data_size = ps.size()[0];
         (0..data_size).map(|data_idx| {
-- 
2.43.0


From 92ccd5306a13ec89e0e5dc534e050db73d8aa716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:44 +0000
Subject: [PATCH 12/12] fix: learn_parallel stores the turns of earlier
 self-play iterations again with each one

---
 src/alphazero/alpha_parallel.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/alphazero/alpha_parallel.rs b/src/alphazero/alpha_parallel.rs
index 64e246c..e81919c 100644
--- a/src/alphazero/alpha_parallel.rs
+++ b/src/alphazero/alpha_parallel.rs
@@ -50,7 +50,6 @@ impl AlphaZero {
                 pb_self_play.set_message(format!("Self-play iteration #{}", sp_i + 1));
 
                 let mut res = self.self_play_parallel::<T>();
-                memory.append(&mut res);
                 pb_self_play.set_message(format!(
                     "Saving training data... Self-play iteration #{}",
                     sp_i + 1
@@ -59,7 +58,8 @@ impl AlphaZero {
                 // Make self play dir
                 let sp_dir_path = format!("{}/sp-{}", &lrn_path, sp_i);
                 let _ = fs::create_dir(&sp_dir_path);
-                self.save_training_data(&memory, Path::new(&sp_dir_path));
+                self.save_training_data(&res, Path::new(&sp_dir_path));
+                memory.append(&mut res);
                 pb_self_play.set_message(format!(
                     "Self-play iteration #{} complete, saved training data",
                     sp_i + 1
-- 
2.43.0

