#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (development tool; the outputs are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BG = ["src/backgammon/backgammon_logic.rs"]
ROWS = []
def row(pid, title, statement, over, qtext, why, files, mech, na=None, note=None):
    ROWS.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, na=na, note=note))

row("B01", "Every play get_valid_moves offers is legal",
    "For every backgammon position with 15 checkers a side, either player to move and any roll, every play the move generator offers follows the rules: it moves one or two checkers, each die is used at most once, each step starts from an own checker (from the bar while one is there), moves exactly its die in the player's direction, never lands on two or more opposing checkers, and bears off only when all own checkers are home, with the exact die or a larger one when no own checker stands further from home.",
    ["inputs"], "all positions with 15 checkers a side x 36 rolls x 2 players x every offered play",
    "The tests check a handful of fixed boards; a rule that is wrong only for some arrangement (a gap behind a bearing-off point, a hit that opens the second step) is not among them.",
    BG, "get_valid_moves, _get_action_trees, get_normal_moves, get_entry_moves, is_collectible")
row("B02", "Every legal play's outcome is offered, and generation never crashes",
    "For every such position and roll: if both dice can be played, the position after each legal two-dice play (either order) is reached by an offered play; if only one die can be played, the position after each legal single step is reached; if nothing can be moved, the list is empty. Generating moves never panics.",
    ["inputs"], "all positions with 15 checkers a side x 36 rolls x 2 players x every pair of source points",
    "Completeness needs comparison with every legal play of every position; tests compare a few complete lists.",
    BG, "get_valid_moves, _get_children_of_node_action, extract_sequences_*, remove_duplicate_states")
row("B03", "Both dice are used whenever that is possible",
    "For every such position and roll, if some legal sequence uses both dice then every offered play uses both dice.",
    ["inputs"], "all positions with 15 checkers a side x 36 rolls x 2 players",
    "Positions where one first step leaves no second step while another does are rare; no test has one.",
    BG, "get_valid_moves: filtering by play length")
row("B04", "Offered plays lead to pairwise different positions",
    "For every such position and roll, no two offered plays lead to the same position.",
    ["inputs"], "all positions with 15 checkers a side x 36 rolls x 2 players x all pairs of offered plays",
    "Duplicates depend on which orders hit or transpose; the search tree and the policy rely on one child per outcome.",
    BG, "remove_duplicate_states")
row("B05", "Checkers are conserved by every play",
    "Applying any legal step to a position with 15 checkers a side gives a position with 15 checkers a side, with no count on a bar or borne off above 15 and no arithmetic overflow; applying a play is applying its steps in order. By induction every game keeps 15 checkers a side.",
    ["inputs", "histories"], "all positions with 15 checkers a side x every die and player x every legal step; every offered play of every roll",
    "An update that loses or duplicates a checker only in one case (hit from the bar, two steps of the same checker) shows up only in positions the tests do not hold.",
    BG, "get_next_state, apply_move")
row("B06", "apply_move changes the position exactly as the rules say",
    "For every such position, roll and offered play, the board after playing it is exactly the one the rules give (moved checkers, hits sent to the opponent's bar, checkers borne off counted, everything else untouched); the static next-state function agrees with it; the empty play and skipping a turn leave the board alone.",
    ["inputs"], "all positions with 15 checkers a side x 36 rolls x 2 players x every offered play",
    "The tests apply a few moves to fixed boards.",
    BG, "get_next_state, apply_move, skip_turn")
row("B07", "The turn passes exactly as it should",
    "After a play the same player keeps the turn, with the same dice, exactly when the dice are equal and this was the first half of the double; otherwise the turn passes to the opponent, the second-half flag is cleared and two new dice in 1..6 are rolled. Skipping always passes the turn with new dice. The game's id never changes.",
    ["inputs", "histories"], "all positions x all rolls x both halves of a double x every offered play, the empty play and skip_turn x every dice value rand may draw",
    "Tests follow a few fixed turns and cannot control the dice.",
    BG, "apply_move, skip_turn, roll_die")
row("B08", "A player has won exactly when all 15 checkers are borne off",
    "For every position, the game names a winner exactly when that player has borne off 15 checkers; the per-player and player-less winner tests agree with it.",
    ["inputs"], "all positions with 15 checkers a side",
    "Tests sample two or three boards.", BG, "check_winner, check_win, check_win_without_player")
row("B09", "A game starts from the standard set-up and the dice are 1..6",
    "A new game has the standard backgammon set-up, the same for both players, with nobody having won; rolling stores and returns two values in 1..6 whatever the generator returns, each of the 36 pairs can come up, and rolling changes nothing else.",
    ["inputs"], "the initial state; every value of rand's gen_range", "The dice are random, so a test cannot cover the generator's values.", BG, "new, get_initial_state, roll_die")
row("E01", "Decoding a play's code gives the play back",
    "For every such position and roll and every offered play (and the empty play), encoding it and decoding the code in the same state gives the same play, through both public encoder/decoder pairs.",
    ["inputs"], "all positions with 15 checkers a side x 36 rolls x 2 players x every offered play",
    "The search decodes the network's action indices in every position; the code guesses which die came first from distances, so single positions settle nothing.",
    BG + ["src/backgammon/encoding.rs"], "encode, decode (LearnableGame for Backgammon and inherent)")
row("E02", "Codes of offered plays are distinct indices into the action space",
    "In every such state each offered play's code is below 1352 and not 1351, no two offered plays share a code, the empty play is 1351, and the two public encoders agree.",
    ["inputs"], "all positions with 15 checkers a side x 36 rolls x 2 players x all pairs of offered plays",
    "A collision silently gives two moves one policy entry; it needs a pair of plays the tests do not contain.",
    BG + ["src/backgammon/encoding.rs"], "encode")

T = ["src/tictactoe/mod.rs"]
row("T01", "TicTacToe offers exactly the free cells and a move marks exactly one",
    "For every TicTacToe board and either player to move, the moves offered are exactly the free cells, each once; playing a free cell puts the mover's mark there, changes no other cell and passes the turn; skipping only passes the turn.",
    ["inputs"], "all 3^9 boards x either player x every cell", "Tests play a few moves on a few boards.", T, "get_valid_moves, apply_move, skip_turn")
row("T02", "TicTacToe reports exactly the result on the board",
    "On every TicTacToe board on which not both players have three in a row, the winner reported is the player with three in a row (row, column or diagonal); without one the result is a draw exactly when the board is full and undecided otherwise. An undecided game always has a move; a new game is empty, undecided, with player -1 to move.",
    ["inputs"], "all 3^9 boards without lines of both players", "There are 8 lines for two players on 19683 boards; tests look at a few.", T, "check_winner, new")
row("E03", "TicTacToe action codes are distinct, in range and decode to the move",
    "For every TicTacToe position each cell's code lies below the action space size, decodes to that cell, differs from every other cell's and does not depend on the position.",
    ["inputs"], "all 3^9 boards x all pairs of cells", "Network policies index by these codes in every position.", T, "encode, decode")
S = ["src/mcts/simple_mcts.rs", "src/mcts/node.rs", "src/mcts/node_store.rs"]
row("M01", "The tree search answers a legal move and never crashes",
    "For any game implementing the trait (moves, turns without moves, wins and draws wherever they may be), any position, player and randomness, the plain tree search returns a legal move of the position, or the empty move where the game is over or no move exists, and does not panic.",
    ["inputs", "histories"], "every small game given by tables x every random choice, for bounded iterations and rollout length",
    "The search visits positions that depend on random play; turns without legal moves and finished games inside the tree are met only by luck.", S, "mct_search, select_leaf_node, expand, simulate")
row("M02", "Backpropagation credits exactly the path to the root",
    "Backpropagating a result from any node of any tree adds one visit and the result to that node and each of its ancestors, once, and changes nothing else in the store.",
    ["inputs"], "every forest of bounded size x every starting node x all statistics and results", "Tests use one small tree.", S, "backpropagate")
row("M03", "A rollout's value is the result of a position random play reaches",
    "The value of a rollout is +1, -1 or 0 according to whether the player asked about has won, lost, or neither in a position reachable from the node's position within the turn limit by legal moves (turns without moves are skipped): never a win, loss or draw that no such play reaches, never 0 where every play is decided before the limit, and each legal move may be the one played.",
    ["inputs", "schedules"], "every small game given by tables x both players asked about x every random choice", "Rollouts are random; tests run a few and look at the range of the value.", S, "simulate")
row("M04", "Expansion gives each legal move exactly one child",
    "Expanding a node until it reports being fully expanded adds one fresh child per legal move, no move twice, each holding its move, the position after it, that position's legal moves, and links in both directions; the node reports being fully expanded exactly then.",
    ["inputs"], "every small game given by tables x stores with other nodes", "Tests expand a few nodes of two games.", S, "expand, add_node, set_node, is_fully_expanded")
row("M05", "Selection follows the best confidence bounds to the first incomplete node",
    "From the root, selection descends through nodes that are fully expanded and have children, each time into a child with the greatest value/visits + sqrt(c ln(parent visits)/visits), and returns the first node that has unexpanded moves or no children.",
    ["inputs"], "trees of depth two, every combination of open nodes, leaves, visits and results within bounds", "The order of bounds depends on all statistics together; tests use one tree.", S, "select_leaf_node, select_ucb, ucb")
row("M06", "The move answered is that of a most visited child",
    "The move the search answers is the one of a child of the root that no other child exceeds in visits, whatever their results, and the empty move if there is no child.",
    ["inputs"], "any visit counts and results of up to four children", "Ties, orders and extreme counts are not sampled by tests.", S, "select_most_visits")
row("M07", "Of two moves that end the game, the search answers the better one",
    "Where the root has two moves that both end the game at once with different results (win, draw, loss), the search answers the one better for the player searching after any number of iterations from three, for either player and in either order of moves.",
    ["inputs", "histories"], "both orders x both players x every pair of results x listed iteration counts", "It ties the sign conventions of result, player and selection together; tests only check that a move comes back.", S, "mct_search")

row("E04", "Network input planes show exactly the position",
    "For every position of either game, the tensor given to the network has the shape the network is built for and its planes hold exactly the position: in backgammon one plane each for the points, the player to move, the two bars, the two borne-off counts, the two dice (first value in the first twelve cells, second in the others) and the second half of a double; in TicTacToe one 0/1 plane each for the cells holding -1, empty, and +1.",
    ["inputs"], "every backgammon position, roll and half of a double; every TicTacToe board; either player", "Tests compare the planes of a few positions; a wrong index or sign shows only where the affected field is not zero.", ["src/backgammon/backgammon_logic.rs", "src/tictactoe/mod.rs"], "as_tensor")
A = ["src/mcts/alpha_mcts.rs", "src/mcts/utils.rs", "src/mcts/noise.rs"]
row("M08", "Network-guided expansion adds one child per legal move, with its prior",
    "Expanding a node with a policy (given as a vector or as a tensor) adds exactly one child for each legal move, linked both ways, holding the move, the position after it, that position's legal moves and the policy's value at the move's code as prior; nothing else in the store changes.",
    ["inputs"], "every small game given by tables and TicTacToe boards x every policy", "Tests expand one or two nodes with real networks, whose policies have no zeros and are not checked.", A, "alpha_expand, alpha_expand_tensor")
row("M09", "Priors are the network's outputs on legal moves, normalised",
    "Turning a network's policy into move probabilities gives every legal move its output divided by the sum over the legal moves of the same position, and every other action 0, in each of the variants for one position and for batches.",
    ["inputs"], "any outputs x any set of legal moves x batches", "Row and column mix-ups cancel out for equal positions, which is what tests use.", A, "turn_policy_to_probs, turn_policy_to_probs_tensor, turn_policy_to_probs_tensor_parallel")
row("M10", "The search's probabilities are each root's shares of visits",
    "The probabilities taken from a search tree give every child of the root its visits divided by the sum over the root's children, at the code of the child's move in the root's position, and every other action 0; in the batch variant each root has its own row.",
    ["inputs"], "any visit counts x one or two roots of different sizes, other nodes in the store", "Tests look at sums only.", ["src/mcts/utils.rs"], "get_prob_tensor, get_prob_tensor_parallel")
row("M11", "Root priors are mixed with noise in the configured proportion",
    "Before a search the priors of each root's moves are (1-e) times the network's plus e times a random distribution, legal moves only, normalised; without noise (e=0) they are the network's. Noise touches no other node, adds nothing to statistics, and in a search of one game can favour a move exactly as far as its share allows.",
    ["inputs", "schedules"], "every draw on the grid x shares 0, 1/4, 1/2, 1 x any prior", "The noise is random: tests cannot tell the mixture's proportion.", A, "apply_dirichlet, apply_dirichlet_to_root")
row("M12", "The search of many games keeps every game's tree apart and counts right",
    "Searching several games at once gives each its own tree: all roots are the games given in order, every iteration adds one visit to each root that is not over, a node's visits and value are those of the simulations through it (network's evaluation, or the result where the game is over), children belong to their parent's game, and no simulation is credited to a game it was not made in.",
    ["inputs", "histories"], "every small game given by tables x any policies and values x up to three games with different ends, listed iteration counts", "What goes wrong when some games are over while others go on depends on which and when; tests use games that never end in the search.", A, "alpha_mcts_parallel, alpha_select_leaf_node, backpropagate")
row("M13", "The search of one game answers shares of visits, in finished games nothing",
    "For any game, the search of one position answers nothing exactly if the game is over or has no moves there; otherwise it answers each move's share of the simulations, which adds up to one, as the search of a batch of that one position counts it, and never panics, wherever games end inside the tree.",
    ["inputs", "histories"], "every small game given by tables x any policies and values, listed iteration counts", "Finished games inside the tree are met only by positions close to the end; tests use none.", A, "alpha_mcts, get_prob_tensor")
row("M14", "Network-guided selection follows the greatest mean value plus prior bonus",
    "In network-guided search each simulation descends from the root, at every node with children into one with the greatest q + c * prior * sqrt(parent's visits) / (1 + visits), q being the child's mean value (0 without visits), and ends at a node without children.",
    ["inputs", "histories"], "every small game given by tables x any policies and values, listed iteration counts", "Each term matters only for some statistics; tests do not follow a search.", A, "alpha_select_leaf_node, select_alpha, alpha_ucb")
Z = ["src/alphazero/alpha_parallel.rs", "src/alphazero/alpha_no_parallel.rs", "src/alphazero/alphazero.rs"]
row("A01", "Every recorded turn is labelled with its game's result for the mover",
    "In both kinds of self-play every recorded turn's label is +1 if the player who moved then won the game it belongs to, -1 if the other did, 0 if it was a draw or was ended at the round limit.",
    ["inputs", "histories", "schedules"], "every small game given by tables x every random choice x one game or several ending at different times, in any order of the map of games", "Results mix only when games of one batch end at different times or in draws; tests run self-play without looking at labels.", Z, "self_play, self_play_parallel")
row("A02", "Self-play records each turn of each game once, with its position and policy",
    "What self-play records of a game is each of its turns with a move, once and in no other game: the position before the move, and a policy which is the search's answer there and gives the move then played a positive share. Turns without moves are skipped and not recorded, and nothing is recorded after the end.",
    ["inputs", "histories", "schedules"], "every small game given by tables x every random choice x one game or several ending at different times, in any order of the map of games", "Needs games that end, are skipped and are cut off at different times in one batch.", Z, "self_play, self_play_parallel")
row("A03", "A training pass uses every recorded turn once, towards its own targets",
    "Training cuts the turns, in whatever shuffled order, into the least number of batches of the configured size, which together hold every turn exactly once; for each batch exactly one gradient, on the sum of both losses and free of earlier gradients, and one step are made, each row's targets being that turn's policy and label.",
    ["inputs", "schedules"], "any labels and policies x every shuffle x numbers of turns that do and do not divide by the batch size", "A row paired with another's target, or a last short batch dropped, leaves training running.", Z, "train")
row("A04", "A stored model's weights are the ones a learner or player starts with",
    "A learner given a model starts with that model's weights, one not given a model with those of the stored best model if there is one and otherwise from scratch; a player has the weights of its model; a saved model has the weights of the one it was saved from.",
    ["inputs"], "any weights x model given or not x best model stored or not", "Tests never load a model; without its weights everything still runs.", ["src/alphazero/alphazero.rs", "src/alphazero/nnet.rs"], "new, from_path, save_current_model")
row("A05", "Training data read back is what was written",
    "Reading a directory of training data gives as many turns as were written there, in order, each with its label, policy and position, and they can be trained on.",
    ["inputs"], "any labels and policies x any number of turns from one", "Tests round-trip nothing; shapes collapse only for small data.", ["src/alphazero/alphazero.rs"], "save_training_data, load_training_data")

row("A06", "A model becomes the best one exactly if it wins at least 55% of the match",
    "A learner's model replaces the stored best model exactly if there is none yet or if it wins at least 55% of a match of 400 games against it, each side's moves being chosen with its own weights and either side beginning half of the games; a match tells a model better from 55% of games won, worse up to 45%, otherwise inconclusive, and changes no weights.",
    ["inputs", "histories"], "which model is the better one x games with given results on both sides of the thresholds x best model stored or not", "Tests play no match between models; swapped models or a threshold off by one game still give a result.", ["src/alphazero/alpha_versus.rs", "src/versus.rs"], "play_vs_best_model, play_vs_model, play, get_actions_for_player")
row("A07", "Each learning iteration trains on all of its own games, as often as configured",
    "In both learning loops every iteration goes over the turns of all games of all its self-play iterations, and of no other iteration's, the configured number of times, making a step each time; the first model learned becomes the best one.",
    ["inputs", "histories", "schedules"], "every small game given by tables x every random choice, listed numbers of iterations, games and passes", "A loop that forgets or keeps turns still learns; tests do not run it.", ["src/alphazero/alpha_parallel.rs", "src/alphazero/alpha_no_parallel.rs"], "learn_parallel, learn")
row("A08", "A learning run stores each game's turns exactly once",
    "The training data a run of batch learning leaves in its self-play directories is, taken together, the turns of each game it played, each stored in exactly one directory, one directory per self-play iteration.",
    ["inputs", "histories", "schedules"], "every small game given by tables x every random choice, listed numbers of self-play iterations and games", "Training from stored data works as well with turns missing or stored twice; no test reads the directories.", ["src/alphazero/alpha_parallel.rs", "src/alphazero/alphazero.rs"], "learn_parallel, save_training_data, load_training_data")
row("V01", "A match's tally is the number of games each side won",
    "A match plays 400 games, the other player beginning in half of them, and tells for each side exactly the games it won, the remaining ones as draws (finished without a winner or cut off at the round limit), and as win rate the first player's share of all games; every game is kept once with its winner. Turns without moves are skipped; no match hangs on a game that goes on beyond the limit, or crashes.",
    ["inputs", "histories"], "every small game given by tables x random, searching and network players on either side", "Games of a match end in different rounds and ways; tests look at one deterministic sum.", ["src/versus.rs"], "play, get_actions_for_player")

def main():
    import sys; sys.path.insert(0, V + "/bin"); sys.dont_write_bytecode = True
    import props
    with open(V + "/properties.jsonl", "w") as f:
        for r in ROWS:
            f.write(json.dumps(dict(id=r["id"], title=r["title"], statement=r["statement"], quantifier=dict(over=r["over"], text=r["qtext"]), why_tests_cant=r["why"], anchors=dict(files=r["files"], mechanism=[dict(name=n.strip(), where=r["files"][0]) for n in r["mech"].split(", ")]))) + "\n")
    checks, na = [], []
    for r in ROWS:
        if r["na"]:
            na.append(dict(property=r["id"], reason=r["na"])); continue
        b = props.PROPS[r["id"]]
        checks.append(dict(property=r["id"], quick_cmd="bin/check %s --tier quick" % r["id"], thorough_cmd="bin/check %s --tier thorough" % r["id"],
            technique="symbolic execution of the crate's MIR, assertions decided by SMT (z3)", level="other",
            level_note="Decided for every value within: " + b["bounds"] + "." + (" Outside: " + b["outside"] + "." if b["outside"] else "") + (" " + r["note"] if r["note"] else "") + " Trusts the MIR-to-SMT executor, its models of std and dependencies (DESIGN.md), rustc and z3; counterexamples are replayed natively where the harness needs no stand-in."))
    m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na)
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
main()
