"""The properties: which harness instances decide each, and within which bounds."""
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def known(prop):
    """known-findings.txt lines: 'finding: property=<id> | <label or file:line of the failing call site> | <what fails>'"""
    out = []
    try:
        for l in open(V + "/known-findings.txt"):
            if l.startswith("finding:"):
                a = [x.strip() for x in l[len("finding:"):].split("|")]
                if a[0] == "property=" + prop: out.append((a[1], a[2]))
    except FileNotFoundError:
        pass
    return out

PLAYERS = (-1, 1)
def rolls(tier):
    """(d1, d2, player): quick takes each unordered roll for each player, in one of its two orders; thorough takes all 36"""
    r = []
    for a in range(1, 7):
        for b in range(a, 7):
            for p in PLAYERS:
                flip = ((a + b) % 2 == 1) == (p == 1)
                r.append((b, a, p) if flip else (a, b, p))
                if tier == "thorough" and a != b: r.append((a, b, p) if flip else (b, a, p))
    # longest first
    r.sort(key=lambda t: (t[0] == t[1], t[0] + t[1]))
    return r
def roll_jobs(fn, panics=False, **kw):
    return lambda tier: [dict(fn=fn, params=dict(d1=a, d2=b, p=p, **kw), panics=panics) for a, b, p in rolls(tier)]
def one(fn, panics=False, native=True, **params):
    return lambda tier: [dict(fn=fn, params=params, panics=panics, native=native)]
def many(*fs):
    return lambda tier: [j for f in fs for j in f(tier)]

BOARD = "every position with 15 checkers a side (24 points, bars, borne-off counts all symbolic); "
ROLLS = "each of the 21 rolls for both players, in one of the two dice orders (quick) or both (thorough)"
PROPS = {}
def P(pid, jobs, bounds, outside=""): PROPS[pid] = dict(jobs=jobs, bounds=bounds, outside=outside)

P("B01", roll_jobs("bg::legality"), BOARD + ROLLS, "plays of more than two dice do not exist in this code: doubles are two turns of two")
P("B02", roll_jobs("bg::complete", panics=True), BOARD + ROLLS + "; all pairs of source points")
P("B03", roll_jobs("bg::legality"), BOARD + ROLLS)
P("B04", roll_jobs("bg::complete", dup=1), BOARD + ROLLS)
P("B05", many(lambda t: [dict(fn="bg::conserve", params=dict(d1=d, p=p), panics=True) for d in range(1, 7) for p in PLAYERS], roll_jobs("bg::apply", panics=True)), BOARD + ROLLS + "; every offered play, the empty play and skipping; the next dice are any values rand may draw", "chains of plays by induction: every step keeps the counts")
P("B06", roll_jobs("bg::apply"), BOARD + ROLLS + "; every offered play, the empty play and skipping")
P("B07", roll_jobs("bg::apply"), BOARD + ROLLS + "; either half of a double; every offered play, the empty play and skipping; the next dice are any values rand may draw")
P("B08", many(one("bg::winner", p=-1, panics=True), one("bg::winner", p=1, panics=True)), BOARD + "either player to move, any roll")
P("B09", one("bg::start", panics=True), "the one initial state; every value rand's gen_range may return", "uniformity of the generator itself")
P("E01", roll_jobs("bg::encoding", panics=True), BOARD + ROLLS + "; every offered play and the empty play, both entry points (trait and inherent)")
P("E02", roll_jobs("bg::encoding"), BOARD + ROLLS + "; every offered play and every pair of them")

P("T01", one("ttt::moves", panics=True), "all 3^9 boards, either player to move, every cell")
P("T02", one("ttt::winner", panics=True), "all 3^9 boards on which not both players have a line")
P("E03", one("ttt::moves", panics=True), "all 3^9 boards, every pair of cells")

def jobs(fn, quick, thorough=(), panics=True, native=True, net=False):
    """one instance per parameter set; with `net`, the harness gives the network's outputs"""
    return lambda tier: [dict(fn=fn, params=p, panics=panics, native=native, net=net) for p in list(quick) + (list(thorough) if tier == "thorough" else [])]
TOY = "any game given by tables over k positions (who has won where, 0, 1 or 2 moves each, where they lead, positions without moves that are not over included), either player to move; every draw of the random generator; "
P("M01", jobs("mcts::search", [dict(k=4, n=3, r=3, split=1), dict(k=4, n=4, r=2, split=1)], [dict(k=6, n=4, r=3, split=1), dict(k=5, n=5, r=1, split=1)]), TOY + "(k, iterations, rollout limit) = (4,3,3), (4,4,2); thorough also (6,4,3), (5,5,1)", "longer searches; the exploration constant is 2")
P("M02", jobs("mcts::backprop", [dict(n=4, split=1)], [dict(n=5, split=1)]), "every forest of 4 (thorough 5) nodes, any statistics up to 10^6, any starting node, any result in [-1,1]", "larger trees: the recursion visits one ancestor per call")
P("M03", many(jobs("mcts::rollout_fan", [{}]), jobs("mcts::rollout", [dict(k=4, r=3), dict(k=4, r=1), dict(k=6, r=4), dict(k=3, r=0)], [dict(k=6, r=6)])), TOY + "k up to 6, limits 0..4 (thorough 6); a game of one turn with 8 moves", "longer rollouts; uniformity of the generator")
P("M04", many(jobs("mcts::expand_fan", [dict(n=n, inner=i) for n in (1, 3, 6, 10) for i in (0, 1)]), jobs("mcts::expand", [dict(k=4)], [dict(k=6)])), TOY + "k = 4 (thorough 6), expanded completely, in a store with 0..2 other nodes; nodes with up to 10 moves, as root and below one")
P("M05", jobs("mcts::select", [dict(v=2), dict(v=3)], [dict(v=4)]), "trees of depth two with two children a node, each node with or without children and with or without moves left, visits 1..3 (thorough 4), any whole results within them; exploration constant 2; a difference of 0.001 in the bound counts as a tie", "unvisited children, for which the bound is not defined; wider and deeper trees")
P("M06", jobs("mcts::answer", [dict(n=n, split=1) for n in (0, 1, 2, 3, 4)]), "0 to 4 children with any visit counts in [0, 10^6] and any results", "more children: the selection compares pairs")
P("M07", many(jobs("mcts::prefer_late", [dict(k=k, n=n, r=r, split=1) for k in (4, 5, 6) for n, r in ((6, 6), (10, 6), (20, 1), (20, 2), (40, 1))], [dict(k=k, n=n, r=r, split=1) for k in (4, 5, 6) for n in range(21, 40) for r in (1, 2, 3)]), jobs("mcts::prefer", [dict(n=n, split=1) for n in (3, 4, 5, 6, 10, 30)], [dict(n=n, split=1) for n in range(7, 60)])), "a root with a move that draws at once and one that leads in 2 to 4 single moves to a win or a loss, whether the players alternate or not, (iterations, rollout limit) = (6,6), (10,6), (20,1), (20,2), (40,1); a root with two moves that end the game at once with different results, in either order, for either player; 3..6, 10, 30 iterations (thorough: 3..60)", "other games")

# --- tensors: the network's inputs and outputs
NET = "any network whose value for a position is one of -1, 0, 0.5, 0.75 and whose outputs for its two moves are one of three pairs; "
P("E04", many(lambda t: [dict(fn="tens::bg_planes", params=dict(p=p), panics=True) for p in PLAYERS], one("tens::ttt_planes", panics=True)), BOARD + "either player to move, any roll and half; all 3^9 TicTacToe boards, either player to move")
NET = "the network answers any position with any policy and value the tables give; "
P("M08", many(jobs("tens::expand_toy", [dict(tensor=0, split=1), dict(tensor=1, split=1)]), jobs("tens::expand_many", [dict(tensor=t, split=1) for t in (0, 1)]), jobs("tens::expand_ttt", [dict(tensor=t, split=1, others=0, hi=5) for t in (0, 1)] + [dict(tensor=1, split=1, others=0, lo=4)], [dict(tensor=1, split=1, others=0, hi=9)])), "any prior table with zeros anywhere, on games given by tables with up to 4 moves, batches of two nodes, and TicTacToe boards with up to 5 (thorough 9) and from 4 free cells; stores with other nodes", "Backgammon's action space (B and E properties cover its moves and codes)")
P("M09", many(jobs("tens::mask", [dict(how=h, n=n) for h in (0, 1, 2) for n in (1, 3, 4)]), jobs("tens::mask_many", [dict(n=3, m=2), dict(n=2, m=3)])), "policy rows of 1, 3 and 4 outputs, and 2 rows of 3 or 3 rows of 2, any outputs in [0,1], any set of legal moves", "longer rows: the code treats all elements of a row alike")
P("M10", jobs("tens::visits", [dict(two=w, n=n, vmax=5) for w in (0, 1) for n in (2, 3)] + [dict(two=1, n=2, others=1, vmax=5)], [dict(two=w, n=4, vmax=3) for w in (0, 1)]), "one root or two, with 2 or 3 (thorough 4) children, any visits up to 5 (4 children: 3)", "more children and visits")
P("M11", many(jobs("tens::noise", [dict(n=3, dgrid=4)]), jobs("alpha::one_noise", [dict(split=1, dgrid=2, eps=e, first=f, much=m) for e in (1, 2) for f in (0, 1) for m in (0, 1) if (e, m) != (2, 1)], net=True), jobs("alpha::root_noise", [dict(split=1, dgrid=2, eps=e) for e in (0, 1, 2)], net=True)), "rows of 3 outputs with Dirichlet draws on the grid of quarters; whole searches from a root with draws on the grid of halves and a noise share of 0, 1/4 and 1", "finer draws; shares for which every legal move could lose its prior")
SP = [dict(same_player_moves_on=a, second_player=b) for a in (0, 1) for b in (0, 1)]
def al(*ps): return [dict(split=1, dgrid=1, **p) for p in ps]
P("M12", jobs("alpha::parallel", al(dict(games=1, iterations=1, k=3), dict(games=1, iterations=2, k=3), dict(games=2, iterations=1, k=3), dict(games=2, iterations=3, k=3, nm0=1, nm1=1), dict(games=3, iterations=2, k=3, nm0=1, nm1=1, nm2=1), dict(games=2, iterations=2, k=3, nm0=2, nm1=1), dict(games=2, iterations=2, k=3, nm0=1, nm1=2), dict(games=1, iterations=3, k=3, nm0=2, next0=1, alt0=2)),
    al(*[dict(games=2, iterations=2, k=3, nm0=2, nm1=2, **s) for s in SP], *[dict(games=1, iterations=3, k=3, nm0=2, **s) for s in SP]), net=True), TOY + NET + "(games, iterations, k) = (1,1,3), (1,2,3), (2,1,3) with all tables free; (2,2,3), (2,3,3), (3,2,3), (1,3,3) with the number of moves at the roots fixed; thorough adds (2,2,3) with two moves at both and (1,3,3) with two at the root; noise share 0", "longer searches and other games")
P("M13", jobs("alpha::single", al(dict(iterations=1, k=2), dict(iterations=2, k=2), dict(iterations=3, k=2), dict(iterations=1, k=3), dict(iterations=2, k=3, nm0=2, next0=1, alt0=2)), al(*[dict(iterations=2, k=3, **s) for s in SP]), net=True), TOY + NET + "(iterations, k) = (1,2), (2,2), (3,2), (1,3) with all tables free, (2,3) with the root's moves fixed; thorough (2,3) free; noise share 0", "longer searches and other games")
P("M14", jobs("alpha::puct", al(dict(iterations=1, k=2), dict(iterations=2, k=2), dict(iterations=3, k=2), dict(iterations=1, k=3, nm0=2), dict(iterations=2, k=3, nm0=2, next0=1, alt0=2)), al(*[dict(iterations=2, k=3, nm0=2, **s) for s in SP], *[dict(iterations=3, k=3, nm0=2, next0=1, alt0=2, **s) for s in SP]), net=True), TOY + NET + "(iterations, k) = (1,2), (2,2), (3,2), (1,3) with two moves at the root, (2,3) with the root's moves fixed; thorough (2,3) and (3,3) with two moves at the root; square roots of visit counts to 1e-5", "longer searches and other games")
def ln(*ps): return [dict(split=1, exists=0, **p) for p in ps]
LEARN = "games given by tables of k positions that follow one another, the last one being over, with turns without moves; either player; any priors and values; every draw of the generator; "
SELF = many(jobs("learn::one", ln(dict(k=3, two=2), dict(k=3, iterations=2, warm=1), dict(k=3, two=2, iterations=2, warm=1, nm0=2, nm1=1)), ln(dict(k=3, two=2, iterations=2, warm=1), dict(k=4), dict(k=4, two=2)), net=True),
    jobs("learn::many", ln(dict(k=3, limit=1), dict(k=3, limit=4, horder=1), dict(k=3, iterations=2, two=1, warm=1, start1=1, limit=4), dict(k=3, iterations=2, two=2, warm=1, start1=1, limit=4, nm0=2, nm1=1)), ln(dict(k=3, iterations=2, two=2, warm=1, start1=1, limit=4), dict(k=3, limit=2, horder=1), dict(k=4, limit=4)), net=True))
P("A01", SELF, LEARN + "one game, or two side by side with a round limit of 1 or 4 (thorough also 2), k = 3 (thorough 4), temperatures 1 and 2, the map of running games walked in any order", "more games and longer ones")
P("A02", SELF, LEARN + "one game, or two side by side with a round limit of 1 or 4 (thorough also 2), k = 3 (thorough 4), temperatures 1 and 2, the map of running games walked in any order", "more games and longer ones")
TRAIN = [dict(n=3, batch=2), dict(n=4, batch=3), dict(n=4, batch=2), dict(n=2, batch=5)]
P("A03", many(jobs("learn::train", [dict(exists=0, **p) for p in TRAIN], [dict(exists=0, n=5, batch=2), dict(exists=0, n=5, batch=8)], net=True), jobs("learn::train", [dict(exists=0, targets=1, **p) for p in TRAIN], [dict(exists=0, targets=1, n=5, batch=2)], native=False)), "2 to 4 (thorough 5) recorded turns in batches of 2, 3 and 5, any labels and policies, every order the shuffle can give", "the losses' own formulas, gradients and the optimizer's arithmetic are libtorch's; the part on targets is decided without a native replay, which cannot observe them")
P("A04", jobs("learn::loaded", [dict(given=g, exists=e, split=1) for g in (0, 1) for e in (0, 1)], net=True), "any weights (one stands for all of a network's) in the given model and in the stored best model, each present or not", "unreadable files")
P("A05", jobs("learn::stored", [dict(n=n, exists=0, split=1) for n in (1, 2, 3)], [dict(n=5, exists=0, split=1)], net=True), "1 to 3 (thorough 5) recorded turns, any labels and policies", "write errors")
def am(*ps): return [dict(split=1, dgrid=1, **p) for p in ps]
P("A06", jobs("versus::promotion", am(dict(exists=0, cut=0, end=0), dict(exists=1, cut=180, end=1), dict(exists=1, cut=181, end=1), dict(exists=1, cut=180, end=-1, direct=1), dict(exists=1, cut=181, end=-1, direct=1), dict(exists=1, cut=180, end=1, direct=1), dict(exists=1, cut=181, end=1, direct=1)), am(dict(exists=1), dict(exists=1, direct=1)), net=True),
    "matches of 400 games of which each is won by the better of two networks (which one is free) but 180 or 181 (thorough 0, 179 to 181 and 200) that have a given result; a best model stored or not", "other numbers of games won: they enter through one comparison")
S0 = dict(start0=0, start1=0, start2=1, start3=0)
P("V01", jobs("versus::tally", am(dict(exists=0, k=3, start3=0), dict(exists=0, endless=1), dict(exists=0, k=3, p2=1, **S0), dict(exists=0, k=3, p1=1, **S0), dict(exists=0, k=3, p1=2, nm0=1, nm1=1, **S0), dict(exists=0, k=3, p2=2, nm0=1, win2=1, **S0), dict(exists=0, k=3, p1=2, p2=1, nm0=1, nm1=1, win2=-1, **S0)),
    am(dict(exists=0, k=4, **S0), dict(exists=0, k=3, p2=1, start3=0), dict(exists=0, k=3, p1=2, **S0), dict(exists=0, k=3, p2=2, **S0)), net=True),
    "matches of 400 games given by tables of k=3 (thorough 4) positions with at most one move each, of which three games begin elsewhere than the others; turns without moves; one that never ends; random, searching and network players on either side", "players' choices between moves (see A06, M01, M12)")
LES = [dict(k=3, li=2, sp=2, ep=2), dict(k=3, par=1, paths=1, games=2, ep=1, sp=2), dict(k=3, par=1, paths=1, games=1, ep=2, sp=1)]
P("A07", jobs("learn::lesson", ln(*LES), ln(dict(k=3, par=1, paths=1, games=2, ep=2, sp=2), dict(k=3, li=3, sp=1, ep=1), dict(k=4, li=1, sp=2, ep=1, two=1)), net=True), LEARN + "2 iterations of 2 games and 2 passes (one-game self-play), 1 iteration of 2 batches of 2 games and 1 pass, or of 1 game and 2 passes (batch self-play), k = 3 (thorough 4)", "more iterations; several iterations of batch self-play, between which a match against the best model is played (A06)")
P("A08", jobs("learn::lesson", ln(dict(k=3, sp=2, par=1, paths=1, games=1, stored=1), dict(k=3, sp=2, par=1, paths=1, games=2, stored=1), dict(k=3, sp=3, par=1, paths=1, games=1, stored=1)), ln(dict(k=4, sp=2, par=1, paths=1, games=2, stored=1)), net=True), LEARN + "2 or 3 self-play iterations of 1 or 2 games, k = 3 (thorough 4)", "write errors; several learning iterations")
