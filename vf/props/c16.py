import itertools
import math

from .. import boot, core, game, refpoker

ID = "C16"
RULE = (
    "a case is a generated game in which the win probabilities are asked at up to 6 "
    "moments where the board has at most a few hundred completions, and compared with an "
    "independent enumeration; non-trivial if the board is incomplete at some moment, or "
    "a player has folded"
)
EXAMPLES = {"quick": 8000, "thorough": 60000}
WORK = {"quick": 4000, "thorough": 12000}


def sweep(tier):
    """A few boards with tens of thousands of completions."""
    for num in range(8 if tier == "quick" else 80):
        players = 2 + num % 2
        size = 1 + num % 3
        yield {
            "config": {
                "num_players": players, "num_streets": 2, "blinds": [1, 2, 0][:players],
                "antes": 0, "raise_sizes": "inf", "num_raises": "inf", "num_suits": 4,
                "num_ranks": 13 - num % 4 % 3, "num_hole_cards": 1 + num % 2,
                "num_community_cards": [num // 3 % 2, 3], "num_cards_for_hand": size,
                "mandatory_num_hole_cards": 0, "start_stack": 50,
            },
            "stacks": None, "seed": 77 * num + 5, "ask": "01", "work": 10 ** 7,
            "hands": [{"rb": False, "rs": False, "trick": None, "style": 0,
                       "acts": "", "extra": 0}],
            "once": True,
        }


def strategy(tier):
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        case = draw(
            game.games(
                max_hands=2, max_acts=12, small_deck=draw(st.booleans()),
                max_players=draw(st.sampled_from([4, 3, 2, 6, 10])),
            )
        )
        case["ask"] = draw(st.binary(min_size=8, max_size=8)).hex()
        case["work"] = WORK[tier]
        return case

    return cases()


class Watch:
    def __init__(self, cfg, plan, work, rec, once=False):
        self.cfg, self.plan, self.work, self.rec = cfg, plan, work, rec
        self.once = once
        self.pos = 0
        self.asked = 0
        self.rules = None
        self.memo = {}

    def made(self, dealer):
        self.rules = game.rules_of(self.cfg, dealer)

    def after_reset(self, hand, dealer, raw):
        self.ask(hand, hand.first, dealer)

    def after_step(self, hand, dealer, step, raw):
        self.ask(hand, step.post, dealer)

    def best(self, hole, board):
        out = None
        for sel in self.rules.selections(hole, board):
            key = tuple(sorted(sel))
            if key not in self.memo:
                self.memo[key] = self.rules.strength(key)
            if out is None or self.memo[key] > out:
                out = self.memo[key]
        return out

    def ask(self, hand, obs, dealer):
        self.pos += 1
        if self.asked >= 6 or not self.plan[self.pos % len(self.plan)] & 1:
            return
        cfg = self.cfg
        board = [refpoker.parse(c) for c in obs.community_cards]
        holes = [[refpoker.parse(c) for c in cards] for cards in hand.hole]
        used = set(board).union(*holes)
        rest = [c for c in refpoker.deck(cfg.suits, cfg.ranks) if c not in used]
        missing = sum(cfg.comms) - len(board)
        have = cfg.hole + sum(cfg.comms)
        work = (
            math.comb(len(rest), missing) * sum(obs.active) * math.comb(have, cfg.size)
        )
        if work > self.work:
            self.rec.event("moments skipped: too many completions")
            return
        self.asked += 6 if self.once else 1
        before = (str(dealer.deck), len(dealer.deck), str(dealer))
        got = core.guarded("win_probabilities()", dealer.win_probabilities)
        again = core.guarded("win_probabilities()", dealer.win_probabilities)
        after = (str(dealer.deck), len(dealer.deck), str(dealer))
        core.same(after, before, "deck and table after win_probabilities()")
        core.same(again, got, "win_probabilities() asked twice")
        wins = [0] * cfg.n
        for more in itertools.combinations(rest, missing):
            full = board + list(more)
            values = {i: self.best(holes[i], full) for i in range(cfg.n) if obs.active[i]}
            top = max(values.values())
            for seat, value in values.items():
                wins[seat] += value == top
        want = [num / sum(wins) for num in wins]
        core.same(len(got), cfg.n, "number of win probabilities")
        what = "hole cards %s, board %s, unfolded %s" % (
            hand.hole, obs.community_cards, obs.active,
        )
        for seat in range(cfg.n):
            core.ensure(
                isinstance(got[seat], (int, float)) and abs(got[seat] - want[seat]) < 1e-9,
                "win probability of seat %d is %r, enumeration says %r (%s)",
                seat, got[seat], want[seat], what,
            )
        self.rec.event("moments compared")
        if math.comb(len(rest), missing) > 10000:
            self.rec.event("moments with more than 10000 completions")
        self.rec.event("missing board cards: %d" % missing)
        if obs.action == -1:
            self.rec.event("moments after the end")
        if not all(obs.active):
            self.rec.event("moments with folded or busted seats")
        if sum(w > 0 for w in wins) > 1 and sum(wins) > math.comb(len(rest), missing):
            self.rec.event("moments with ties")
        self.rec.mark(missing > 0 or not all(obs.active))


def check(case, rec):
    boot.load()
    cfg = game.Cfg(case["config"])
    game.play(case, Watch(cfg, bytes.fromhex(case["ask"]), case["work"], rec,
                          bool(case.get("once"))))
