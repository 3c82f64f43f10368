import contextlib
import copy
import io
import math
import pickle
import random

from .. import boot, core, game
from . import c23

ID = "C29"
RULE = (
    "a case is a session of up to 60 calls (reset, step, trick, untrick) in which the table "
    "is looked at in 15 ways in between, against the same session without looking; "
    "non-trivial if at least 4 calls follow a look"
)
EXAMPLES = {"quick": 9000, "thorough": 120000}
LOOKS = [
    "text", "name", "print", "mode", "chances", "later", "refused", "value", "deck", "cards",
    "deep", "pickle", "other", "speed", "evaluator",
]


def strategy(tier):
    from hypothesis import strategies as st

    byte = st.integers(0, 255)
    step = st.tuples(st.just("step"), byte, byte).map(list)
    reset = st.tuples(st.just("reset"), st.booleans(), st.booleans()).map(list)
    trick = st.binary(min_size=0, max_size=12).map(lambda b: ["trick", list(b)])
    look = st.tuples(st.just("look"), st.sampled_from(LOOKS), byte).map(list)
    some = st.lists(look, max_size=3)
    longest = 30 if tier == "quick" else 60

    @st.composite
    def cases(draw):
        cfg = draw(game.configs(small_deck=draw(st.booleans())))
        oper = st.one_of(step, step, step, step, step, step, reset, trick, st.just(["off"]))
        ops = [["reset", False, draw(st.booleans())]]
        if draw(st.booleans()):
            for steps in draw(st.lists(st.lists(step, min_size=1, max_size=10), min_size=1,
                                       max_size=3)):
                ops += steps + [["reset", False, False]]
        else:
            ops += draw(st.lists(oper, min_size=1, max_size=longest))
        mixed = draw(some)
        for one in ops:
            mixed = mixed + [one] + draw(some)
        return {
            "config": cfg, "stacks": draw(st.none() | game.stack_lists(cfg["num_players"])),
            "ops": mixed, "style": draw(st.integers(0, len(game.STYLES) - 1)),
            "seed": draw(st.integers(0, 2 ** 16)),
        }

    return cases()


class Player(c23.Player):
    """A player who does not seed the random numbers for each call"""

    rendered = False

    def seed(self, num):
        pass

    def view(self):
        """What can be seen of the table without calling any of its functions"""
        dealer = self.dealer
        return {
            "deck": [str(c) for c in dealer.deck.cards],
            "hole": [[str(c) for c in cards] for cards in dealer.hole_cards],
            "board": [str(c) for c in dealer.community_cards],
            "stacks": list(dealer.stacks),
        }

    def look(self, name, num):
        """What is seen; things that were given are spoiled afterwards"""
        return getattr(self, "look_" + name)(num)

    def look_text(self, num):
        return core.guarded("str() of the table", str, self.dealer)

    def look_name(self, num):
        return core.guarded("repr() of the table", repr, self.dealer)

    def look_print(self, num):
        self.rendered = True
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            core.guarded("render()", self.dealer.render, mode="ascii")
        return out.getvalue()

    def look_mode(self, num):
        if not self.rendered:
            core.refused(
                "render() with an unknown mode", self.clubs.error.InvalidRenderModeError,
                self.dealer.render, mode="mode %d" % num,
            )

    def look_chances(self, num):
        dealer = self.dealer
        if self.obs is None or self.obs.action < 0:
            return None
        rest = sum(self.cfg.comms) - len(dealer.community_cards)
        if not 0 < math.comb(len(dealer.deck.cards), rest) <= 60:
            return None
        chances = core.guarded("win_probabilities()", dealer.win_probabilities)
        seen = list(chances)
        chances[:] = [None]
        return seen

    def look_later(self, num):
        if self.obs is None or self.obs.action >= 0:
            return None
        bet = [0, -1, num, float("inf"), 0.5 * num][num % 5]
        raw = core.guarded("step(%s) after the end" % bet, self.dealer.step, bet)
        seen = copy.deepcopy([raw[0]["stacks"], raw[0]["pot"], raw[1], raw[2]])
        for part in (raw[0]["stacks"], raw[0]["active"], raw[1], raw[2]):
            part[:] = [None]
        return seen

    def look_refused(self, num):
        if sum(chips > 0 for chips in self.dealer.stacks) < 2:
            core.refused(
                "reset()", self.clubs.error.TooFewActivePlayersError, self.dealer.reset,
                reset_button=bool(num & 1),
            )

    def look_value(self, num):
        if self.obs is None:
            return None
        dealer = self.dealer
        hole, board = dealer.hole_cards[num % self.cfg.n], dealer.community_cards
        if len(hole) + len(board) < self.cfg.size or (
            len(board) < self.cfg.size - self.cfg.mandatory and self.cfg.mandatory
        ):
            return None
        value = core.guarded("evaluate()", dealer.evaluator.evaluate, hole, board)
        return value, core.guarded(
            "get_rank_class()", dealer.evaluator.get_rank_class, value
        )

    def look_deck(self, num):
        return core.guarded("str() of the deck", str, self.dealer.deck)

    def look_cards(self, num):
        cards = list(self.dealer.deck.cards)
        return [
            (str(c), int(c), c & 0xFF, 1 | c, c == cards[0], c << 1, c >> 1)
            for c in cards[:1 + num % 5]
        ]

    def look_deep(self, num):
        other = core.guarded("deep copy", copy.deepcopy, self.dealer)
        return str(other)

    def look_pickle(self, num):
        try:
            data = pickle.dumps(self.dealer)
        except (pickle.PicklingError, AttributeError, TypeError):
            return None
        return str(core.guarded("restoring", pickle.loads, data))

    def look_other(self, num):
        """Another table of the same kind is made and looked at"""
        other = game.build(self.clubs, self.case["config"])
        core.guarded("reset() of another table", other.reset)
        str(other)

    def look_speed(self, num):
        state = random.getstate()
        core.guarded("speed_test()", self.dealer.evaluator.speed_test, 1 + num % 3)
        random.setstate(state)

    def look_evaluator(self, num):
        return core.guarded("str() of the evaluator", str, self.dealer.evaluator)


def session(clubs, case, rec):
    """What is seen of the calls, with looks in between if there is a recorder"""
    random.seed(case["seed"])
    dealer = game.build(clubs, case["config"])
    for idx, chips in enumerate(case["stacks"] or []):
        dealer.stacks[idx] = chips
    player = Player(clubs, case, dealer)
    random.seed(case["seed"] + 1)
    seen, looks, after = [], [], 0
    for num, oper in enumerate(case["ops"]):
        if oper[0] != "look":
            looks.append(oper)
            seen.append((looks[-6:], player.do(num, oper)))
            after += len(looks) > len(seen)
            continue
        if rec is None:
            continue
        name, byte = oper[1:]
        what = "%s after %s" % (name, looks[-6:])
        if name == "speed" and case["config"].get("mandatory_num_hole_cards", 0) > 2:
            continue
        before = random.getstate()
        first = player.look(name, byte)
        # what else is made may take random numbers
        if name != "other":
            core.ensure(random.getstate() == before, "%s took random numbers", what)
        else:
            random.setstate(before)
        core.same(player.look(name, byte), first, "looking again: %s", what)
        if name == "other":
            random.setstate(before)
        looks.append(oper)
        rec.event("look: " + name)
    seen.append((looks[-6:], player.look_text(0)))
    return seen, after


def check(case, rec):
    clubs = boot.load()
    want, _ = session(clubs, case, None)
    got, after = session(clubs, case, rec)
    core.same(len(got), len(want), "number of calls")
    for (history, one), (_, two) in zip(got, want):
        core.same(one, two, "a table that was looked at: result after %s", history)
    rec.event("calls compared", len(got))
    rec.mark(after >= 4)
