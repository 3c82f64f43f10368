import copy
import pickle
import random

from .. import boot, core, game, refpoker

ID = "C23"
RULE = (
    "a table case is a configuration, optional stacks, up to 40 calls (reset, step, trick, "
    "untrick) and a moment between them at which the table is copied (deep copy, pickle "
    "round trip, copy of a copy); copy and original then go on in any order with the same "
    "random numbers, or the copy goes elsewhere first; a parts case copies a deck between "
    "its operations and evaluators and cards; non-trivial if at least 4 calls are compared "
    "after the copy was made"
)
EXAMPLES = {"quick": 9000, "thorough": 90000}
MAKERS = {
    "deep": copy.deepcopy,
    "pickle": None,
    "pickle2": None,
    "twice": lambda thing: copy.deepcopy(copy.deepcopy(thing)),
}


def strategy(tier):
    from hypothesis import strategies as st

    byte = st.integers(0, 255)
    step = st.tuples(st.just("step"), byte, byte).map(list)
    reset = st.tuples(st.just("reset"), st.booleans(), st.booleans()).map(list)
    trick = st.binary(min_size=0, max_size=12).map(lambda b: ["trick", list(b)])
    oper = st.one_of(step, step, step, step, step, step, reset, trick, st.just(["off"]))
    longest = 30 if tier == "quick" else 60

    @st.composite
    def tables(draw):
        cfg = draw(game.configs())
        stacks = draw(st.none() | game.stack_lists(cfg["num_players"]))
        if draw(st.booleans()):
            hand = st.lists(step, min_size=1, max_size=12)
            ops = []
            for steps in draw(st.lists(hand, min_size=1, max_size=4)):
                ops += [["reset", False, False]] + steps
        else:
            ops = draw(st.lists(oper, min_size=1, max_size=longest))
        ops = [["reset", False, draw(st.booleans())]] + ops
        return {
            "kind": "table", "config": cfg, "stacks": stacks, "ops": ops,
            "style": draw(st.integers(0, len(game.STYLES) - 1)),
            "at": draw(st.integers(0, len(ops) - 1)),
            "how": draw(st.sampled_from(sorted(MAKERS))),
            "order": draw(st.sampled_from(["original", "copy", "turns", "astray"])),
            "seed": draw(st.integers(0, 2 ** 16)),
        }

    @st.composite
    def parts(draw):
        suits, ranks = draw(st.integers(1, 4)), draw(st.integers(1, 13))
        oper = st.one_of(
            st.integers(0, 9).map(lambda n: ["draw", n]), st.just(["shuffle"]), trick,
            st.just(["off"]),
        )
        size = draw(st.integers(1, min(5, suits * ranks)))
        return {
            "kind": "parts", "suits": suits, "ranks": ranks, "size": size,
            "low": draw(st.booleans()), "mandatory": draw(st.integers(0, size)),
            "order": draw(st.none() | st.permutations(list(refpoker.SHORT)).map(list)),
            "ops": draw(st.lists(oper, min_size=1, max_size=12)),
            "at": draw(st.integers(0, 11)), "how": draw(st.sampled_from(sorted(MAKERS))),
            "seed": draw(st.integers(0, 2 ** 16)),
        }

    return st.one_of(tables(), tables(), tables(), parts())


def check(case, rec):
    clubs = boot.load()
    rec.event(case["kind"])
    rec.event("copied by " + case["how"])
    (table if case["kind"] == "table" else parts)(clubs, case, rec)


def made(case, thing, what):
    """A copy; what cannot be pickled at all is copied deeply"""
    how = case["how"]
    if how.startswith("pickle"):
        try:
            with core.cpu_limit():
                data = pickle.dumps(thing, 2 if how == "pickle2" else None)
        except (pickle.PicklingError, AttributeError, TypeError):
            how = "deep"
        else:
            return core.guarded("restoring the %s from its pickle" % what, pickle.loads, data)
    return core.guarded("copying the %s (%s)" % (what, how), MAKERS[how], thing)


def view(dealer):
    """What can be seen of a table"""
    return {
        "text": core.guarded("str() of the table", str, dealer),
        "deck": [str(c) for c in dealer.deck.cards],
        "hole": [[str(c) for c in cards] for cards in dealer.hole_cards],
        "board": [str(c) for c in dealer.community_cards],
        "stacks": list(dealer.stacks),
    }


class Player:
    """One table with what has been seen of it"""

    def __init__(self, clubs, case, dealer):
        self.clubs, self.case, self.dealer = clubs, case, dealer
        self.cfg = game.Cfg(case["config"])
        self.obs = None

    def twin(self, dealer):
        out = Player(self.clubs, self.case, dealer)
        out.obs = self.obs
        return out

    def seed(self, num):
        random.seed(self.case["seed"] + num)

    def view(self):
        return view(self.dealer)

    def do(self, num, oper):
        """Result of one call, with the random numbers of its place"""
        self.seed(num)
        dealer, name = self.dealer, oper[0]
        if name == "trick":
            cards = game.arrangement(self.cfg, oper[1])
            dealer.deck.trick([game.make_card(self.clubs, t) for t in cards])
            return None
        if name == "off":
            dealer.deck.untrick()
            return None
        if name == "reset" or self.obs is None:
            full = name == "reset" and oper[2]
            if not full and sum(chips > 0 for chips in dealer.stacks) < 2:
                core.refused(
                    "reset()", self.clubs.error.TooFewActivePlayersError, dealer.reset
                )
                return "refused"
            raw = core.guarded(
                "reset()", dealer.reset, reset_button=name == "reset" and oper[1],
                reset_stacks=full,
            )
            self.obs = game.Obs(raw, self.cfg.n)
            return [self.obs.plain(), self.view()]
        bet = game.decode(self.case["style"], oper[1], oper[2], self.obs)
        raw = core.guarded("step(%s)" % bet, dealer.step, bet)
        step = game.make_step(self.cfg, bet, self.obs, raw)
        self.obs = step.post
        return [bet, step.post.plain(), step.payouts, step.done, self.view()]


def table(clubs, case, rec):
    random.seed(case["seed"])
    dealer = game.build(clubs, case["config"])
    for idx, chips in enumerate(case["stacks"] or []):
        dealer.stacks[idx] = chips
    left = Player(clubs, case, dealer)
    ops = list(enumerate(case["ops"]))
    for num, oper in ops[:case["at"]]:
        left.do(num, oper)
    before = view(dealer)
    right = left.twin(made(case, dealer, "table"))
    core.same(view(dealer), before, "the table after it was copied")
    core.same(view(right.dealer), before, "the copy of the table")
    ops = ops[case["at"]:]
    order = case["order"]
    rec.event("order: " + order)
    what = "call %d (%s) on the copy against the original"
    if order == "turns":
        for num, oper in ops:
            want = left.do(num, oper)
            got = right.do(num, oper)
            core.same(got, want, what, num, oper)
    else:
        if order == "astray":
            # a second copy is played otherwise and must not matter
            third = right.twin(made(case, right.dealer, "copied table"))
            for num, oper in ops:
                third.do(num + 77, ["step", 255 - oper[1], oper[2]] if oper[0] == "step"
                         else ["reset", True, True])
        first, second = (right, left) if order == "copy" else (left, right)
        seen = [first.do(num, oper) for num, oper in ops]
        core.same(view(second.dealer), before, "the other table after one played on")
        for (num, oper), want in zip(ops, seen):
            core.same(second.do(num, oper), want, what, num, oper)
    rec.event("calls compared", len(ops))
    if left.obs is not None:
        rec.event("copied in a hand" if left.obs.action >= 0 else "hands over at the end")
    rec.mark(len(ops) >= 4)


def parts(clubs, case, rec):
    random.seed(case["seed"])
    cards = [game.pretty(c) for c in refpoker.deck(case["suits"], case["ranks"])]
    deck = clubs.Deck(case["suits"], case["ranks"])
    other = None
    for num, oper in enumerate(case["ops"]):
        if num == case["at"] % len(case["ops"]):
            other = made(case, deck, "deck")
            core.same(str(other), str(deck), "text of the copied deck")
        seen = []
        for one in [deck] + [other] * (other is not None):
            random.seed(case["seed"] + num)
            out = None
            if oper[0] == "draw":
                out = [str(c) for c in one.draw(oper[1])]
            elif oper[0] == "shuffle":
                one.shuffle()
            elif oper[0] == "off":
                one.untrick()
            else:
                rest, picks = list(cards), []
                for pick in oper[1][:len(rest)]:
                    picks.append(rest.pop(pick % len(rest)))
                one.trick([game.make_card(clubs, t) for t in picks])
            seen.append([out, str(one), len(one)])
        if len(seen) > 1:
            core.same(seen[1], seen[0], "%s on the copied deck", oper)
    evaluator = core.guarded(
        "Evaluator()", clubs.poker.Evaluator, case["suits"], case["ranks"], case["size"],
        case["mandatory"], low_end_straight=case["low"], order=case["order"],
    )
    other = made(case, evaluator, "evaluator")
    core.same(str(other), str(evaluator), "text of the copied evaluator")
    rng = random.Random(case["seed"])
    for _ in range(6):
        hand = [game.make_card(clubs, t) for t in rng.sample(cards, case["size"])]
        twins = [made(case, c, "card") for c in hand]
        core.ensure(
            all(a == b and str(a) == str(b) and int(a) == int(b) for a, b in zip(hand, twins)),
            "copied cards differ: %s", [str(c) for c in hand],
        )
        cut = case["mandatory"] or rng.randint(0, case["size"])
        want = core.guarded("evaluate()", evaluator.evaluate, hand[:cut], hand[cut:])
        got = core.guarded("evaluate() of a copy", other.evaluate, twins[:cut], twins[cut:])
        core.same(got, want, "value of %s by the copied evaluator", [str(c) for c in hand])
        name = core.guarded("get_rank_class()", evaluator.get_rank_class, want)
        core.same(
            core.guarded("get_rank_class() of a copy", other.get_rank_class, want), name,
            "category of a value by the copied evaluator",
        )
    rec.mark(len(case["ops"]) >= 4)
