import math
import random
import time

from .. import boot, core, game, refpoker

ID = "C27"
RULE = (
    "a case is an evaluator (any deck, hand size, mandatory hole cards, category order) and a "
    "number of hands; the hands given to the evaluator by the speed test are recorded and "
    "judged, and what it is used for before and after is compared; non-trivial if at "
    "least two hands are timed and they need more cards than the deck has"
)
EXAMPLES = {"quick": 800, "thorough": 20000}


def strategy(tier):
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        suits, ranks = draw(st.integers(1, 4)), draw(st.integers(1, 13))
        size = draw(st.integers(1, min(5, suits * ranks)))
        return {
            "suits": suits, "ranks": ranks, "size": size,
            "mandatory": draw(st.integers(0, min(size, 2))),
            "order": draw(st.none() | st.permutations(list(refpoker.SHORT)).map(list)),
            "hands": draw(st.sampled_from([1, 2, 5, 8, 9, 20, 40])),
            "seed": draw(st.integers(0, 2 ** 16)),
        }

    return cases()


def sweep(tier):
    for suits, ranks, size, hands in [
        (4, 13, 5, 400), (4, 13, 5, 3000), (3, 9, 4, 1500), (1, 2, 1, 100000),
        (2, 1, 1, 100003), (1, 1, 1, None), (2, 2, 2, 65537),
    ]:
        yield {"suits": suits, "ranks": ranks, "size": size, "mandatory": 0, "order": None,
               "hands": hands, "seed": suits + ranks}


def check(case, rec):
    clubs = boot.load()
    random.seed(case["seed"])
    evaluator = core.guarded(
        "Evaluator()", clubs.poker.Evaluator, case["suits"], case["ranks"], case["size"],
        case["mandatory"], order=case["order"],
    )
    cards = [game.pretty(c) for c in refpoker.deck(case["suits"], case["ranks"])]
    rng = random.Random(case["seed"])
    hand = [game.make_card(clubs, t) for t in rng.sample(cards, case["size"])]
    cut = case["mandatory"]
    before = str(evaluator), evaluator.evaluate(hand[:cut], hand[cut:])
    seen, spent = [], []
    plain = evaluator.evaluate

    def recorded(hole_cards, community_cards):
        seen.append(
            ([str(c) for c in hole_cards] + [str(c) for c in community_cards], len(hole_cards))
        )
        start = time.perf_counter()
        out = plain(hole_cards, community_cards)
        spent.append(time.perf_counter() - start)
        return out

    evaluator.evaluate = recorded
    num = 100000 if case["hands"] is None else case["hands"]  # the documented default
    args = [] if case["hands"] is None else [num]
    for _ in range(3):  # another clock may differ when the machine is busy
        del seen[:], spent[:]
        start = time.perf_counter()
        got = core.guarded(
            "speed_test(%s)" % case["hands"], evaluator.speed_test, *args
        )
        total = time.perf_counter() - start
        core.ensure(isinstance(got, float) and got > 0, "average time is %r", got)
        least, most = sum(spent) * 0.7, total * 1.01
        if least <= got * num <= most:
            break
    else:
        core.ensure(
            False, "%d hands take %r s each on average, but evaluating all took %r s and the "
            "speed test %r s", num, got, sum(spent), total,
        )
    del evaluator.evaluate
    if seen:  # otherwise it does not use evaluate()
        core.same(len(seen), num, "number of hands evaluated")
        size, known = min(7, len(cards)), set(cards)
        for idx, (drawn, hole) in enumerate(seen):
            if [len(drawn), hole] == [size, min(2, size)] and (
                len(set(drawn)) == size and set(drawn) <= known
            ):
                continue
            what = "hand %d of the speed test with %d suits and %d ranks: %s" % (
                idx, case["suits"], case["ranks"], drawn,
            )
            core.same(len(drawn), size, "number of cards of %s", what)
            core.same(hole, min(2, size), "number of hole cards of %s", what)
            core.same(len(set(drawn)), size, "number of different cards of %s", what)
            core.ensure(set(drawn) <= known, "cards of another deck: %s", what)
        # the chance that two of them are the same
        chance = num ** 2 / math.perm(len(cards), size)
        found = len({tuple(drawn) for drawn, _ in seen})
        if chance < 1e-4:
            core.same(found, num, "number of different hands of %d", num)
        elif len(cards) >= 20 and num >= 8:
            core.ensure(found > 1, "all hands are %s", seen[0])
    if len(cards) >= 20:
        # the random numbers go on from where they were
        states = []
        for seed in (case["seed"], case["seed"] + 1):
            random.seed(seed)
            core.guarded("speed_test(2)", evaluator.speed_test, 2)
            states.append([random.random() for _ in range(3)])
        core.ensure(states[0] != states[1], "random numbers after the speed test are always %s",
                    states[0])
    after = str(evaluator), evaluator.evaluate(hand[:cut], hand[cut:])
    core.same(after, before, "the evaluator after the speed test")
    rec.event("hands timed", len(seen))
    rec.event("speed tests without evaluate()", not seen)
    rec.mark(len(seen) > 1 and len(seen) * 7 > len(cards))
