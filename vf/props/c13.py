import itertools

from .. import boot, core, game, refpoker

ID = "C13"
RULE = (
    "a case is a deck, hand size, mandatory number of hole cards, distinct hole and "
    "community cards, a card order, a renaming of the suits and further community cards; "
    "non-trivial if there are at least two legal selections of different value"
)
EXAMPLES = {"quick": 16000, "thorough": 100000}


def strategy(tier):
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        suits = draw(st.sampled_from([4, 4, 3, 2, 1]))
        ranks = draw(st.sampled_from([13, 9, 5, 3, 8, 2, 1, 12, 4, 6, 7, 10, 11]))
        total = suits * ranks
        size = draw(st.integers(1, min(5, total)))
        mandatory = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5]))
        mandatory = min(mandatory, size)
        hole = draw(st.integers(mandatory, max(mandatory, draw(st.sampled_from([4, 4, 7])))))
        need = size - mandatory if mandatory else max(0, size - hole)
        comm = draw(st.integers(need, max(need, draw(st.sampled_from([5, 5, 7])))))
        if hole + comm > total:
            hole, comm = mandatory, need
            if not mandatory and hole + comm < size:
                comm = size
        picks = draw(st.binary(min_size=14, max_size=14)).hex()
        return {
            "suits": suits, "ranks": ranks, "size": size, "mandatory": mandatory,
            "hole": hole, "comm": comm, "picks": picks,
            "low": draw(st.booleans()),
            "order": list(draw(st.permutations(list(refpoker.SHORT))))
            if draw(st.integers(0, 3)) == 3 else None,
            "mix": draw(st.binary(min_size=10, max_size=10)).hex(),
            "names": draw(st.permutations(list(range(suits)))),
        }

    return cases()


def shuffled(items, data):
    rest, out = list(items), []
    for idx in range(len(items)):
        out.append(rest.pop(data[idx % len(data)] % len(rest)))
    return out


def check(case, rec):
    clubs = boot.load()
    suits, ranks, size = case["suits"], case["ranks"], case["size"]
    mandatory = case["mandatory"]
    order = list(case["order"]) if case["order"] else None
    evaluator = core.guarded(
        "Evaluator", clubs.poker.Evaluator, suits, ranks, size, mandatory,
        low_end_straight=case["low"], order=order,
    )
    names = [refpoker.SHORT[k] for k in order] if order else game.order_of(evaluator)
    rules = refpoker.Rules(suits, ranks, size, case["low"], names, mandatory)
    rest = refpoker.deck(suits, ranks)
    data = bytes.fromhex(case["picks"])
    picked = []
    for idx in range(case["hole"] + case["comm"]):
        picked.append(rest.pop((data[idx % 14] * 5 + idx // 14) % len(rest)))
    hole, comm = picked[: case["hole"]], picked[case["hole"]:]
    what = "%s + %s (%d cards, %d from the hole)" % (
        [refpoker.name(c) for c in hole], [refpoker.name(c) for c in comm], size, mandatory,
    )

    def value(hole, comm, how=""):
        one = [clubs.Card(refpoker.name(c)) for c in hole]
        two = [clubs.Card(refpoker.name(c)) for c in comm]
        kept = list(one), list(two)
        out = core.guarded("evaluate(%s)%s" % (what, how), evaluator.evaluate, one, two)
        core.ensure(
            len(one) == len(kept[0]) and len(two) == len(kept[1])
            and all(a is b for a, b in zip(one + two, kept[0] + kept[1])),
            "evaluate(%s) changed the cards it was given", what,
        )
        core.same(
            core.guarded("evaluate(%s) again" % what, evaluator.evaluate, one, two), out,
            "evaluate(%s) a second time", what,
        )
        return out

    plain = core.guarded(
        "Evaluator", clubs.poker.Evaluator, suits, ranks, size,
        low_end_straight=case["low"], order=order,
    )

    def judged(hole, comm, how=""):
        """The value, compared with that of the best selection"""
        best = max(rules.selections(hole, comm), key=rules.strength)
        direct = core.guarded(
            "evaluate of one hand", plain.evaluate,
            [clubs.Card(refpoker.name(c)) for c in best], [],
        )
        got = value(hole, comm, how)
        core.same(
            got, direct, "value of %s + %s (%s%s) against that of its best selection %s",
            [refpoker.name(c) for c in hole], [refpoker.name(c) for c in comm], what, how,
            [refpoker.name(c) for c in best],
        )
        return got

    got = judged(hole, comm)
    selections = list(rules.selections(hole, comm))
    mix = bytes.fromhex(case["mix"])
    core.same(
        value(shuffled(hole, mix), shuffled(comm, mix[3:] + mix[:3]), " in another order"),
        got, "value of %s in another order", what,
    )
    renamed = [[(r, case["names"][s]) for r, s in cards] for cards in (hole, comm)]
    core.same(value(*renamed), got, "value of %s with the suits renamed", what)
    if not mandatory:
        # without mandatory cards it does not matter whose card it is
        cut = mix[-1] % (len(picked) + 1)
        core.same(
            value(picked[:cut], picked[cut:], " split differently"), got,
            "value of %s split differently", what,
        )
    if mandatory:
        # which cards are hole cards matters: the same cards, other hole cards
        other = shuffled(picked, mix[1:])
        judged(other[: len(hole)], other[len(hole):], " split differently")
        fewer = mandatory + mix[-1] % (len(hole) + 1 - mandatory)
        judged(other[:fewer], other[fewer:], " split unevenly")
    # the same ranks in other suits
    resuited = []
    for idx, (rank, _) in enumerate(picked):
        free = [s for s in range(suits) if (rank, s) not in resuited]
        resuited.append((rank, free[mix[idx % 10] % len(free)]))
    judged(resuited[: len(hole)], resuited[len(hole):], " in other suits")
    core.same(value(hole, comm, " at last"), got, "value of %s after others", what)
    more = list(comm)
    last = got
    while rest and len(more) < len(comm) + 2:
        more.append(rest.pop(mix[0] % len(rest)))
        now = value(hole, more, " with more community cards")
        core.ensure(
            now <= last, "%s gets worse with %s: %d after %d", what,
            refpoker.name(more[-1]), now, last,
        )
        last = now
        rec.event("cards added")
    values = {rules.strength(s) for s in selections}
    rec.event("mandatory hole cards" if mandatory else "free selection")
    rec.event("selections", len(selections))
    rec.mark(len(values) > 1)
