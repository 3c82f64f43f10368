import random

from .. import boot, core, game, known, refpoker
from . import c11

ID = "C12"
RULE = (
    "sweep: all 520 decks ranked by rarity and one random order each; the categories, "
    "their order and the printed shares are compared with counts made by enumerating rank "
    "patterns, the category named for the rank of one hand of every pattern with the "
    "category of that hand; generated cases: random orders, orders which are no permutation, rank "
    "values in and out of range; non-trivial if at least two categories are possible"
)
EXAMPLES = {"quick": 1600, "thorough": 40000}
KNOWN = "three-suits-trips-kicker"


def strategy(tier):
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        suits = draw(st.integers(1, 4))
        ranks = draw(st.integers(1, 13))
        size = draw(st.integers(1, min(5, suits * ranks)))
        case = {
            "suits": suits, "ranks": ranks, "size": size, "low": draw(st.booleans()),
            "order": list(draw(st.permutations(list(refpoker.SHORT)))),
            "salt": draw(st.integers(0, 50)),
        }
        if draw(st.integers(0, 3)) == 3:
            case["drop"] = draw(st.integers(0, 8))
            case["replace"] = draw(
                st.sampled_from([None, "again", "again", "more", "added", "xx", "SF"])
            )
        return case

    return cases()


def sweep(tier):
    for idx, (suits, ranks, size, low) in enumerate(c11.decks()):
        if size > suits * ranks:
            continue
        for order in (None, True) if tier == "quick" else (None, True, True, True):
            keys = None
            if order:
                keys = list(refpoker.SHORT)
                random.Random(idx).shuffle(keys)
            yield {"suits": suits, "ranks": ranks, "size": size, "low": low,
                   "order": keys, "salt": idx}


def check(case, rec):
    clubs = boot.load()
    suits, ranks, size, low = (case[k] for k in ("suits", "ranks", "size", "low"))
    order = case["order"]
    what = "%d suits, %d ranks, %d cards, low straight %s, order %s" % (
        suits, ranks, size, low, order,
    )
    if "drop" in case:
        bad = list(order)
        if case["replace"] is None:
            del bad[case["drop"]]
        elif case["replace"] == "again":  # nine names, one twice and one not at all
            bad[case["drop"]] = bad[(case["drop"] + 1 + case["salt"] % 8) % 9]
        elif case["replace"] == "more":  # all nine names and one of them again
            bad.insert(case["salt"] % 10, bad[case["drop"]])
        elif case["replace"] == "added":
            bad.insert(case["drop"], "xx")
        else:
            bad[case["drop"]] = case["replace"]
        core.refused(
            "Evaluator with order %s" % bad, clubs.error.InvalidOrderError,
            clubs.poker.Evaluator, suits, ranks, size, order=bad,
        )
        rec.event("wrong orders refused")
        rec.mark()
    given = list(order) if order else None
    evaluator = core.guarded(
        "Evaluator(%s)" % what, clubs.poker.Evaluator, suits, ranks, size,
        low_end_straight=low, order=given,
    )
    core.same(given, order, "order given by the caller")
    printed = []
    for part in str(evaluator).split(" > "):
        name, _, share = part.rpartition(" (")
        core.ensure(
            share.endswith("%)"), "frequencies %r of %s", str(evaluator), what
        )
        printed.append((name, float(share[:-2])))
    true = refpoker.counts(suits, ranks, size, low)
    problem = judge(printed, true, order, what)
    if problem and KNOWN in known.entries(ID) and suits == 3 and size in (4, 5):
        # the listed finding: the kickers of three of a kind are not counted
        # with their suits
        wrong = dict(true)
        wrong["three of a kind"] = true["three of a kind"] // 3 ** (size - 3)
        if judge(printed, wrong, order, what) is None:
            rec.known_finding(KNOWN, what)
            rec.event("known finding seen")
            problem = None
    if problem:
        raise core.Violation(problem)
    names = [name for name, _ in printed]
    made = {c: clubs.Card(refpoker.name(c)) for c in refpoker.deck(suits, ranks)}
    top = core.guarded("the worst rank", lambda: evaluator.table.max_rank)
    for hand in c11.patterns(suits, ranks, size, case["salt"]):
        cards = [made[c] for c in hand]
        rank = core.guarded("evaluate()", evaluator.evaluate, cards, [])
        cat = refpoker.classify(hand, suits, ranks, low)[0]
        core.same(
            core.guarded(
                "get_rank_class(%r) with %s" % (rank, what), evaluator.get_rank_class, rank
            ),
            cat, "category named for the rank %r of %s (%s)", rank,
            [str(c) for c in cards], what,
        )
        rec.event("hands named")
    last = 0
    for rank in range(0, top + 1, max(1, top // 200)):
        cat = core.guarded("get_rank_class(%d)" % rank, evaluator.get_rank_class, rank)
        core.ensure(cat in names, "category %r of rank %d (%s)", cat, rank, what)
        core.ensure(
            names.index(cat) >= last, "rank %d is a %s, a lower rank was a %s (%s)", rank,
            cat, names[last], what,
        )
        last = names.index(cat)
    for rank in (-1, -5, top + 1, top + 2, top + 1000):
        core.refused(
            "get_rank_class(%d) with ranks up to %d (%s)" % (rank, top, what),
            clubs.error.InvalidHandRankError, evaluator.get_rank_class, rank,
        )
    rec.event("decks checked")
    rec.mark(len(names) > 1)


def judge(printed, counts, order, what):
    """What is wrong with the printed categories and shares, or None"""
    possible = {cat for cat, num in counts.items() if num}
    names = [name for name, _ in printed]
    if sorted(names) != sorted(possible):
        return "categories %s, possible are %s (%s)" % (names, sorted(possible), what)
    if order:
        want = [refpoker.SHORT[k] for k in order if refpoker.SHORT[k] in possible]
        if names != want:
            return "categories ranked %s, the order says %s (%s)" % (names, want, what)
    else:
        for one, two in zip(names, names[1:]):
            if counts[one] > counts[two]:
                return "%s (%d hands) is ranked above %s (%d hands) (%s)" % (
                    one, counts[one], two, counts[two], what,
                )
    total = sum(counts.values())
    for name, share in printed:
        if abs(share - 100 * counts[name] / total) > 0.00005001:
            return "share of %s is printed as %.4f%%, it is %d of %d (%s)" % (
                name, share, counts[name], total, what,
            )
    return None
