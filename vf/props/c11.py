import itertools
import random

from .. import boot, core, game, refpoker

ID = "C11"
RULE = (
    "sweep: for each of the 520 decks (1-4 suits, 1-13 ranks, hand size 1-5, low straight "
    "on/off) one hand of every rank pattern, suited and unsuited, all compared with each "
    "other; generated cases: random decks, category orders and up to 40 random hands split "
    "anyhow into hole and community cards; a case is non-trivial if it has at least two "
    "categories or two ranks of hands"
)
EXAMPLES = {"quick": 2500, "thorough": 60000}


def decks():
    for suits, ranks, size, low in itertools.product(
        range(1, 5), range(1, 14), range(1, 6), (True, False)
    ):
        yield suits, ranks, size, low


def strategy(tier):
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        suits = draw(st.integers(1, 4))
        ranks = draw(st.integers(1, 13))
        size = draw(st.integers(1, min(5, suits * ranks)))
        num = draw(st.sampled_from([10, 40, 3]))
        return {
            "suits": suits,
            "ranks": ranks,
            "size": size,
            "low": draw(st.booleans()),
            "order": list(draw(st.permutations(list(refpoker.SHORT))))
            if draw(st.booleans()) else None,
            "hands": draw(
                st.lists(st.binary(min_size=size, max_size=size), min_size=num,
                         max_size=num)
            ) and [draw(st.binary(min_size=6, max_size=6)).hex() for _ in range(num)],
        }

    return cases()


def sweep(tier):
    for idx, (suits, ranks, size, low) in enumerate(decks()):
        if size > suits * ranks:
            continue
        yield {"suits": suits, "ranks": ranks, "size": size, "low": low, "order": None,
               "patterns": idx}
        if tier == "thorough" or idx % 5 == 0:
            keys = list(refpoker.SHORT)
            random.Random(idx).shuffle(keys)
            yield {"suits": suits, "ranks": ranks, "size": size, "low": low,
                   "order": keys, "patterns": idx}


def patterns(suits, ranks, size, salt):
    """One hand of every rank multiset, suited too where that is possible; the
    suits are picked by the salt."""
    import collections

    for rs in itertools.combinations_with_replacement(range(13 - ranks, 13), size):
        cnt = collections.Counter(rs)
        if max(cnt.values()) > suits:
            continue
        if len(cnt) == size:
            shift = (sum(rs) + salt) % suits
            yield [(r, shift) for r in rs]
            if suits > 1 and size > 1:
                # one card of another suit
                odd = (sum(rs) * 7 + salt) % size
                yield [
                    (r, (shift + (i == odd)) % suits) for i, r in enumerate(rs)
                ]
        else:
            used = collections.Counter()
            hand = []
            for r in rs:
                hand.append((r, (used[r] + r + salt) % suits))
                used[r] += 1
            yield hand


def unpack(deck, size, text):
    rest = list(deck)
    data = bytes.fromhex(text)
    return [rest.pop((data[i] * 7 + data[5]) % len(rest)) for i in range(size)]


def check(case, rec):
    clubs = boot.load()
    suits, ranks, size, low = (case[k] for k in ("suits", "ranks", "size", "low"))
    what = "%d suits, %d ranks, %d cards, low straight %s, order %s" % (
        suits, ranks, size, low, case["order"],
    )
    evaluator = core.guarded(
        "Evaluator(%s)" % what, clubs.poker.Evaluator, suits, ranks, size,
        low_end_straight=low, order=list(case["order"]) if case["order"] else None,
    )
    if case["order"]:
        order = [refpoker.SHORT[k] for k in case["order"]]
    else:
        order = game.order_of(evaluator)
    rules = refpoker.Rules(suits, ranks, size, low, order)
    deck = refpoker.deck(suits, ranks)
    if "patterns" in case:
        hands = list(patterns(suits, ranks, size, case["patterns"]))
        split = case["patterns"]
    else:
        hands = [unpack(deck, size, text) for text in case["hands"]]
        split = 0
    made = {c: clubs.Card(refpoker.name(c)) for c in deck}
    found = []
    top = core.guarded("the worst rank", lambda: evaluator.table.max_rank)
    for idx, hand in enumerate(hands):
        cards = [made[c] for c in hand]
        cut = (idx + split) % (size + 1)
        rank = core.guarded(
            "evaluate(%s) with %s" % ([str(c) for c in cards], what),
            evaluator.evaluate, cards[:cut], cards[cut:],
        )
        cat = refpoker.classify(hand, suits, ranks, low)[0]
        core.ensure(
            cat in rules.pos, "%s is impossible with %s says the evaluator, but %s is one",
            cat, what, [str(c) for c in cards],
        )
        core.ensure(
            isinstance(rank, int) and 0 <= rank <= top,
            "rank of %s is %r, not within 0..%r (%s)", [str(c) for c in cards], rank, top,
            what,
        )
        found.append((rules.strength(hand), rank, hand))
    found.sort(key=lambda item: item[0], reverse=True)
    for (s1, r1, h1), (s2, r2, h2) in zip(found, found[1:]):
        names = "%s and %s (%s)" % (
            [refpoker.name(c) for c in h1], [refpoker.name(c) for c in h2], what,
        )
        if s1 == s2:
            core.ensure(r1 == r2, "equal hands have ranks %d and %d: %s", r1, r2, names)
        else:
            core.ensure(
                r1 < r2, "the first hand is better but the ranks are %d and %d: %s",
                r1, r2, names,
            )
    rec.event("hands compared", len(found))
    rec.event("pairs with equal strength", sum(
        a[0] == b[0] for a, b in zip(found, found[1:])
    ))
    rec.mark(len({s for s, _, _ in found}) > 1)
