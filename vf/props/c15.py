import itertools
import random

from .. import boot, core, game, refpoker

ID = "C15"
RULE = (
    "a case is a deck size, a seed and up to 30 operations (draw, shuffle, trick, untrick, "
    "len, text); a list model with the tricked prefix judges every result; the sweep also "
    "checks that all orders of up to 4 free cards occur, and that every free card reaches "
    "every place and follows every other, and that no order of 20 or more cards comes twice; "
    "non-trivial if a trick is followed by a shuffle, "
    "or a draw exceeds the cards left"
)
EXAMPLES = {"quick": 18000, "thorough": 200000}
ASSUMPTIONS = [
    "600 shuffles miss one of the orders of up to 4 free cards, and 1500 shuffles one of "
    "the places, neighbours or parities, with a chance below 1e-8, and 20000 shuffles of 20 "
    "or more cards give the same order twice with a chance below 1e-9"
]


def strategy(tier):
    from hypothesis import strategies as st

    picks = st.binary(min_size=0, max_size=52).map(list)
    op = st.one_of(
        st.tuples(st.just("draw"), st.one_of(st.integers(0, 6), st.integers(0, 60))),
        st.tuples(st.just("draw1")),
        st.tuples(st.just("shuffle")),
        st.tuples(st.just("shuffle")),
        st.tuples(st.just("trick"), picks),
        st.tuples(st.just("trickall")),
        st.tuples(st.just("untrick")),
    )
    return st.fixed_dictionaries({
        "kind": st.just("ops"),
        "suits": st.integers(1, 4),
        "ranks": st.integers(1, 13),
        "seed": st.integers(0, 10 ** 6),
        "ops": st.lists(op, min_size=1, max_size=30 if tier == "quick" else 80),
    })


def sweep(tier):
    for suits, ranks in itertools.product(range(1, 5), range(1, 14)):
        total = suits * ranks
        for free in range(0, min(4, total) + 1):
            if total > 4 and (suits * 7 + ranks + free) % (4 if tier == "quick" else 1):
                continue
            yield {"kind": "orders", "suits": suits, "ranks": ranks, "free": free,
                   "seed": total}
    for suits, ranks in ((4, 13), (4, 9), (2, 3), (3, 7), (1, 13), (4, 2)):
        for num, top in enumerate((0, 0, 1, 5, suits * ranks // 2)):
            if top < suits * ranks:
                yield {"kind": "tops", "suits": suits, "ranks": ranks, "seed": 5 + top,
                       "top": top, "untrick": num == 1,
                       "times": 20000 if tier == "thorough" and num < 3 else 1500}


def check(case, rec):
    clubs = boot.load()
    rec.event(case["kind"])
    full = [game.pretty(c) for c in refpoker.deck(case["suits"], case["ranks"])]
    random.seed(case["seed"])
    deck = core.guarded("Deck()", clubs.Deck, case["suits"], case["ranks"])
    {"ops": ops, "orders": orders, "tops": tops}[case["kind"]](
        clubs, deck, full, case, rec
    )


def shown(deck, what):
    """The undrawn cards as the deck lists them."""
    text = core.guarded("str(deck) after %s" % what, str, deck)
    core.ensure(text[0] == "[" and text[-1] == "]", "text of the deck: %r", text)
    cards = text[1:-1].split(",") if len(text) > 2 else []
    core.same(
        core.guarded("len(deck) after %s" % what, len, deck), len(cards),
        "len(deck) after %s", what,
    )
    return cards


def ops(clubs, deck, full, case, rec):
    rest = shown(deck, "making it")
    core.same(sorted(rest), sorted(full), "cards of a new deck")
    drawn = []
    top = None
    for op in case["ops"]:
        name = op[0]
        what = "%s(%s)" % (name, op[1] if len(op) > 1 else "")
        if name in ("draw", "draw1"):
            num = op[1] if name == "draw" else 1
            if num > len(rest):
                rec.event("draws beyond the end")
                rec.mark()
            if name == "draw":
                got = core.guarded(what, deck.draw, num)
            else:
                got = core.guarded(what, deck.draw)
            core.ensure(isinstance(got, list), "%s returns %r", what, got)
            got = [str(c) for c in got]
            core.same(got, rest[:num], "cards of %s with %d cards left", what, len(rest))
            drawn += got
            rest = rest[num:]
            core.same(shown(deck, what), rest, "undrawn cards after %s", what)
        elif name == "shuffle":
            out = core.guarded(what, deck.shuffle)
            core.ensure(out is deck, "shuffle() returns %r", out)
            rest = shown(deck, what)
            drawn = []
            core.same(sorted(rest), sorted(full), "cards after shuffle()")
            if top is not None:
                core.same(
                    rest[: len(top)], top, "cards on top after a shuffle, tricked"
                )
                rec.event("tricked shuffles")
                rec.mark()
        elif name in ("trick", "trickall"):
            picks = op[1] if name == "trick" else list(range(5, 57))
            left, top = list(full), []
            for pick in picks:
                if left:
                    top.append(left.pop(pick % len(left)))
            cards = [game.make_card(clubs, t) for t in top]
            out = core.guarded("trick(%s)" % top, deck.trick, cards)
            core.ensure(out is deck, "trick() returns %r", out)
            core.same([str(c) for c in cards], top, "list given to trick()")
            check_kept(shown(deck, what), rest, drawn, full, what)
            rest = shown(deck, what)
            if len(top) == len(full):
                rec.event("whole deck tricked")
        else:
            out = core.guarded(what, deck.untrick)
            core.ensure(out is deck, "untrick() returns %r", out)
            top = None
            check_kept(shown(deck, what), rest, drawn, full, what)
            rest = shown(deck, what)
        core.same(sorted(rest + drawn), sorted(full), "cards in all after %s", what)


def check_kept(now, rest, drawn, full, what):
    """Tricking takes effect at the next shuffle; it may not lose cards."""
    core.same(now, rest, "undrawn cards after %s", what)


def orders(clubs, deck, full, case, rec):
    free = case["free"]
    fixed = full[: len(full) - free][::-1]
    if fixed:
        core.guarded("trick()", deck.trick, [game.make_card(clubs, t) for t in fixed])
    seen = set()
    for _ in range(600):
        core.guarded("shuffle()", deck.shuffle)
        cards = [str(c) for c in deck.draw(len(full))]
        core.same(cards[: len(fixed)], fixed, "tricked cards")
        seen.add(tuple(cards[len(fixed):]))
    want = set(itertools.permutations(full[len(full) - free:]))
    core.same(sorted(seen), sorted(want), "orders of the free cards in 600 shuffles")
    rec.event("orders seen", len(seen))
    rec.mark(free > 1)


def parity(cards):
    order = sorted(cards)
    places = [order.index(card) for card in cards]
    odd, done = 0, set()
    for start in range(len(places)):
        num, length = start, 0
        while num not in done:
            done.add(num)
            num = places[num]
            length += 1
        odd += max(0, length - 1)
    return odd % 2


def tops(clubs, deck, full, case, rec):
    top = full[:: len(full) // case["top"]][: case["top"]] if case["top"] else []
    free = [card for card in full if card not in top]
    if top:
        core.guarded("trick()", deck.trick, [game.make_card(clubs, t) for t in top])
    if case["top"] == 0 and case["untrick"]:
        core.guarded("trick()", deck.trick, [game.make_card(clubs, full[1])])
        core.guarded("shuffle()", deck.shuffle)
        core.guarded("untrick()", deck.untrick)
    places = {card: set() for card in free}
    before = {card: set() for card in free}
    seen, parities = set(), set()
    for _ in range(case["times"]):
        core.guarded("shuffle()", deck.shuffle)
        cards = [str(c) for c in deck.draw(len(full))]
        core.same(cards[: len(top)], top, "tricked cards")
        del cards[: len(top)]
        seen.add(hash(tuple(cards)))
        if len(cards) < 60:
            parities.add(parity(cards))
        for idx, card in enumerate(cards):
            places[card].add(idx)
            if idx:
                before[card].add(cards[idx - 1])
    for card in free:
        core.same(
            sorted(places[card]), list(range(len(free))),
            "places of %s among the free cards in 1500 shuffles", card,
        )
        core.same(
            sorted(before[card]), sorted(set(free) - {card}),
            "cards seen right before %s in 1500 shuffles", card,
        )
    if len(free) > 1:
        core.same(len(parities), 2, "parities of the orders seen")
    if len(free) >= 20:
        # 20 cards have 2 * 10 ** 18 orders: none comes twice
        core.same(len(seen), case["times"], "different orders of %d cards in as many "
                  "shuffles", len(free))
        rec.event("orders that were all different", len(seen))
    rec.event("free cards whose places were counted", len(free))
    rec.mark()
