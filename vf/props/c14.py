import itertools

from .. import boot, core

ID = "C14"
RULE = (
    "sweep: all cards in every spelling, all pairs of cards, all pairs of printable ASCII "
    "characters; generated cases: a card, a second card, integers and other operands, and "
    "arbitrary two-character strings; every case is non-trivial except repeated ones"
)
EXAMPLES = {"quick": 12000, "thorough": 200000}
RANKS = "23456789TJQKA"
SUITS = "SHDC"
SYMBOLS = "\u2660\u2665\u2666\u2663"
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41]


def strategy(tier):
    from hypothesis import strategies as st

    card = st.tuples(st.integers(0, 12), st.integers(0, 3), st.integers(0, 3))
    char = st.one_of(
        st.sampled_from("23456789TJQKAtjqkaSHDCshdc"),
        st.characters(codec="utf-8", exclude_categories=["Cs"]),
        st.sampled_from(" 01xX\u2660\u2663\x00"),
    )
    num = st.one_of(
        st.integers(-(2 ** 40), 2 ** 40), st.sampled_from([0, 1, -1, 0xF000, 0xFF]),
        st.integers(0, 2 ** 32),
    )
    other = st.one_of(
        st.none(), st.integers(-5, 5), st.text(max_size=3), st.booleans(),
        st.lists(st.integers(), max_size=2), st.floats(allow_nan=False, width=16),
        st.sampled_from(["A\u2660", "AS", 268442665, 69634]),
    )
    return st.one_of(
        st.fixed_dictionaries({
            "kind": st.just("card"), "card": card, "other": card, "num": num,
            "shift": st.integers(0, 70), "thing": other,
        }),
        st.fixed_dictionaries({
            "kind": st.just("text"), "text": st.tuples(char, char).map("".join),
        }),
    )


def sweep(tier):
    for rank, suit, case in itertools.product(range(13), range(4), range(4)):
        yield {"kind": "card", "card": [rank, suit, case], "other": [12 - rank, suit, 0],
               "num": 1 << rank, "shift": rank, "thing": None}
    for rank, suit in itertools.product(range(13), range(4)):
        yield {"kind": "pairs", "card": [rank, suit]}
    for code in range(32, 127):
        yield {"kind": "column", "first": chr(code)}


def spell(card):
    rank, suit, case = card
    one, two = RANKS[rank], SUITS[suit]
    return (one.lower() if case & 1 else one) + (two.lower() if case & 2 else two)


def number(rank, suit):
    return (1 << (16 + rank)) | (1 << (12 + suit)) | (rank << 8) | PRIMES[rank]


def make(clubs, card):
    return core.guarded("Card(%r)" % spell(card), clubs.Card, spell(card))


def check(case, rec):
    clubs = boot.load()
    rec.event(case["kind"])
    if case["kind"] == "text":
        return text(clubs, case["text"], rec)
    if case["kind"] == "column":
        for code in range(32, 127):
            text(clubs, case["first"] + chr(code), rec)
        return
    if case["kind"] == "pairs":
        return pairs(clubs, case["card"], rec)
    rec.mark()
    rank, suit, _ = case["card"]
    card = make(clubs, case["card"])
    shown = RANKS[rank] + SYMBOLS[suit]
    name = spell(case["card"])
    core.same(core.guarded("str", str, card), shown, "text of Card(%r)", name)
    core.ensure(
        shown in core.guarded("repr", repr, card), "repr of Card(%r): %r", name, repr(card)
    )
    core.same((card.rank, card.suit), (RANKS[rank], SYMBOLS[suit]), "rank, suit of %s", name)
    want = number(rank, suit)
    core.same(core.guarded("int", int, card), want, "int(Card(%r))", name)
    num, shift = case["num"], case["shift"]
    other = make(clubs, case["other"])
    value = number(*case["other"][:2])
    table = [
        ("card & %d" % num, lambda: card & num, want & num),
        ("%d & card" % num, lambda: num & card, want & num),
        ("card | %d" % num, lambda: card | num, want | num),
        ("%d | card" % num, lambda: num | card, want | num),
        ("card & card", lambda: card & other, want & value),
        ("card | card", lambda: card | other, want | value),
        ("card << %d" % shift, lambda: card << shift, want << shift),
        ("card >> %d" % shift, lambda: card >> shift, want >> shift),
    ]
    for what, fn, result in table:
        got = core.guarded("%s with %s" % (what, name), fn)
        core.same(got, result, "%s with %s", what, name)
    equal(card, other, case["card"][:2] == case["other"][:2])
    thing = case["thing"]
    for what, fn in (
        ("==", lambda: card == thing), ("!=", lambda: card != thing),
        ("on the right of ==", lambda: thing == card),
        ("on the right of !=", lambda: thing != card),
        ("in list", lambda: card in [thing]),
    ):
        core.refused(
            "%s %s %r" % (name, what, thing), (NotImplementedError, TypeError), fn
        )


def equal(one, two, want):
    core.same(core.guarded("==", lambda: one == two), want, "%s == %s", one, two)
    core.same(core.guarded("!=", lambda: one != two), not want, "%s != %s", one, two)


def pairs(clubs, card, rec):
    one = make(clubs, list(card) + [0])
    for rank, suit in itertools.product(range(13), range(4)):
        equal(one, make(clubs, [rank, suit, 3]), [rank, suit] == list(card))
    rec.mark()


def text(clubs, string, rec):
    if any(not c.isascii() and c.upper().isascii() for c in string):
        return  # the long s is an S in upper case
    rank_ok = string[0].upper() in list(RANKS)
    suit_ok = string[1].upper() in list(SUITS)
    if rank_ok and suit_ok:
        card = core.guarded("Card(%r)" % string, clubs.Card, string)
        core.same(
            str(card),
            string[0].upper() + SYMBOLS[SUITS.index(string[1].upper())],
            "text of Card(%r)", string,
        )
        rec.event("valid strings")
        return
    kinds = ()
    if not rank_ok:
        kinds += (clubs.error.InvalidRankError,)
    if not suit_ok:
        kinds += (clubs.error.InvalidSuitError,)
    core.refused("Card(%r)" % string, kinds, clubs.Card, string)
    rec.event("invalid strings")
    rec.mark()
