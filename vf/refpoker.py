"""Independent reference for poker hands (no lookup tables, no primes).

A card is a pair (rank 0..12, suit 0..3); rank 12 is the ace.  A deck with R
ranks and S suits holds ranks 13-R..12 and suits 0..S-1.
"""
import collections
import itertools
from math import comb

CATS = [
    "straight flush",
    "four of a kind",
    "full house",
    "flush",
    "straight",
    "three of a kind",
    "two pair",
    "pair",
    "high card",
]
SHORT = dict(zip(["sf", "fk", "fh", "fl", "st", "tk", "tp", "pa", "hc"], CATS))
RANKS = "23456789TJQKA"
SUITS = "SHDC"
PRETTY = "\u2660\u2665\u2666\u2663"


def parse(text):
    """'A♥' or 'AH' -> (12, 1)"""
    suit = text[1]
    return RANKS.index(text[0]), (PRETTY if suit in PRETTY else SUITS).index(suit)


def name(card):
    return RANKS[card[0]] + SUITS[card[1]]


def deck(suits, ranks):
    return [(r, s) for r in range(13 - ranks, 13) for s in range(suits)]


def classify(cards, suits, ranks, low):
    """(category, tie-break tuple; larger is better)"""
    n = len(cards)
    rs = sorted((c[0] for c in cards), reverse=True)
    groups = sorted(
        collections.Counter(rs).items(), key=lambda kv: (-kv[1], -kv[0])
    )
    shape = [cnt for _, cnt in groups]
    order = tuple(r for r, _ in groups)
    if n >= 3 and shape[0] == 1:
        suited = suits >= 2 and len({c[1] for c in cards}) == 1
        top = None
        if rs[0] - rs[-1] == n - 1:
            top = rs[0]
        elif low and rs[0] == 12 and rs[1:] == list(range(13 - ranks + n - 2, 12 - ranks, -1)):
            top = rs[1]
        if top is not None:
            return ("straight flush" if suited else "straight"), (top,)
        return ("flush" if suited else "high card"), order
    if shape[0] == 4:
        return "four of a kind", order
    if shape[0] == 3:
        if len(shape) > 1 and shape[1] == 2:
            return "full house", order
        return "three of a kind", order
    if shape[0] == 2:
        if len(shape) > 1 and shape[1] == 2:
            return "two pair", order
        return "pair", order
    return "high card", order


_COUNTS = {}


def counts(suits, ranks, n, low):
    """Number of n-card hands of the deck per category, by enumerating rank
    multisets and counting the suit choices of each."""
    key = (suits, ranks, n, low)
    if key in _COUNTS:
        return _COUNTS[key]
    out = dict.fromkeys(CATS, 0)
    for rs in itertools.combinations_with_replacement(range(13 - ranks, 13), n):
        cnt = collections.Counter(rs)
        if max(cnt.values()) > suits:
            continue
        total = 1
        for v in cnt.values():
            total *= comb(suits, v)
        if len(cnt) == n:
            if n >= 3 and suits >= 2:
                same = [(r, 0) for r in rs]
                out[classify(same, suits, ranks, low)[0]] += suits
                total -= suits
            mixed = [(r, i % 2 if n > 1 else 0) for i, r in enumerate(rs)]
            out[classify(mixed, suits, ranks, low)[0]] += total
        else:
            used = collections.Counter()
            hand = []
            for r in rs:
                hand.append((r, used[r]))
                used[r] += 1
            out[classify(hand, suits, ranks, low)[0]] += total
    _COUNTS[key] = out
    return out


class Rules:
    """Comparable strength of hands: bigger is better.  `order` is the list of
    category names from best to worst."""

    def __init__(self, suits, ranks, n, low, order, mandatory=0):
        self.suits, self.ranks, self.n, self.low = suits, ranks, n, low
        self.mandatory = mandatory
        self.pos = {cat: -i for i, cat in enumerate(order)}

    def strength(self, cards):
        cat, tie = classify(cards, self.suits, self.ranks, self.low)
        return self.pos[cat], tie

    def selections(self, hole, board):
        if self.mandatory:
            for h in itertools.combinations(hole, self.mandatory):
                for b in itertools.combinations(board, self.n - self.mandatory):
                    yield h + b
        else:
            yield from itertools.combinations(list(hole) + list(board), self.n)

    def best(self, hole, board):
        return max(self.strength(sel) for sel in self.selections(hole, board))
