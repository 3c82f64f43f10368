import math
import random

from .. import boot, core, game, refpoker

ID = "C08"
RULE = (
    "a case is a generated game as in C01 with tricked, untricked and random decks over "
    "several hands; the sweep counts which deals follow which on tables with few cards; "
    "non-trivial if cards come after the first street, or the deck is tricked, or several "
    "hands are dealt"
)
EXAMPLES = {"quick": 20000, "thorough": 160000}
ASSUMPTIONS = [
    "a reset reshuffles: two successive random deals of 8 or more cards from a deck of "
    "12 or more are never alike (chance of a coincidence below 1e-7 per pair)"
]


def strategy(tier):
    return game.games(many=True, max_hands=4 if tier == "quick" else 8, max_acts=12)


def sweep(tier):
    """Tables with few cards on which every deal has to follow every other."""
    for num in range(8 if tier == "quick" else 32):
        suits, ranks = [(2, 2), (1, 4), (4, 1), (1, 3)][num % 4]
        yield {
            "kind": "orders", "suits": suits, "ranks": ranks, "seed": num,
            "play": num // 4 % 2, "trick": num // 4 % 2, "resets": 16000,
        }


def orders(case, rec):
    """Which deals follow which: after a reshuffle any deal is as likely as any
    other, whatever was dealt before.  About 28 or more are expected of each
    pair; fewer than 3 or more than three times as many are no coincidence
    (less than one in 10^8)."""
    clubs = boot.load()
    total = case["suits"] * case["ranks"]
    dealer = game.build(clubs, {
        "num_players": 2, "num_streets": 2, "blinds": 0, "antes": 0, "raise_sizes": "inf",
        "num_raises": "inf", "num_suits": case["suits"], "num_ranks": case["ranks"],
        "num_hole_cards": 1, "num_community_cards": [0, total - 3],
        "num_cards_for_hand": 1, "mandatory_num_hole_cards": 0, "start_stack": 10,
    })
    cards = refpoker.deck(case["suits"], case["ranks"])
    random.seed(case["seed"])
    top = []
    if case["trick"] and total > 3:
        top = [game.pretty(cards[1])]
        dealer.deck.trick([game.make_card(clubs, text) for text in top])
    counts, last = {}, None
    for _ in range(case["resets"]):
        core.guarded("reset()", dealer.reset)
        if case["play"]:
            for bet in (0, 0):
                core.guarded("step(0)", dealer.step, bet)
        now = [str(c) for hand in dealer.hole_cards for c in hand]
        core.same(now[:len(top)], top, "cards dealt from the tricked deck")
        text = str(dealer.deck).strip("[]")
        now += [str(c) for c in dealer.community_cards] + text.split(",")
        now = tuple(now)
        if last is not None:
            counts[last, now] = counts.get((last, now), 0) + 1
        last = now
    deals = math.factorial(total - len(top))
    mean = case["resets"] / deals ** 2
    core.same(len({now for _, now in counts}), deals, "different deals in %d resets",
              case["resets"])
    for before in {last for last, _ in counts}:
        for after in {now for _, now in counts}:
            num = counts.get((before, after), 0)
            core.ensure(
                mean * 0.1 < num < mean * 3 + 30,
                "the deal %s follows %s %d times in %d resets, about %d are expected",
                after, before, num, case["resets"], mean,
            )
    rec.event("resets of tables with few cards", case["resets"])
    rec.mark()


class Watch:
    """The hole cards of all seats must be the same at every moment, and the
    cards dealt and those still in the deck are the whole deck."""

    def __init__(self, cards):
        self.cards = sorted(cards)

    def after_reset(self, hand, dealer, raw):
        self.whole("reset()", hand, dealer, hand.first)

    def whole(self, what, hand, dealer, obs):
        text = str(dealer.deck).strip("[]")
        rest = [part.strip() for part in text.split(",")] if text else []
        dealt = [c for cards in hand.hole for c in cards] + obs.community_cards
        core.same(sorted(rest + dealt), self.cards, "cards dealt and left after %s", what)

    def after_step(self, hand, dealer, step, raw):
        now = [[str(c) for c in cards] for cards in dealer.hole_cards]
        core.same(now, hand.hole, "hole cards after step(%s)", step.bet)
        self.whole("step(%s)" % step.bet, hand, dealer, step.post)

    def after_extra(self, hand, dealer, raw):
        self.after_step(hand, dealer, hand.extra[-1], raw)


def check(case, rec):
    if case.get("kind") == "orders":
        return orders(case, rec)
    trace = game.play(case, Watch(game.Cfg(case["config"]).cards))
    cfg = trace.cfg
    game.features(trace, rec)
    previous = None
    for hand in trace.hands:
        if hand.refused:
            continue
        core.same([len(c) for c in hand.hole], [cfg.hole] * cfg.n, "hole cards per seat")
        states = [hand.first] + [s.post for s in hand.steps + hand.extra]
        board = []
        first = None
        for obs in states:
            core.same(
                obs.community_cards[: len(board)], board, "board cards dealt earlier"
            )
            board = obs.community_cards
            if first is None:
                first = board
                core.same(len(board), cfg.comms[0], "cards on the first street's board")
            if obs.action >= 0:
                core.same(
                    obs.hole_cards, hand.hole[obs.action],
                    "hole cards shown to seat %d", obs.action,
                )
        core.ensure(len(board) <= sum(cfg.comms), "too many board cards: %s", board)
        sums = [sum(cfg.comms[: i + 1]) for i in range(cfg.streets)]
        for obs in states:
            core.ensure(
                len(obs.community_cards) in sums,
                "%d board cards", len(obs.community_cards),
            )
        holes = [c for cards in hand.hole for c in cards]
        dealt = first + holes + board[len(first):]
        core.ensure(
            len(set(dealt)) == len(dealt), "cards dealt twice: %s", sorted(dealt)
        )
        core.ensure(
            set(dealt) <= set(cfg.cards), "cards from outside the deck: %s",
            sorted(set(dealt) - set(cfg.cards)),
        )
        if hand.tricked is not None:
            num = min(len(dealt), len(hand.tricked))
            core.same(
                dealt[:num], hand.tricked[:num], "cards dealt from the tricked deck"
            )
            rec.event("tricked prefix covers %s" % (
                "the deck" if len(hand.tricked) == len(cfg.cards)
                else "everything dealt" if len(hand.tricked) >= len(dealt)
                else "part of the deal"
            ))
        same_trick = previous and hand.tricked == previous[1]
        if same_trick:
            free = len(hand.tricked or [])
            num = min(len(dealt), len(previous[0]))
            if num - free >= 8 and len(cfg.cards) - free >= 12:
                core.ensure(
                    dealt[:num] != previous[0][:num], "the deck was not reshuffled"
                )
                rec.event("reshuffles compared")
        previous = (dealt, hand.tricked)
        rec.mark(
            len(board) > len(first) or hand.tricked is not None or len(trace.hands) > 1
        )
