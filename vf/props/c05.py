import json
from decimal import Decimal
from fractions import Fraction

from .. import core, game

ID = "C05"
RULE = (
    "a case is a generated game as in C01 in which most amounts are odd (negative, "
    "between legal amounts, beyond the stack); non-trivial if an amount is not legal as "
    "given and has to be moved"
    "; a part of the games is played again with the same amounts as numbers of other types"
    "; a tree case stands for every way to play a hand at a tiny table and is "
    "non-trivial if one of its hands is"
)
EXAMPLES = {"quick": 20000, "thorough": 180000}


class Chips(int):
    """A number like any other"""


def scalar(name):
    """Numbers of numpy, where there is numpy"""
    def make(num):
        import numpy

        return getattr(numpy, name)(num)

    return make


TYPES = {
    "subclass": Chips, "float": float, "fraction": Fraction, "decimal": Decimal,
    "bool": bool, "int64": scalar("int64"), "float64": scalar("float64"),
}


def other_type(name, num):
    """The same number as another type; as it is if that is impossible"""
    try:
        made = TYPES[name](num)
    except (ValueError, OverflowError, ImportError):
        return num
    return made if made == num and num == made else num


def small(trace):
    """Differences of amounts are exact in every type"""
    most = sum(hand.before[i] for hand in trace.hands for i in range(trace.cfg.n))
    return most + trace.cfg.start * trace.cfg.n < 2 ** 50


def typed(case, want, rec):
    def make(clubs, raw):
        dealer = game.build(clubs, raw)
        plain = dealer.step

        def step(bet):
            one = other_type(case["type"], bet)
            rec.event("amounts as " + case["type"], type(one) is not type(bet))
            out = plain(one)
            core.guarded(
                "encoding what step(%r) returns" % (one,), json.dumps,
                [dict(out[0], hole_cards=[], community_cards=[])] + list(out[1:]),
            )
            return out

        dealer.step = step
        return dealer

    trace = game.Trace(case)
    for _ in game.playing(trace, make=make):
        pass
    for idx, (one, two) in enumerate(zip(game.story(trace), want)):
        core.same(one, two, "entry %d of the game with amounts as %s", idx, case["type"])


def sweep(tier):
    """Every way to play a hand at tiny tables"""
    return game.trees(*((100, 300) if tier == "quick" else (1600, 4000)), odd=True)


def strategy(tier):
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        case = draw(
            game.games(
                many=True, max_hands=2 if tier == "quick" else 4, max_acts=30, trick=False
            )
        )
        for hand in case["hands"]:
            if draw(st.integers(0, 3)):
                hand["style"] = 5
        if draw(st.integers(0, 2)) == 0:
            case["type"] = draw(st.sampled_from(sorted(TYPES)))
        return case

    return cases()


@game.with_trees
def check(case, rec):
    trace = game.play(case)
    cfg = trace.cfg
    game.features(trace, rec)
    if "type" in case and small(trace):
        typed(case, game.story(trace), rec)
    for hand in trace.hands:
        if hand.refused:
            continue
        for step in hand.steps:
            pre, post, seat = step.pre, step.post, step.pre.action
            chips, folds = game.pay(step.bet, pre)
            what = "step(%s) with call %d, raise %d to %d" % (
                step.bet, pre.call, pre.min_raise, pre.max_raise,
            )
            if step.bet not in (0, pre.call) and not (
                pre.min_raise <= step.bet <= pre.max_raise
            ):
                rec.event("amounts moved")
                rec.mark()
            if not step.ended:
                core.same(
                    post.hole_cards, hand.hole[post.action],
                    "%s: hole cards of seat %d", what, post.action,
                )
            active = list(pre.active)
            active[seat] = not folds
            core.same(post.active, active, "%s: unfolded players", what)
            if step.ended:
                # the payouts are in the stacks: what every seat has lost or won
                # shows what it had put in only if it folded
                if folds:
                    core.same(
                        step.payouts[seat],
                        pre.stacks[seat] - hand.before[seat],
                        "%s: loss of the folding seat", what,
                    )
                if sum(active) > 1:
                    check_uncalled(hand, step, seat, chips, what)
                continue
            stacks = list(pre.stacks)
            stacks[seat] -= chips
            core.same(post.stacks, stacks, "%s: stacks", what)
            core.same(post.pot, pre.pot + chips, "%s: pot", what)
            commits = list(pre.street_commits)
            commits[seat] += chips
            if post.street_commits != [0] * cfg.n or commits == [0] * cfg.n:
                core.same(post.street_commits, commits, "%s: street commitments", what)


def check_uncalled(hand, step, seat, chips, what):
    """A sole winner's payout is at most what the others have put in, so in a
    two-handed showdown it shows what the last bet was."""
    dealt = [i for i, flag in enumerate(hand.dealt) if flag]
    if len(dealt) != 2:
        return
    other = [i for i in dealt if i != seat][0]
    mine = hand.before[seat] - step.pre.stacks[seat] + chips
    theirs = hand.before[other] - step.pre.stacks[other]
    match = min(mine, theirs)
    if step.payouts[seat]:
        # a tie pays 0 or the odd ante chip
        core.ensure(
            abs(step.payouts[seat]) in (match, 1),
            "%s: the showdown moved %d chips, not %d",
            what, abs(step.payouts[seat]), match,
        )
