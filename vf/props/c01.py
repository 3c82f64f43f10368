from .. import core, game

ID = "C01"
RULE = (
    "a case is a configuration (2-10 seats, 1-4 streets, any blinds, antes, betting "
    "structure and deck), optional uneven or busted stacks and 1-3 hands of byte-coded "
    "bets; non-trivial if a hand has at least 3 steps and a seat all in, folded or busted"
    "; a tree case stands for every way to play a hand at a tiny table and is "
    "non-trivial if one of its hands is"
)
EXAMPLES = {"quick": 20000, "thorough": 160000}


def sweep(tier):
    """Every way to play a hand at tiny tables"""
    return game.trees(*((240, 300) if tier == "quick" else (1600, 4000)), again=True)


def strategy(tier):
    return game.games(many=True, max_hands=3 if tier == "quick" else 6)


@game.with_trees
def check(case, rec):
    trace = game.play(case)
    game.features(trace, rec)
    for hand in trace.hands:
        if hand.refused:
            continue
        total = sum(hand.before)
        states = [("reset()", hand.first)] + [
            ("step(%s)" % s.bet, s.post) for s in hand.steps
        ]
        for what, obs in states:
            for key in ("stacks", "street_commits"):
                core.ensure(
                    min(getattr(obs, key)) >= 0, "%s: negative %s: %s", what, key,
                    getattr(obs, key),
                )
            core.ensure(obs.pot >= 0, "%s: negative pot %d", what, obs.pot)
            core.same(sum(obs.stacks) + obs.pot, total, "%s: chips on the table", what)
        for what, obs in states[:-1]:
            lost = [b - s for b, s in zip(hand.before, obs.stacks)]
            core.ensure(min(lost) >= 0, "%s: a stack grew: %s", what, obs.stacks)
            for seat in range(trace.cfg.n):
                core.ensure(
                    obs.street_commits[seat] <= lost[seat],
                    "%s: seat %d bet more on the street than it lost", what, seat,
                )
            core.same(obs.pot, sum(lost), "%s: pot", what)
        end = hand.steps[-1]
        core.same(end.post.pot, 0, "pot after the end")
        core.same(sum(end.payouts), 0, "sum of payouts")
        for seat in range(trace.cfg.n):
            core.same(
                end.post.stacks[seat],
                hand.before[seat] + end.payouts[seat],
                "stack of seat %d after the end",
                seat,
            )
        for extra in hand.extra:
            core.same(extra.post.pot, 0, "pot of a call after the end")
            core.same(extra.post.stacks, end.post.stacks, "stacks of a call after the end")
            core.same(sum(extra.payouts), 0, "sum of payouts of a call after the end")
        folded = [d and not a for d, a in zip(hand.dealt, end.post.active)]
        rec.mark(
            len(hand.steps) >= 3
            and (any(folded) or not all(hand.dealt) or 0 in end.pre.stacks)
        )
