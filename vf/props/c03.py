from .. import core, game

ID = "C03"
RULE = (
    "a case is a generated game as in C01 with up to 6 extra step() calls after the end "
    "of each hand; non-trivial if a player folds, or extra calls follow the end"
    "; a tree case stands for every way to play a hand at a tiny table and is "
    "non-trivial if one of its hands is"
)
EXAMPLES = {"quick": 20000, "thorough": 160000}
ASSUMPTIONS = ["the amount paid by a bet that ends the hand follows the rule of C05"]


def sweep(tier):
    """Every way to play a hand at tiny tables"""
    return game.trees(*((240, 300) if tier == "quick" else (1600, 4000)))


def strategy(tier):
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        case = draw(
            game.games(
                many=True,
                max_hands=2 if tier == "quick" else 5,
                max_players=draw(st.sampled_from([2, 3, 4, 10])),
            )
        )
        for hand in case["hands"]:
            hand["extra"] = draw(st.integers(0, 6))
            if draw(st.integers(0, 2)) == 2:
                hand["style"] = draw(st.sampled_from([4, 6]))
        return case

    return cases()


@game.with_trees
def check(case, rec):
    trace = game.play(case)
    game.features(trace, rec)
    for hand in trace.hands:
        if hand.refused:
            continue
        seats = range(trace.cfg.n)
        for step in hand.steps:
            active = step.post.active
            if not step.ended:
                lost = [b - s for b, s in zip(hand.before, step.post.stacks)]
                core.same(
                    step.payouts,
                    [0 if active[i] else -lost[i] for i in seats],
                    "payouts after step(%s) with the hand running", step.bet,
                )
                core.ensure(
                    sum(active) > 1, "one player is left and the hand is not over"
                )
        end = hand.steps[-1]
        active = end.post.active
        commits = game.paid_chips(hand)
        if sum(active) == 1:
            core.same(
                end.payouts,
                [
                    sum(commits) - commits[i] if active[i] else -commits[i]
                    for i in seats
                ],
                "payouts after everybody else folded (chips put in %s)", commits,
            )
            core.ensure(all(end.done), "everybody else folded, done is %s", end.done)
            core.same(end.post.action, -1, "action after everybody else folded")
            rec.event("everybody else folded")
            rec.mark()
        else:
            for i in seats:
                if not active[i]:
                    core.same(
                        end.payouts[i], -commits[i], "payout of folded seat %d", i
                    )
                    rec.mark(commits[i] > 0)
        for extra in hand.extra:
            rec.event("calls after the end")
            rec.mark()
            core.same(extra.payouts, end.payouts, "payouts of a call after the end")
            core.same(extra.done, end.done, "done flags of a call after the end")
            got, want = extra.post.plain(), end.post.plain()
            core.same(got, want, "observation of a call after the end")
