from .. import boot, core, game
from . import c06

ID = "C07"
RULE = (
    "a case is a generated game as in C01, biased to all-ins; an independent model "
    "predicts when the hand ends and the done flags after every step; non-trivial if a "
    "player is all in before the last street is settled or the hand ends by folding"
    "; a tree case stands for every way to play a hand at a tiny table and is "
    "non-trivial if one of its hands is"
)
EXAMPLES = {"quick": 20000, "thorough": 180000}
ASSUMPTIONS = ["the amount paid by a bet that ends a hand follows the rule of C05"]


def sweep(tier):
    """Every way to play a hand at tiny tables"""
    return game.trees(*((240, 300) if tier == "quick" else (1600, 4000)))


def strategy(tier):
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        case = draw(game.games(many=True, max_hands=2 if tier == "quick" else 5, max_acts=30))
        for hand in case["hands"]:
            if draw(st.integers(0, 2)) == 2:
                hand["style"] = 3
        return case

    return cases()


@game.with_trees
def check(case, rec):
    clubs = boot.load()
    fresh = game.build(clubs, case["config"])
    core.refused("step() before reset()", clubs.error.TableResetError, fresh.step, 0)
    trace = game.play(case)
    cfg = trace.cfg
    game.features(trace, rec)
    for hand in trace.hands:
        if hand.refused:
            continue
        turns = c06.Turns(cfg, hand)
        most = 0
        core.ensure(hand.first.action >= 0, "hand over right after reset()")
        for step in hand.steps:
            post = step.post
            active, stacks, commits = c06.after_bet(step)
            outcome = turns.step(step.pre.action, active, stacks, commits)
            most += 1
            if outcome != "end":
                core.ensure(
                    not step.ended, "the hand ended too early, after %d steps", most
                )
                core.same(
                    step.done,
                    [not a or s == 0 for a, s in zip(post.active, post.stacks)],
                    "done flags (unfolded %s, stacks %s)", post.active, post.stacks,
                )
                continue
            core.ensure(step.ended, "the hand does not end (unfolded %s)", active)
            core.same(step.done, [True] * cfg.n, "done flags at the end")
            core.same(post.action, -1, "action at the end")
            core.same(post.pot, 0, "pot at the end")
            if sum(active) > 1:
                core.same(
                    len(post.community_cards), sum(cfg.comms), "full board at showdown"
                )
                if turns.street < cfg.streets:
                    rec.event("board run out")
                    rec.mark()
            else:
                rec.mark()
        for extra in hand.extra:
            core.same(extra.done, [True] * cfg.n, "done flags after the end")
            core.same(extra.post.action, -1, "action of a call after the end")
            core.same(extra.post.pot, 0, "pot of a call after the end")
            core.same(
                extra.post.community_cards, hand.last.community_cards,
                "board of a call after the end",
            )
