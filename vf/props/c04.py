from .. import core, game
from . import c06

ID = "C04"
RULE = (
    "a case is a generated game as in C01; call, min raise and max raise of every "
    "observation are compared with an independent model of the betting structure that "
    "is driven by the chips actually put in; non-trivial if a street sees a full raise "
    "and later another decision, or an incomplete all-in raise, or closed raising"
    "; a tree case stands for every way to play a hand at a tiny table and is "
    "non-trivial if one of its hands is"
)
ASSUMPTIONS = ["streets end as C06 says"]
EXAMPLES = {"quick": 20000, "thorough": 180000}


def sweep(tier):
    """Every way to play a hand at tiny tables"""
    return game.trees(*((240, 300) if tier == "quick" else (1600, 4000)))


def strategy(tier):
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        case = draw(
            game.games(
                many=True,
                max_hands=2 if tier == "quick" else 4, max_acts=30, trick=False
            )
        )
        for hand in case["hands"]:
            if draw(st.booleans()):
                hand["style"] = draw(st.sampled_from([2, 0, 5, 2]))
        return case

    return cases()


class Street:
    def __init__(self, cfg, number, commits):
        self.size = cfg.sizes[number]
        self.cap = cfg.raises[number]
        self.commits = list(commits)
        self.full = 0  # full raises so far
        self.largest = cfg.big  # largest full raise

    def sizes(self, obs):
        stack = obs.stacks[obs.action]
        call = max(self.commits) - self.commits[obs.action]
        if self.size == "inf":
            low, high = call + self.largest, stack
        elif self.size == "pot":
            low, high = call + self.largest, obs.pot + 2 * call
        else:
            low = high = call + self.size
        closed = ""
        if self.full >= self.cap:
            closed = "cap"
        elif self.full and call < self.largest:
            closed = "no full raise to answer"
        if closed:
            low = high = 0
        high = min(high, stack)
        return min(call, stack), min(low, high), high, closed

    def bet(self, seat, chips, call):
        size = self.size if isinstance(self.size, int) else self.largest
        self.commits[seat] += chips
        more = chips - call
        if more > 0 and more >= size:
            self.full += 1
            self.largest = more
            return "full raise"
        return "incomplete raise" if more > 0 else ""


@game.with_trees
def check(case, rec):
    trace = game.play(case)
    cfg = trace.cfg
    game.features(trace, rec)
    for hand in trace.hands:
        if hand.refused:
            continue
        turns = c06.Turns(cfg, hand)
        number = 0
        street = Street(cfg, 0, hand.first.street_commits)
        obs = hand.first
        log = []
        for step in hand.steps + [None]:
            if obs.action == -1:
                core.same(
                    (obs.call, obs.min_raise, obs.max_raise), (0, 0, 0),
                    "call, min raise, max raise after the end",
                )
                break
            call, low, high, closed = street.sizes(obs)
            core.same(
                (obs.call, obs.min_raise, obs.max_raise), (call, low, high),
                "call, min raise, max raise of seat %d on street %d after %s",
                obs.action, number, log,
            )
            core.ensure(obs.min_raise <= obs.max_raise, "min raise above max raise")
            if closed:
                rec.event("raising closed: " + closed)
                rec.mark()
            rec.mark(street.full > 0)
            seat = obs.action
            post = step.post
            if step.ended:
                obs = post
                continue
            chips = obs.stacks[seat] - post.stacks[seat]
            kind = street.bet(seat, chips, call)
            log.append((seat, chips))
            if kind:
                rec.event(kind)
                rec.mark(kind == "incomplete raise")
            outcome = turns.step(seat, *c06.after_bet(step))
            if outcome == "street":
                number += 1
                street = Street(cfg, number, post.street_commits)
                log = []
            obs = post
        for extra in hand.extra:
            core.same(
                (extra.post.call, extra.post.min_raise, extra.post.max_raise), (0, 0, 0),
                "call, min raise, max raise of a call after the end",
            )
