from .. import core, game

ID = "C09"
RULE = (
    "a case is a sequence of up to 5 hands with reset options, blind and ante layouts, "
    "short and busted seats; the observation of every reset is compared with an "
    "independent posting model; non-trivial if a seat is busted, cannot pay in full, or "
    "antes are used"
    "; a tree case stands for every way to play a hand at a tiny table and is "
    "non-trivial if one of its hands is"
)
EXAMPLES = {"quick": 20000, "thorough": 180000}


def sweep(tier):
    """Every way to play a hand at tiny tables"""
    return game.trees(*((240, 300) if tier == "quick" else (1600, 4000)), again=True)


def strategy(tier):
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        case = draw(game.games(many=True, max_hands=5 if tier == "quick" else 12, max_acts=4))
        for hand in case["hands"]:
            hand["rb"] = draw(st.integers(0, 7)) == 7
            hand["rs"] = draw(st.integers(0, 5)) == 5
            hand["extra"] = draw(st.integers(0, 1))
        return case

    return cases()


def public(dealer):
    return {
        "stacks": [int(v) for v in dealer.stacks],
        "active": [bool(v) for v in dealer.active],
        "button": int(dealer.button),
        "pot": int(dealer.pot),
        "community_cards": [str(c) for c in dealer.community_cards],
        "hole_cards": [[str(c) for c in cards] for cards in dealer.hole_cards],
        "text": str(dealer) if len(dealer.stacks) <= 10 else None,
    }


class Watch:
    def __init__(self, rec):
        self.rec = rec
        self.table = None
        self.last = None  # the final results of the last hand

    def before_reset(self, hand, dealer):
        if hand.after_given_up:
            self.last = None
        self.table = core.guarded("reading the table", public, dealer)

    def after_refusal(self, hand, dealer):
        core.same(
            core.guarded("reading the table", public, dealer), self.table,
            "table after a refused reset()",
        )
        if self.last is not None:
            raw = core.guarded("step(0) after a refused reset()", dealer.step, 0)
            again = game.make_step(self.cfg, 0, self.last.post, raw)
            core.same(
                (again.post.plain(), again.payouts, again.done),
                (self.last.post.plain(), self.last.payouts, self.last.done),
                "results after a refused reset()",
            )
        self.rec.event("refused and compared")
        self.rec.mark()

    def ended(self, hand, dealer):
        self.last = hand.steps[-1]


@game.with_trees
def check(case, rec):
    watch = Watch(rec)
    watch.cfg = game.Cfg(case["config"])
    trace = game.play(case, watch)
    cfg = trace.cfg
    game.features(trace, rec)
    n = cfg.n
    for hand in trace.hands:
        if hand.refused:
            continue
        button = 0 if hand.spec["rb"] else (hand.prev_button + 1) % n
        obs = hand.first
        core.same(obs.button, button, "button")
        core.same(obs.active, hand.dealt, "seats dealt in with chips %s", hand.before)
        start = button if n == 2 else game.next_seat(button, hand.dealt)
        stacks = list(hand.before)
        commits = [0] * n
        for layout in (cfg.antes, cfg.blinds):
            for idx in range(n):
                seat = (start + idx) % n
                chips = min(stacks[seat], layout[idx])
                if chips < layout[idx]:
                    rec.event("short or busted seat owes chips")
                    rec.mark()
                stacks[seat] -= chips
                if layout is cfg.blinds:
                    commits[seat] += chips
        what = "before %s, button %d" % (hand.before, button)
        core.same(obs.stacks, stacks, "stacks after posting (%s)", what)
        core.same(obs.street_commits, commits, "bets after posting (%s)", what)
        core.same(obs.pot, sum(hand.before) - sum(stacks), "pot after posting")
        rec.mark(any(cfg.antes) or not all(hand.dealt))
