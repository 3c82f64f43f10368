import contextlib
import io
import math

from .. import boot, core, game

ID = "C10"
RULE = (
    "a case is a generated game plus what the caller does with every returned object "
    "(keep it, overwrite it) and queries (text, rendering, win probabilities) between the "
    "steps; kept objects must stay as they were and the game must run as it does "
    "untouched; non-trivial if objects are overwritten or queries made in a hand of at "
    "least 3 steps"
)
EXAMPLES = {"quick": 9000, "thorough": 90000}


def strategy(tier):
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        case = draw(game.games(max_hands=2 if tier == "quick" else 5, max_acts=16))
        case["meddle"] = draw(st.binary(min_size=16, max_size=16)).hex()
        return case

    return cases()


def cards_in(value, clubs):
    if isinstance(value, clubs.Card):
        yield str(value)
    elif isinstance(value, dict):
        for part in value.values():
            yield from cards_in(part, clubs)
    elif isinstance(value, (list, tuple, set)):
        for part in value:
            yield from cards_in(part, clubs)


def freeze(value):
    """A value that shares nothing with the given one."""
    if isinstance(value, dict):
        return {k: freeze(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [freeze(v) for v in value]
    if isinstance(value, (bool, int, float, str)) or value is None:
        return value
    return str(value)


def wreck(value, clubs):
    """Overwrites everything the caller can reach."""
    if isinstance(value, dict):
        for part in value.values():
            wreck(part, clubs)
        for key in list(value):
            if not isinstance(value[key], (dict, list)):
                value[key] = 77777
        value["extra"] = 1
    elif isinstance(value, list):
        for part in value:
            wreck(part, clubs)
        for idx in range(len(value)):
            value[idx] = 99999
        value.append(12345)
    elif isinstance(value, tuple):
        for part in value:
            wreck(part, clubs)


PUBLIC = (
    "action", "active", "button", "community_cards", "history", "hole_cards",
    "pot", "pot_commits", "stacks", "street", "street_commits",
)


def table_of(dealer):
    """The attributes of the table which it has, in plain values."""
    out = {key: freeze(getattr(dealer, key)) for key in PUBLIC if hasattr(dealer, key)}
    out["deck"] = (str(dealer.deck), len(dealer.deck))
    return out


class Watch:
    def __init__(self, cfg, meddle, rec, clubs):
        self.cfg, self.rec, self.clubs = cfg, rec, clubs
        self.plan = list(bytes.fromhex(meddle)) if meddle else []
        self.pos = 0
        self.meddled = False
        self.kept = []

    def after_reset(self, hand, dealer, raw):
        self.state("reset()", hand, dealer, raw, hand.first)

    def after_step(self, hand, dealer, step, raw):
        self.state("step(%s)" % step.bet, hand, dealer, raw, step.post)

    def after_extra(self, hand, dealer, raw):
        self.use(dealer, raw)

    def ended(self, hand, dealer):
        if self.plan and self.plan[0] % 3:
            self.query(dealer)

    def query(self, dealer):
        """Text and rendering leave the table as it is."""
        self.meddled = True
        self.rec.event("queries")
        before = table_of(dealer)
        text = core.guarded("str(dealer)", str, dealer)
        core.same(table_of(dealer), before, "the table after str(dealer)")
        name = core.guarded("repr(dealer)", repr, dealer)
        core.same(table_of(dealer), before, "the table after repr(dealer)")
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            core.guarded("render('ascii')", dealer.render, "ascii")
        core.same(table_of(dealer), before, "the table after render('ascii')")
        core.same(str(dealer), text, "str(dealer) asked twice")
        core.same(repr(dealer), name, "repr(dealer) asked twice")

    def state(self, what, hand, dealer, raw, obs):
        observation = raw[0] if isinstance(raw, (tuple, list)) else raw
        if obs.action >= 0:
            shown = sorted(cards_in(observation, self.clubs))
            core.same(
                shown,
                sorted(hand.hole[obs.action] + obs.community_cards),
                "%s: cards in the observation of seat %d", what, obs.action,
            )
            core.same(
                obs.hole_cards, hand.hole[obs.action],
                "%s: hole cards shown to seat %d", what, obs.action,
            )
        table = {
            "action": int(dealer.action),
            "active": [bool(v) for v in dealer.active],
            "button": int(dealer.button),
            "community_cards": [str(c) for c in dealer.community_cards],
            "pot": int(dealer.pot),
            "stacks": [int(v) for v in dealer.stacks],
            "street_commits": [int(v) for v in dealer.street_commits],
        }
        for key, value in table.items():
            core.same(getattr(obs, key), value, "%s: %s in the observation", what, key)
        self.use(dealer, raw)

    def use(self, dealer, raw):
        if not self.plan:
            return
        act = self.plan[self.pos % len(self.plan)]
        self.pos += 1
        kind = act % 6
        if kind in (0, 1, 2):
            self.kept.append((raw, freeze(raw)))
        if kind == 3:
            wreck(raw, self.clubs)
            self.meddled = True
            self.rec.event("objects overwritten")
        if kind in (2, 4):
            self.query(dealer)
        if kind == 5:
            rest = sum(self.cfg.comms) - len(dealer.community_cards)
            deck = len(self.cfg.cards)
            have = self.cfg.hole + sum(self.cfg.comms)
            work = math.comb(deck, rest) * self.cfg.n * math.comb(have, self.cfg.size)
            if work < 3000:
                self.meddled = True
                self.rec.event("win probabilities asked")
                before = table_of(dealer)
                core.guarded("win_probabilities()", dealer.win_probabilities)
                core.same(table_of(dealer), before, "the table after win_probabilities()")

    def check_kept(self):
        for raw, copied in self.kept:
            core.same(freeze(raw), copied, "an object returned earlier")


def check(case, rec):
    clubs = boot.load()
    cfg = game.Cfg(case["config"])
    plain = dict(case)
    plain.pop("meddle")
    quiet = Watch(cfg, "", rec, clubs)
    want = game.story(game.play(plain, quiet))
    watch = Watch(cfg, case["meddle"], rec, clubs)
    trace = game.play(plain, watch)
    game.features(trace, rec)
    watch.check_kept()
    got = game.story(trace)
    for left, right in zip(got, want):
        core.same(left, right, "the game after queries and overwritten objects")
    core.same(len(got), len(want), "length of the game")
    rec.event("objects kept", len(watch.kept))
    rec.mark(watch.meddled and any(len(h.steps) >= 3 for h in trace.hands))
