import contextlib
import io
import json
import os
import time
import types

from .. import boot, core, game
from . import c20

ID = "C18"
RULE = (
    "a case is a generated game as in C01; the text of the table after every reset, step "
    "and call after the end is compared with the text made from the observed state by an "
    "independent copy of the layout; non-trivial if it shows a bet, a fold, an all-in "
    "mark, a board or a finished hand with at least 4 moments (2 if it is looked at only now and then) "
    "or a refused text for too many seats; or 1-6 states which a table can show, mostly one entry apart, described to a viewer of its own (non-trivial: 2)"
)
EXAMPLES = {"quick": 9000, "thorough": 100000}

# place of each seat in the layout, for every table size
PLACES = {
    2: [0, 5],
    3: [0, 3, 6],
    4: [0, 2, 4, 6],
    5: [0, 2, 4, 6, 8],
    6: [0, 1, 3, 5, 6, 8],
    7: [0, 1, 3, 5, 6, 7, 9],
    8: [0, 1, 2, 4, 5, 6, 7, 9],
    9: [0, 1, 2, 4, 5, 6, 7, 8, 9],
    10: [0, 1, 2, 3, 4, 5, 6, 7, 8, 9],
}
_TABLE = []
PAUSE = 0.01  # seconds to wait after some renderings


def table():
    if not _TABLE:
        path = os.path.join(os.path.dirname(__file__), "c18_table.txt")
        with open(path) as file:
            _TABLE.append(file.read())
    return _TABLE[0]


def strategy(tier):
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        case = draw(game.games(
            max_hands=2 if tier == "quick" else 4, max_acts=20, scales=(1,), many=True
        ))
        scale = draw(st.sampled_from([1, 1, 1, 1000, 37, 100000]))
        if scale > 1:
            # amounts with thousands separators
            cfg = case["config"]
            cfg["start_stack"] *= scale
            if case["stacks"]:
                case["stacks"] = [v * scale for v in case["stacks"]]
            for key in ("blinds", "antes"):
                value = cfg[key]
                cfg[key] = (
                    [v * (scale // 3 + 1) for v in value]
                    if isinstance(value, list) else value
                )
        case["kind"] = "game"
        case["viewer"] = draw(st.integers(0, 3))
        # in some sessions the table is looked at in a few moments of a hand only
        case["looks"] = draw(
            st.none() | st.sets(st.integers(0, 7), min_size=1, max_size=2).map(sorted)
        )
        case["mode"] = draw(st.sampled_from(
            ["", "", "text", "ASCII", "humans", "ascii ", "rgb_array", "asci", "human,ascii"]
        ))
        return case

    @st.composite
    def described(draw):
        """States given to a viewer: each one a change of the one before."""
        size = [draw(st.integers(2, 10)), draw(st.integers(1, 6)), draw(st.integers(0, 8))]
        fresh = c20.states(*size)
        made, last = [], None
        for _ in range(draw(st.integers(1, 6))):
            new = draw(fresh)
            if last is not None and draw(st.integers(0, 3)):
                key = draw(st.sampled_from(c20.KEYS))
                seat = draw(st.integers(0, size[0]))
                new = c20.spliced(last, new, key, seat)
            last = settled(new)
            made.append(last)
        return {"kind": "described", "size": size, "states": made}

    both = cases(), cases(), cases(), described()
    return st.integers(0, 3).flatmap(lambda num: both[num])


def settled(state):
    """The state made one which a table can show: over if nobody acts, and
    players are all in if they have no chips."""
    state["done"] = state["action"] == -1
    if not state["done"]:
        state["active"][state["action"]] = True
        state["payouts"] = [min(v, 0) for v in state["payouts"]]
    elif not any(v > 0 for v in state["payouts"]):
        state["payouts"][state["button"]] = 7
    state["all_in"] = [a and not s for a, s in zip(state["active"], state["stacks"])]
    return state


def picture(cfg, hand, obs, last, payouts):
    """The text of the table; last is (seat, chips, folded) or None."""
    done = obs.action == -1
    fill = {"ccs": "[" + ",".join(
        obs.community_cards + ["--"] * (sum(cfg.comms) - len(obs.community_cards))
    ) + "]"}
    for idx in range(10):
        for key in ("p%d", "p%dc", "a%d", "b%d"):
            fill[key % idx] = ""
    fill["pot"] = "0" if done else format(obs.pot, ",")
    for seat in range(cfg.n):
        place = PLACES[cfg.n][seat]
        if not obs.active[seat]:
            cards = ["--"] * cfg.hole
        elif done or seat == obs.action:
            cards = hand.hole[seat]
        else:
            cards = ["??"] * cfg.hole
        fill["p%d" % place] = "%2d. %s %s" % (
            seat + 1, ",".join(cards), format(obs.stacks[seat], ","),
        )
        amount = payouts[seat] if done else obs.street_commits[seat]
        fill["p%dc" % place] = format(amount, ",")
        if not done and obs.active[seat] and obs.stacks[seat] == 0:
            fill["a%d" % place] = "A"
        elif seat == obs.action:
            fill["a%d" % place] = "X"
        if seat == obs.button:
            fill["b%d" % place] = "D "
    fill["action"] = fill["win"] = ""
    if not done:
        text = ""
        if last is not None:
            seat, chips, folded = last
            verb = "folded" if folded else "bet %d" % chips if chips else "checked"
            text = "Player %d %s " % (seat + 1, verb)
        fill["action"] = text + "Action on Player %d" % (obs.action + 1)
    else:
        won = [(i + 1, p) for i, p in enumerate(payouts) if p > 0]
        if won:
            text = "Player%s %s won %s" % (
                "s" if len(won) > 1 else "",
                ", ".join(str(i) for i, _ in won),
                ", ".join(str(p) for _, p in won),
            )
            fill["win"] = text + (" respectively" if len(won) > 1 else "")
        else:
            fill["win"] = None
    free = fill["win"] is None
    if free:
        fill["win"] = ""
    return table().format(**fill), free


class Watch:
    def __init__(self, case, rec):
        self.cfg = game.Cfg(case["config"])
        self.viewer = case["viewer"]
        self.mode = case.get("mode", "")
        self.rec = rec
        self.num = 0
        self.looks = case.get("looks")
        self.moment = 0

    def after_reset(self, hand, dealer, raw):
        self.moment = 0
        self.look("reset()", hand, dealer, hand.first, None, None)

    def after_step(self, hand, dealer, step, raw):
        seat = step.pre.action
        chips, folded = game.pay(step.bet, step.pre)
        if not step.ended:
            chips = step.pre.stacks[seat] - step.post.stacks[seat]
            folded = not step.post.active[seat]
        self.look(
            "step(%s)" % step.bet, hand, dealer, step.post, (seat, chips, folded),
            step.payouts,
        )

    def after_extra(self, hand, dealer, raw):
        end = hand.steps[-1]
        self.look("a call after the end", hand, dealer, end.post, None, end.payouts)

    def look(self, what, hand, dealer, obs, last, payouts):
        self.moment += 1
        if self.looks is not None and (self.moment - 1) % 8 not in self.looks:
            return
        self.num += 1
        if self.cfg.n > max(PLACES):
            kind = boot.load().error.RenderInitializationError
            what = "text of a table of %d seats" % self.cfg.n
            core.refused(what, kind, str, dealer)
            core.refused("render('ascii'): " + what, kind, dealer.render, "ascii")
            self.rec.event("tables without a place for everybody")
            self.rec.mark()
            return
        want, free = picture(self.cfg, hand, obs, last, payouts)
        got = core.guarded("str(dealer) after %s" % what, str, dealer)
        compare(got, want, free, "table after %s" % what)
        if self.mode:
            # nothing has been rendered before
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                core.refused(
                    "render(%r)" % self.mode, boot.load().error.InvalidRenderModeError,
                    dealer.render, self.mode,
                )
            self.mode = ""
            compare(str(dealer), want, free, "table after a refused render() and %s" % what)
            self.rec.event("unknown modes refused")
        if self.viewer and self.num % 4 == self.viewer:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                if self.num % 3:
                    core.guarded("render('ascii') after %s" % what, dealer.render, "ascii")
                else:
                    waits(
                        "render('ascii', %g) after %s" % (PAUSE, what), dealer.render,
                        "ascii", PAUSE,
                    )
            compare(out.getvalue(), want, free, "printed table after %s" % what)
            self.rec.event("tables printed")
        self.rec.event("tables compared")
        if obs.action == -1:
            self.rec.event("finished hands shown")
        self.rec.mark(self.num >= (4 if self.looks is None else 2))


def waits(what, call, *args, **kwargs):
    """The call with a time to wait, which it has to take at least"""
    start = time.perf_counter()
    core.guarded(what, call, *args, **kwargs)
    spent = time.perf_counter() - start
    core.ensure(spent >= PAUSE * 0.9, "%s took %g s", what, spent)


def compare(got, want, free, what):
    core.ensure(isinstance(got, str), "%s is no text", what)
    left = [line.rstrip() for line in got.rstrip("\n").split("\n")]
    right = [line.rstrip() for line in want.rstrip("\n").split("\n")]
    if free:
        # nobody won anything: the text does not matter
        left, right = left[: len(right) - 1], right[:-1]
    while right and not right[-1]:
        right.pop()
    while left and not left[-1]:
        left.pop()
    for one, two in zip(left, right):
        core.same(one, two, "line of the %s", what)
    core.same(len(left), len(right), "lines of the %s" % what)


def show(case, rec):
    """States described to a viewer of its own"""
    clubs = boot.load()
    players, holes, comms = case["size"]
    viewer = core.guarded(
        "ASCIIViewer()", clubs.render.ASCIIViewer, num_players=players,
        num_hole_cards=holes, num_community_cards=comms,
    )
    cfg = types.SimpleNamespace(n=players, hole=holes, comms=[comms])
    for num, raw in enumerate(case["states"]):
        state = json.loads(json.dumps(raw))
        hand = types.SimpleNamespace(hole=raw["hole_cards"])
        obs = types.SimpleNamespace(**raw)
        last = raw["prev_action"] and tuple(raw["prev_action"])
        want, free = picture(cfg, hand, obs, last, raw["payouts"])
        state["hole_cards"] = [
            [game.make_card(clubs, t) for t in cards] for cards in raw["hole_cards"]
        ]
        state["community_cards"] = [game.make_card(clubs, t) for t in raw["community_cards"]]
        state["prev_action"] = last
        before = c20.typed(state)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            if num % 4 < 3:
                core.guarded("ASCIIViewer.render()", viewer.render, state)
            else:
                waits("ASCIIViewer.render(%g)" % PAUSE, viewer.render, state, sleep=PAUSE)
        compare(out.getvalue(), want, free, "table printed for %s" % raw)
        core.same(c20.typed(state), before, "the state after it was printed")
        rec.event("states described to a viewer")
    rec.mark(len(case["states"]) >= 2)


def check(case, rec):
    if case.get("kind") == "described":
        return show(case, rec)
    boot.load()
    trace = game.play(case, Watch(case, rec))
    game.features(trace, rec)
