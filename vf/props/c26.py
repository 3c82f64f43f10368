import contextlib
import copy
import gc
import io
import os
import pickle
import random
import sys
import threading
import tracemalloc

from .. import boot, core, game
from . import c25

ID = "C26"
RULE = (
    "a case is a configuration with few cards and a cycle of 1-8 uses (hands played to the "
    "end or given up, calls after the end, resets, printing, win probabilities, refused "
    "calls, arranged decks, new tables, evaluators and decks, copies); the cycle is repeated "
    "and memory, lines executed per cycle, open files and threads are measured after 16, 64, "
    "and where something grew also after 160 and 352 repetitions; non-trivial if a cycle "
    "executes at least 50 lines of the library; the sweep does the same with viewers"
)
EXAMPLES = {"quick": 200, "thorough": 5000}
MOMENTS = (16, 64, 160, 352)  # numbers of repetitions at which is measured
# growth per repetition which is too much if it goes on through all moments
LIMITS = {"bytes of memory": 4.0, "lines executed": 1.0, "open files": 0.5, "threads": 0.5}


def strategy(tier):
    from hypothesis import strategies as st

    byte = st.integers(0, 255)

    @st.composite
    def hands(draw, name):
        num = draw(st.integers(0, 8))
        return [
            name, draw(st.booleans()), draw(st.integers(0, 3)) > 0,
            draw(st.integers(0, len(game.STYLES) - 1)),
            list(draw(st.binary(min_size=2 * num, max_size=2 * num))),
        ]

    picks = st.binary(min_size=0, max_size=10).map(list)
    oper = st.one_of(
        hands("hand"), hands("hand"), hands("lost"), hands("table"),
        st.tuples(st.just("late"), st.integers(1, 3)).map(list),
        st.tuples(st.just("trick"), picks).map(list), st.just(["off"]),
        st.just(["print"]), st.just(["print"]), st.just(["viewer"]), st.just(["prob"]),
        st.just(["evaluator"]), st.just(["rank"]), st.just(["refused"]),
        st.tuples(st.just("copy"), st.sampled_from(["deep", "pickle"])).map(list),
        st.tuples(st.just("deck"), st.integers(0, 9)).map(list), st.just(["cards"]),
        st.just(["shuffle"]),
    )

    @st.composite
    def cases(draw):
        cfg = draw(game.configs(small_deck=True, max_players=6))
        return {
            "config": cfg,
            "stacks": draw(st.none() | game.stack_lists(cfg["num_players"])),
            "first": draw(hands("hand")),
            "ops": draw(st.lists(oper, min_size=0, max_size=7)),
            "cards": list(draw(st.binary(min_size=30, max_size=30)))
            if draw(st.integers(0, 3)) else None,
            "seeds": draw(st.sampled_from([1, 1, 2, 4])),
            "seed": draw(st.integers(0, 2 ** 16)),
        }

    return cases()


def sweep(tier):
    more = 1 if tier == "quick" else 4
    yield {"live": "states", "players": 3, "moments": [200, 800, 2400, 6000 * more]}
    yield {"live": "tables", "players": 4, "moments": [200, 800, 2400, 6000 * more]}
    yield {"live": "viewers", "players": 2, "moments": [3, 6, 10, 10 + 5 * more]}
    yield {"live": "dropped", "players": 2, "moments": [3, 6, 10, 10 + 5 * more]}


class Session:
    """One table (and what is used next to it) through many repetitions"""

    def __init__(self, clubs, case):
        self.clubs, self.case = clubs, case
        self.cfg = game.Cfg(case["config"])
        random.seed(case["seed"])
        self.dealer = game.build(clubs, case["config"])
        self.deck = clubs.Deck(self.cfg.suits, self.cfg.ranks)
        self.evaluator = self.dealer.evaluator
        self.obs = None
        self.num = 0
        self.picks = [
            game.make_card(clubs, t)
            for t in game.arrangement(self.cfg, case["cards"] or [])
        ]

    def hand(self, dealer, oper, lost=False):
        name, rb, rs, style, acts = oper
        if sum(chips > 0 for chips in dealer.stacks) < 2:
            core.refused(
                "reset()", self.clubs.error.TooFewActivePlayersError, dealer.reset
            )
            rs = True
        raw = core.guarded("reset()", dealer.reset, reset_button=rb, reset_stacks=rs)
        obs = game.Obs(raw, self.cfg.n)
        for idx in range(0, len(acts) - 1, 2):
            if obs.action < 0:
                break
            bet = game.decode(style, acts[idx], acts[idx + 1], obs)
            raw = core.guarded("step(%s)" % bet, dealer.step, bet)[0]
            obs = game.Obs(raw, self.cfg.n)
        left = 0 if lost else self.cfg.bound()
        while obs.action >= 0 and left > 0:
            raw = core.guarded("step(%s)" % obs.call, dealer.step, obs.call)[0]
            obs = game.Obs(raw, self.cfg.n)
            left -= 1
        return obs

    def cycle(self):
        """The same uses, from the same state"""
        random.seed(self.case["seed"] + self.num % self.case["seeds"])
        self.num += 1
        dealer = self.dealer
        if self.picks:
            dealer.deck.trick(list(self.picks))
        else:
            dealer.deck.untrick()
        for idx in range(self.cfg.n):
            chips = self.case["stacks"][idx] if self.case["stacks"] else self.cfg.start
            dealer.stacks[idx] = chips
        first = list(self.case["first"])
        first[1], first[2] = True, first[2] and not self.case["stacks"]
        self.obs = self.hand(dealer, first)
        for oper in self.case["ops"]:
            getattr(self, "do_" + oper[0])(oper)
        self.obs = None

    def do_hand(self, oper):
        self.obs = self.hand(self.dealer, oper)

    def do_lost(self, oper):
        self.obs = self.hand(self.dealer, oper, True)

    def do_table(self, oper):
        dealer = game.build(self.clubs, self.case["config"])
        self.hand(dealer, oper)
        str(dealer)

    def do_late(self, oper):
        while self.obs.action >= 0:
            call = self.obs.call
            raw = core.guarded("step(%s)" % call, self.dealer.step, call)[0]
            self.obs = game.Obs(raw, self.cfg.n)
        for num in range(oper[1]):
            core.guarded("step(%s) after the end" % num, self.dealer.step, num)

    def do_trick(self, oper):
        cards = game.arrangement(self.cfg, oper[1])
        self.dealer.deck.trick([game.make_card(self.clubs, t) for t in cards])

    def do_off(self, oper):
        self.dealer.deck.untrick()

    def do_shuffle(self, oper):
        self.deck.shuffle()

    def do_print(self, oper):
        core.guarded("str() of the table", str, self.dealer)

    def do_viewer(self, oper):
        with contextlib.redirect_stdout(io.StringIO()):
            core.guarded("render()", self.dealer.render, mode="ascii")

    def do_prob(self, oper):
        import math

        rest = sum(self.cfg.comms) - len(self.dealer.community_cards)
        if math.comb(len(self.dealer.deck.cards), rest) <= 30:
            core.guarded("win_probabilities()", self.dealer.win_probabilities)

    def do_evaluator(self, oper):
        cfg = self.case["config"]
        made = core.guarded(
            "Evaluator()", self.clubs.poker.Evaluator, cfg["num_suits"], cfg["num_ranks"],
            cfg["num_cards_for_hand"], cfg["mandatory_num_hole_cards"],
        )
        str(made)

    def do_rank(self, oper):
        dealer = self.dealer
        hole, board = dealer.hole_cards[0], list(dealer.community_cards)
        if len(hole) + len(board) >= self.cfg.size and (
            len(board) >= self.cfg.size - self.cfg.mandatory
        ):
            rank = core.guarded("evaluate()", self.evaluator.evaluate, hole, board)
            core.guarded("get_rank_class()", self.evaluator.get_rank_class, rank)

    def do_refused(self, oper):
        error = self.clubs.error
        core.refused("Card('1s')", error.InvalidRankError, self.clubs.Card, "1s")
        core.refused("Card('Ax')", error.InvalidSuitError, self.clubs.Card, "Ax")
        core.refused(
            "get_rank_class(-1)", error.InvalidHandRankError,
            self.evaluator.get_rank_class, -1,
        )
        wrong = dict(copy.deepcopy(self.case["config"]), blinds=[1] * (self.cfg.n + 1))
        core.refused(
            "Dealer() with wrong blinds", error.InvalidConfigError, self.clubs.Dealer,
            **wrong
        )

    def do_copy(self, oper):
        if oper[1] == "pickle":
            try:
                pickle.loads(pickle.dumps(self.dealer))
                return
            except (pickle.PicklingError, AttributeError, TypeError):
                pass
        copy.deepcopy(self.dealer)

    def do_deck(self, oper):
        self.deck.shuffle()
        self.deck.draw(oper[1])
        self.clubs.Deck(self.cfg.suits, self.cfg.ranks).draw(1)
        str(self.deck)

    def do_cards(self, oper):
        card = self.clubs.Card("As")
        str(card), repr(card), card == self.clubs.Card("2s"), card & 1, 1 | card


def lines_of(work):
    """Number of lines of the library which the work executes"""
    prefix = os.path.join(boot.REPO, "clubs") + os.sep
    count = [0]

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
        return local

    before = sys.gettrace()
    sys.settrace(
        lambda frame, event, arg:
        local if frame.f_code.co_filename.startswith(prefix) else None
    )
    try:
        work()
    finally:
        sys.settrace(before)
    return count[0]


def measure(session):
    # the same one of the cycles each time
    lines = lines_of(session.cycle)
    for _ in range(session.case["seeds"] - 1):
        session.cycle()
    gc.collect()
    sys._clear_type_cache()  # keeps names alive
    return {
        "bytes of memory": tracemalloc.get_traced_memory()[0],
        "lines executed": lines,
        "open files": len(os.listdir("/proc/self/fd")),
        "threads": threading.active_count(),
    }


def live(case, rec):
    """The same with viewers in a program of the project's interpreter"""
    program = c25.Program(case, "growth_program.py")
    try:
        told = program.hear()
    finally:
        program.end()
    core.ensure(told is not None, "a program that repeats %s fails", case)
    shown = case["live"] in ("states", "tables")
    limits = dict.fromkeys(told["seen"][0][1], 0.5)
    limits["objects"] = 0.9 if shown else 60
    for key, limit in limits.items():
        rates = [
            (after[1][key] - before[1][key]) / (after[0] - before[0])
            for before, after in zip(told["seen"], told["seen"][1:])
        ]
        core.ensure(
            min(rates) < limit, "%s of a program that repeats %s %s times: %s", key,
            case["live"], [num for num, _ in told["seen"]],
            [seen[key] for _, seen in told["seen"]],
        )
    rec.event("repetitions with viewers", told["seen"][-1][0])
    rec.mark()


def check(case, rec):
    if "live" in case:
        live(case, rec)
        return
    clubs = boot.load()
    tracemalloc.start(1)
    try:
        run(clubs, case, rec)
    finally:
        tracemalloc.stop()


def run(clubs, case, rec):
    session = Session(clubs, case)
    history = []
    growing = set(LIMITS)
    for moment in MOMENTS:
        while session.num < moment:
            session.cycle()
        now = session.num
        seen = measure(session)
        if history:
            since, before = history[-1]
            growing = {
                key for key in growing
                if seen[key] - before[key] >= LIMITS[key] * (now - since)
            }
        history.append((now, seen))
        if not growing:
            break
        if len(history) > 2:
            rec.event("measured longer")
    for key in sorted(growing):
        core.ensure(
            False, "%s after %s repetitions of the same calls: %s", key,
            ", ".join(str(num) for num, _ in history),
            ", ".join(str(seen[key]) for _, seen in history),
        )
    rec.event("repetitions", session.num)
    rec.event("uses in a cycle", len(case["ops"]) + 1)
    for oper in case["ops"]:
        rec.event("use: " + oper[0])
    rec.mark(history[0][1]["lines executed"] >= 50)
