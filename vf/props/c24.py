import itertools
import json
import os
import random
import sys
import threading

from .. import boot, core, game, refpoker

ID = "C24"
RULE = (
    "a tables case is 2-3 threads, each playing its own table (created, reset, stepped, "
    "printed, win probabilities asked) with arranged decks; a shared case is 2-3 threads "
    "evaluating hands with one evaluator; threads change after the numbers of executed "
    "lines of the library which the case lists, and each is compared with the same work "
    "done alone; non-trivial if threads changed at least 6 times in the middle of calls"
)
EXAMPLES = {"quick": 2000, "thorough": 40000}
PATIENCE = 1.0  # seconds a thread waits for its turn (the other may wait for a lock)


def strategy(tier):
    from hypothesis import strategies as st

    slices = st.lists(
        st.sampled_from([1, 1, 2, 3, 4, 5, 7, 9, 12, 16, 25, 40, 70, 120, 300, 1000]),
        min_size=1, max_size=24,
    )

    @st.composite
    def tables(draw):
        first = draw(game.games(max_hands=2, max_acts=10, trick=False, max_players=6))
        made = [first]
        for _ in range(draw(st.sampled_from([1, 1, 2]))):
            if draw(st.booleans()):
                other = json.loads(json.dumps(first))
                if draw(st.integers(0, 3)) == 0:
                    other["config"]["order"] = list(
                        draw(st.permutations(list(refpoker.SHORT)))
                    )
            else:
                other = draw(game.games(max_hands=2, max_acts=10, trick=False, max_players=6))
            made.append(other)
        for side in made:
            side["spin"] = 0
            side["hands"] = side["hands"][:2]
            for hand in side["hands"]:
                hand.pop("lost", None)
                hand["trick"] = list(draw(st.binary(min_size=52, max_size=52)))
        return {"kind": "tables", "tables": made, "slices": draw(slices),
                "inside": draw(st.booleans())}

    @st.composite
    def shared(draw):
        suits, ranks = draw(st.integers(1, 4)), draw(st.integers(2, 13))
        size = draw(st.integers(1, min(5, suits * ranks)))
        have = draw(st.integers(size, min(8, suits * ranks)))
        mandatory = draw(st.integers(0, min(size, 2)))
        least = max(mandatory, 1)
        return {
            "kind": "shared", "suits": suits, "ranks": ranks, "size": size, "have": have,
            "mandatory": mandatory, "low": draw(st.booleans()),
            "cut": draw(st.integers(least, max(least, have - size + mandatory))),
            "threads": draw(st.integers(2, 3)), "hands": draw(st.integers(1, 5)),
            "seed": draw(st.integers(0, 9999)), "slices": draw(slices),
        }

    return st.one_of(tables(), tables(), shared())


class Turns:
    """Lets one thread run at a time and changes it after given numbers of lines"""

    def __init__(self, works, slices):
        self.prefix = os.path.join(boot.REPO, "clubs") + os.sep
        self.works, self.slices = works, itertools.cycle(slices)
        self.gates = [threading.Semaphore(0) for _ in works]
        self.live = [True] * len(works)
        self.results = [None] * len(works)
        self.left = next(self.slices)
        self.now = 0
        self.changes = self.lines = self.late = 0

    def trace(self, idx):
        def local(frame, event, arg):
            if event == "line":
                self.lines += 1
                self.left -= 1
                if self.left <= 0:
                    self.left = next(self.slices)
                    self.change(idx)
            return local

        return lambda frame, event, arg: (
            local if frame.f_code.co_filename.startswith(self.prefix) else None
        )

    def change(self, idx):
        others = [
            (idx + num) % len(self.works) for num in range(1, len(self.works))
            if self.live[(idx + num) % len(self.works)]
        ]
        if others:
            self.changes += 1
            self.now = others[0]
            self.gates[others[0]].release()
            self.wait(idx)

    def wait(self, idx):
        if not self.gates[idx].acquire(timeout=PATIENCE):
            self.late += 1

    def run(self, idx):
        self.wait(idx)
        sys.settrace(self.trace(idx))
        try:
            self.results[idx] = ("done", self.works[idx]())
        except core.Violation as exc:
            self.results[idx] = ("violation", str(exc))
        except BaseException as exc:  # a defect of the harness
            self.results[idx] = ("error", exc)
        finally:
            sys.settrace(None)
            self.live[idx] = False
            for num in range(1, len(self.works)):
                other = (idx + num) % len(self.works)
                if self.live[other]:
                    self.gates[other].release()
                    break

    def all(self):
        threads = [
            threading.Thread(target=self.run, args=(idx,), daemon=True)
            for idx in range(len(self.works))
        ]
        for thread in threads:
            thread.start()
        self.gates[0].release()
        try:
            for thread in threads:
                thread.join(120)
                core.ensure(not thread.is_alive(), "a call of one of several threads hangs")
        except core.Hang:
            raise core.Violation("a call of one of several threads does not return") from None
        for kind, value in self.results:
            if kind == "error":
                raise value
        return self.results


def check(case, rec):
    boot.load()
    rec.event(case["kind"])
    works = tables(case) if case["kind"] == "tables" else shared(case)
    alone = [work() for work in works]
    turns = Turns(works, case["slices"])
    results = turns.all()
    for idx, ((kind, value), want) in enumerate(zip(results, alone)):
        core.ensure(kind == "done", "in thread %d next to others: %s", idx, value)
        for pos, (one, two) in enumerate(zip(value, want)):
            core.same(one, two, "result %d of thread %d next to others against alone", pos, idx)
        core.same(len(value), len(want), "number of results of thread %d", idx)
    again = [work() for work in works]
    core.same(again, alone, "the same work done alone again")
    rec.event("changes of the thread", turns.changes)
    rec.event("lines", turns.lines)
    rec.event("waits given up", turns.late)
    rec.mark(turns.changes >= 6)


def tables(case):
    return [lambda side=side: played(side, case["inside"]) for side in case["tables"]]


def played(side, inside):
    """One table's session; in a thread of its own it is made there as well"""
    trace = game.Trace(side)
    cfg = trace.cfg
    seen = []
    for _ in game.playing(trace):
        dealer = trace.dealer
        if not trace.hands:
            continue
        seen.append(core.guarded("str() of the table", str, dealer))
        missing = sum(cfg.comms) - len(dealer.community_cards)
        if inside and missing <= 1 and cfg.n * len(dealer.deck) ** missing <= 12:
            seen.append(core.guarded("win_probabilities()", dealer.win_probabilities))
    return seen + game.story(trace)


def shared(case):
    clubs = boot.load()
    rng = random.Random(case["seed"])
    evaluator = core.guarded(
        "Evaluator()", clubs.poker.Evaluator, case["suits"], case["ranks"], case["size"],
        case["mandatory"], low_end_straight=case["low"],
    )
    cards = [clubs.Card(refpoker.name(c)) for c in refpoker.deck(case["suits"], case["ranks"])]

    def work(hands):
        out = []
        for hand in hands:
            rank = core.guarded(
                "evaluate()", evaluator.evaluate, hand[:case["cut"]], hand[case["cut"]:]
            )
            out.append((rank, core.guarded("get_rank_class()", evaluator.get_rank_class, rank)))
        return out

    works = []
    for _ in range(case["threads"]):
        hands = [rng.sample(cards, case["have"]) for _ in range(case["hands"])]
        works.append(lambda hands=hands: work(hands))
    return works
