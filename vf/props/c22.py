import json
import os
import random
import subprocess
import sys

from .. import boot, core, game
from . import c11

ID = "C22"
RULE = (
    "cases of six kinds: one game run twice from the same seed; two tables played "
    "alternately (schedule of the case) and alone with the same arranged decks; a hand on "
    "a used and on a new table after a full reset; a batch of games in two processes with "
    "different hash seeds; evaluators differing in few options made in one process, each "
    "judged by its own rules; operations on several decks; non-trivial if at least 6 steps "
    "are compared"
)
EXAMPLES = {"quick": 8000, "thorough": 90000}


def strategy(tier):
    from hypothesis import strategies as st

    depth = 2 if tier == "quick" else 4

    @st.composite
    def pair(draw):
        left = draw(game.games(max_hands=depth, max_acts=12, trick=False))
        if draw(st.booleans()):
            # nearly the same table
            right = json.loads(json.dumps(left))
            if draw(st.booleans()):
                right["config"]["order"] = list(
                    draw(st.permutations(list(game.refpoker.SHORT)))
                )
            if draw(st.booleans()):
                right["config"]["low_end_straight"] = draw(st.booleans())
            right["hands"] = draw(
                st.lists(
                    game.hands(right["config"], 12, trick=False), min_size=1,
                    max_size=depth,
                )
            )
        else:
            right = draw(game.games(max_hands=depth, max_acts=12, trick=False))
        for side in (left, right):
            for hand in side["hands"]:
                hand["trick"] = list(draw(st.binary(min_size=52, max_size=52)))
        return {
            "kind": "pair", "tables": [left, right],
            "turns": draw(st.binary(min_size=24, max_size=24)).hex(),
        }

    @st.composite
    def used(draw):
        case = draw(game.games(max_hands=depth, max_acts=12))
        num = len(case["hands"])
        tail = [draw(game.hands(case["config"], 12)) for _ in range(depth)]
        for hand in tail[:1]:
            hand["rb"] = hand["rs"] = True
            hand["seed"] = draw(st.integers(0, 1000))
            if hand["trick"] is None:
                hand["trick"] = "off"
            hand.pop("lost", None)
            if draw(st.booleans()):
                hand["lost"] = draw(st.binary(min_size=2, max_size=16)).hex()
        return {"kind": "used", "table": dict(case, hands=case["hands"] + tail),
                "cut": num}

    @st.composite
    def twice(draw):
        return {"kind": "twice", "table": draw(game.games(max_hands=depth + 1))}

    @st.composite
    def family(draw):
        suits, ranks = draw(st.integers(1, 4)), draw(st.integers(1, 13))
        size = draw(st.integers(1, min(5, suits * ranks)))
        first = {"suits": suits, "ranks": ranks, "size": size, "low": True,
                 "order": None, "mandatory": 0}
        members = [first]
        for _ in range(draw(st.integers(1, 4))):
            other = dict(draw(st.sampled_from(members)))
            for key in draw(
                st.lists(
                    st.sampled_from(["low", "low", "order", "order", "mandatory", "suits",
                                     "ranks", "size"]),
                    max_size=2,
                )
            ):
                if key == "low":
                    other["low"] = not other["low"]
                elif key == "order":
                    other["order"] = draw(
                        st.one_of(
                            st.none(), st.permutations(list(game.refpoker.SHORT)).map(list)
                        )
                    )
                elif key == "mandatory":
                    other["mandatory"] = draw(st.integers(0, other["size"]))
                elif key == "suits":
                    other["suits"] = draw(st.integers(1, 4))
                elif key == "ranks":
                    other["ranks"] = draw(st.integers(1, 13))
                else:
                    other["size"] = draw(st.integers(1, 5))
            if other["size"] > other["suits"] * other["ranks"]:
                other["size"] = 1
            other["mandatory"] = min(other["mandatory"], other["size"])
            members.append(other)
        return {"kind": "family", "members": members, "salt": draw(st.integers(0, 99))}

    @st.composite
    def decks(draw):
        num = draw(st.integers(2, 4))
        sizes = [[draw(st.integers(1, 4)), draw(st.integers(1, 13))]]
        while len(sizes) < num:
            sizes.append(
                draw(st.sampled_from(sizes)) if draw(st.booleans())
                else [draw(st.integers(1, 4)), draw(st.integers(1, 13))]
            )
        return {"kind": "decks", "sizes": sizes, "seed": draw(st.integers(0, 999)),
                "ops": draw(st.binary(min_size=4, max_size=40)).hex()}

    return st.one_of(pair(), used(), twice(), family(), decks())


def sweep(tier):
    for num in range(8 if tier == "quick" else 48):
        yield {"kind": "process", "batch": num, "games": 12}


def batch(num, games):
    """Some games made from the number of the batch."""
    rng = random.Random(num)
    configs = boot.load().configs
    names = game.shipped_names()
    out = []
    for _ in range(games):
        name = rng.choice(names)
        cfg = json.loads(json.dumps(getattr(configs, name)))
        out.append({
            "config": cfg,
            "stacks": None,
            "seed": rng.randrange(10 ** 6),
            "hands": [
                {
                    "rb": False, "rs": rng.random() < 0.3,
                    "trick": rng.choice([
                        None, "off", [rng.randrange(52) for _ in range(rng.randrange(12))],
                    ]),
                    "style": rng.randrange(len(game.STYLES)), "extra": 0,
                    "acts": bytes(rng.randrange(256) for _ in range(40)).hex(),
                }
                for _ in range(3)
            ],
        })
    return out


def stories(num, games):
    return [game.story(game.play(case)) for case in batch(num, games)]


def play_alone(case):
    return game.story(game.play(case))


def check(case, rec):
    boot.load()
    rec.event(case["kind"])
    {"pair": pair, "used": used, "twice": twice, "process": process, "family": family,
     "decks": decks}[case["kind"]](case, rec)


def differ(got, want, what):
    for idx, (one, two) in enumerate(zip(got, want)):
        core.same(one, two, "%s (entry %d)", what, idx)
    core.same(len(got), len(want), "%s: length" % what)


def twice(case, rec):
    first = play_alone(case["table"])
    second = play_alone(case["table"])
    differ(second, first, "the same game from the same seed")
    rec.event("entries compared", len(first))
    rec.mark(len(first) >= 6)


def pair(case, rec):
    alone = [play_alone(table) for table in case["tables"]]
    traces = [game.Trace(table) for table in case["tables"]]
    runs = [game.playing(trace) for trace in traces]
    live = [True, True]
    turns = bytes.fromhex(case["turns"])
    pos = 0
    while any(live):
        side = turns[pos % len(turns)] & 1 if turns else 0
        pos += 1
        if not live[side]:
            side = 1 - side
        try:
            next(runs[side])
        except StopIteration:
            live[side] = False
    for side in (0, 1):
        differ(
            game.story(traces[side]), alone[side],
            "table %d next to another one against table %d alone" % (side, side),
        )
    again = play_alone(case["tables"][0])
    differ(again, alone[0], "table 0 after table 1 was made")
    rec.event("entries compared", sum(len(a) for a in alone))
    rec.mark(sum(len(a) for a in alone) >= 6)


def used(case, rec):
    table = case["table"]
    trace = game.play(table)
    tail = game.Trace(table)
    tail.hands = trace.hands[case["cut"]:]
    got = game.story(tail)
    new = dict(table, hands=[dict(h) for h in table["hands"][case["cut"]:]], stacks=None)
    new["hands"][0].pop("lost", None)
    want = play_alone(new)
    differ(got, want, "a used table after a full reset against a new one")
    rec.event("entries compared", len(want))
    rec.mark(len(want) >= 6)


def family(case, rec):
    """Evaluators which differ in a few options, made one after the other: each
    ranks hands by its own rules."""
    clubs = boot.load()
    made = []
    for spec in case["members"]:
        made.append(core.guarded(
            "Evaluator(%s)" % spec, clubs.poker.Evaluator, spec["suits"], spec["ranks"],
            spec["size"], spec["mandatory"], low_end_straight=spec["low"],
            order=list(spec["order"]) if spec["order"] else None,
        ))
    names = [str(evaluator) for evaluator in made]
    compared = 0
    for round in range(2):
        for spec, evaluator, name in zip(case["members"], made, names):
            compared += family_member(clubs, spec, evaluator, case, rec)
            core.same(str(evaluator), name, "text of evaluator %s later", spec)
    rec.event("hands compared in families", compared)
    rec.mark(compared >= 6)


def family_member(clubs, spec, evaluator, case, rec):
    ref = game.refpoker
    suits, ranks, size = spec["suits"], spec["ranks"], spec["size"]
    order = [ref.SHORT[k] for k in spec["order"]] if spec["order"] else (
        game.order_of(evaluator)
    )
    rules = ref.Rules(suits, ranks, size, spec["low"], order)
    hands = list(c11.patterns(suits, ranks, size, case["salt"]))
    # straights and what is left if they are none are always among them
    straights = [h for h in hands if "straight" in ref.classify(h, suits, ranks, True)[0]]
    rng = random.Random(case["salt"])
    hands = rng.sample(hands, min(len(hands), 40)) + straights[-4:] + straights[:2]
    found = []
    for hand in hands:
        cards = [clubs.Card(ref.name(c)) for c in hand]
        cut = spec["mandatory"] or len(cards)
        rank = core.guarded(
            "evaluate(%s) of evaluator %s among %s"
            % ([str(c) for c in cards], spec, case["members"]),
            evaluator.evaluate, cards[:cut], cards[cut:],
        )
        cat = ref.classify(hand, suits, ranks, spec["low"])[0]
        core.same(
            core.guarded("get_rank_class(%r)" % (rank,), evaluator.get_rank_class, rank), cat,
            "category of %s by evaluator %s made among %s", [str(c) for c in cards], spec,
            case["members"],
        )
        found.append((rules.strength(hand), rank))
    found.sort(reverse=True)
    for one, two in zip(found, found[1:]):
        core.ensure(
            one[1] == two[1] if one[0] == two[0] else one[1] < two[1],
            "hands of strength %s and %s have ranks %s and %s by evaluator %s made among %s",
            one[0], two[0], one[1], two[1], spec, case["members"],
        )
    return len(found)


def decks(case, rec):
    """What is done with one deck leaves the others as they are."""
    clubs = boot.load()
    random.seed(case["seed"])
    made = [clubs.Deck(*size) for size in case["sizes"]]
    views = [(str(deck), len(deck)) for deck in made]
    acts = bytes.fromhex(case["ops"])
    for pos in range(0, len(acts) - 1, 2):
        idx = acts[pos] % len(made)
        deck, act = made[idx], acts[pos + 1]
        suits, ranks = case["sizes"][idx]
        cards = [game.refpoker.name(c) for c in game.refpoker.deck(suits, ranks)]
        if act % 5 == 0:
            what = "shuffle()"
            core.guarded(what, deck.shuffle)
        elif act % 5 in (1, 2):
            what = "draw(%d)" % (act // 5 % 20)
            drawn = core.guarded(what, deck.draw, act // 5 % 20)
            drawn[:] = [None] * 3
        elif act % 5 == 3:
            num = act // 5 % (len(cards) + 1)
            rng = random.Random(act * 31 + pos)
            top = [clubs.Card(c) for c in rng.sample(cards, num)]
            what = "trick(%s)" % [str(c) for c in top]
            core.guarded(what, deck.trick, top)
            top[:] = []
        else:
            what = "untrick()"
            core.guarded(what, deck.untrick)
        for other, view in enumerate(views):
            if other != idx:
                core.same(
                    (str(made[other]), len(made[other])), view,
                    "deck %d %s after %s of deck %d %s", other, case["sizes"][other], what,
                    idx, case["sizes"][idx],
                )
        views[idx] = (str(deck), len(deck))
    fresh = clubs.Deck(*case["sizes"][0])
    core.same(
        sorted(str(fresh)[1:-1].split(",")),
        sorted(game.pretty(c) for c in game.refpoker.deck(*case["sizes"][0])),
        "a new deck after all this",
    )
    rec.event("deck operations", len(acts) // 2)
    rec.mark(len(acts) >= 12)


def process(case, rec):
    want = stories(case["batch"], case["games"])
    for hash_seed in ("0", "4242"):
        env = dict(os.environ, PYTHONHASHSEED=hash_seed)
        proc = subprocess.run(
            [sys.executable, "-m", "vf.props.c22", str(case["batch"]), str(case["games"])],
            cwd=boot.VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            text=True, timeout=600,
        )
        if proc.returncode:
            raise RuntimeError(proc.stderr)
        got = json.loads(proc.stdout)
        core.ensure(
            "violation" not in got, "playing in another process: %s",
            got.get("violation") if isinstance(got, dict) else None,
        )
        for idx, (one, two) in enumerate(zip(got["stories"], json.loads(json.dumps(want)))):
            differ(one, two, "game %d of the batch in another process" % idx)
    rec.event("games compared between processes", case["games"])
    rec.mark()


if __name__ == "__main__":
    boot.load()
    core.guard_init()
    try:
        print(json.dumps({"stories": stories(int(sys.argv[1]), int(sys.argv[2]))}))
    except core.Violation as exc:
        print(json.dumps({"violation": str(exc)}))
