import copy

from .. import boot, core, game, refpoker

ID = "C17"
RULE = (
    "cases of three kinds: the same game from two spellings of a configuration (scalar or "
    "list, 'inf' or float('inf'), defaults written out or omitted) must run alike; a "
    "configuration with one field corrupted must be refused; every shipped configuration "
    "is played with generated bets and judged by the oracles of C01, C02, C06 and C07; all "
    "are non-trivial except pairs of equal spellings"
)
EXAMPLES = {"quick": 8000, "thorough": 90000}

LISTS = ["blinds", "antes", "raise_sizes", "num_raises", "num_community_cards"]
OMIT = {"low_end_straight": True, "order": None}
BAD_SIZES = ["half", "pott", "infinity?", None, 2.5, "5", [2], -2.5, "p"]


def strategy(tier):
    from hypothesis import strategies as st

    @st.composite
    def spelling(draw):
        case = draw(game.games(max_hands=2, max_acts=16, many=True))
        cfg = case["config"]
        # fields with equal entries can be written as one value
        for key in LISTS:
            if draw(st.booleans()):
                value = cfg[key]
                if isinstance(value, list):
                    value = value[0]
                if key == "num_community_cards":
                    need = cfg["num_players"] * cfg["num_hole_cards"]
                    room = cfg["num_suits"] * cfg["num_ranks"] - need
                    least = max(
                        0, cfg["num_cards_for_hand"] - cfg["num_hole_cards"],
                        cfg["num_cards_for_hand"] - cfg["mandatory_num_hole_cards"]
                        if cfg["mandatory_num_hole_cards"] else 0,
                    )
                    if not least <= value * cfg["num_streets"] <= min(room, 6):
                        continue
                cfg[key] = value
        case["kind"] = "spelling"
        case["flip"] = draw(st.integers(0, 2 ** 9 - 1))
        return case

    @st.composite
    def corrupt(draw):
        cfg = draw(game.configs())
        kind = draw(
            st.sampled_from(["length", "length", "size", "hand", "suits", "ranks", "order"])
        )
        case = {"kind": "corrupt", "config": cfg, "what": kind}
        if kind == "length":
            case["field"] = draw(st.sampled_from(LISTS))
            case["by"] = draw(st.sampled_from([1, -1, 2, -2, 5, -99]))
        elif kind == "size":
            case["value"] = draw(st.sampled_from(BAD_SIZES))
            case["pos"] = draw(st.integers(-1, cfg["num_streets"] - 1))
            if isinstance(case["value"], list) and case["pos"] < 0:
                case["pos"] = 0
        elif kind == "hand":
            case["value"] = draw(st.sampled_from([0, 6, 7, -1, 13]))
        elif kind == "suits":
            case["value"] = draw(st.sampled_from([0, 5, -1, 9]))
        elif kind == "ranks":
            case["value"] = draw(st.sampled_from([0, 14, -1, 52]))
        else:
            keys = list(draw(st.permutations(list(refpoker.SHORT))))
            drop = draw(st.integers(0, 8))
            wrong = draw(st.integers(0, 3))
            if wrong < 2:
                keys[drop] = draw(st.sampled_from(["xx", "", keys[drop - 1]]))
            elif wrong == 2:
                keys.append(keys[drop])
            else:
                del keys[drop]
            case["value"] = keys
        return case

    @st.composite
    def shipped(draw):
        names = game.shipped_names()
        name = draw(st.sampled_from(names))
        cfg = getattr(boot.load().configs, name)
        players = cfg["num_players"]
        stacks = None
        if draw(st.booleans()):
            stacks = draw(game.stack_lists(players))
        return {
            "kind": "shipped",
            "name": name,
            "config": None,
            "stacks": stacks,
            "seed": draw(st.integers(0, 2 ** 16)),
            "hands": [
                draw(game.hands(cfg, 30, trick=False))
                for _ in range(draw(st.integers(1, 3)))
            ],
        }

    return st.one_of(spelling(), corrupt(), corrupt(), shipped())


def sweep(tier):
    for name in game.shipped_names():
        yield {"kind": "name", "name": name}
        for style in range(len(game.STYLES)):
            yield {
                "kind": "shipped",
                "name": name,
                "config": None,
                "stacks": None,
                "seed": style,
                "hands": [
                    {
                        "rb": False, "rs": False, "trick": None, "style": style,
                        "extra": 1, "acts": bytes((i * 37 + j * 11 + style) % 256
                                                  for i in range(60)).hex(),
                    }
                    for j in range(3)
                ],
            }


def lists(cfg, flip):
    """Another spelling of the same configuration."""
    out = copy.deepcopy(cfg)
    for idx, key in enumerate(LISTS):
        num = cfg["num_players"] if key in ("blinds", "antes") else cfg["num_streets"]
        value = out[key]
        if not isinstance(value, list) and flip >> idx & 1:
            out[key] = [value] * num
    if flip >> 5 & 1:
        for key in ("raise_sizes", "num_raises"):
            value = out[key]
            if isinstance(value, list):
                out[key] = [float("inf") if v == "inf" else v for v in value]
            elif value == "inf":
                out[key] = float("inf")
    for idx, (key, value) in enumerate(OMIT.items()):
        if flip >> (6 + idx) & 1 and key not in out:
            out[key] = value
    return out


def check(case, rec):
    {"spelling": spelling, "corrupt": corrupt, "shipped": shipped, "name": named}[
        case["kind"]
    ](case, rec)


class Given(game.Trace):
    def __init__(self, case, raw):
        super().__init__(case)
        self.raw = raw

    def raw_config(self):
        return self.raw


def run(case, raw):
    """Plays on a table made from exactly this configuration object."""
    trace = Given(case, raw)
    kept = copy.deepcopy(raw)
    for _ in game.playing(trace, make=lambda clubs, cfg: core.guarded(
        "Dealer(**%r)" % (cfg,), clubs.Dealer, **cfg
    )):
        pass
    core.same(raw, kept, "configuration object after playing")
    return trace


def spelling(case, rec):
    left = run(case, copy.deepcopy(case["config"]))
    other = lists(case["config"], case["flip"])
    right = run(case, other)
    for one, two in zip(game.story(left), game.story(right)):
        core.same(two, one, "the game from the configuration %r", other)
    core.same(len(right.hands), len(left.hands), "hands")
    core.same(
        str(right.dealer.evaluator), str(left.dealer.evaluator), "evaluator of %r", other
    )
    rec.event("spellings compared")
    rec.mark(other != case["config"])


def corrupt(case, rec):
    clubs = boot.load()
    cfg = copy.deepcopy(case["config"])
    kind = case["what"]
    err = clubs.error
    if kind == "length":
        key = case["field"]
        num = cfg["num_players"] if key in ("blinds", "antes") else cfg["num_streets"]
        value = cfg[key]
        value = list(value) if isinstance(value, list) else [value] * num
        want = max(0, num + case["by"])
        if want == num:
            return
        cfg[key] = (value * 4 + value[-1:] * 20)[:want]
        kinds = err.InvalidConfigError
    elif kind == "size":
        if case["pos"] < 0:
            cfg["raise_sizes"] = case["value"]
        else:
            value = cfg["raise_sizes"]
            if not isinstance(value, list):
                value = [value] * cfg["num_streets"]
            value = list(value)
            value[case["pos"]] = case["value"]
            cfg["raise_sizes"] = value
        kinds = err.InvalidRaiseSizeError
    elif kind == "hand":
        cfg["num_cards_for_hand"] = case["value"]
        kinds = err.InvalidHandSizeError
    elif kind == "suits":
        cfg["num_suits"] = case["value"]
        kinds = err.InvalidSuitError
    elif kind == "ranks":
        cfg["num_ranks"] = case["value"]
        kinds = err.InvalidRankError
    else:
        cfg["order"] = case["value"]
        kinds = err.InvalidOrderError
    core.refused("Dealer(**%r)" % (cfg,), kinds, clubs.Dealer, **cfg)
    rec.event("refused: " + kind)
    rec.mark()


def shipped(case, rec):
    from . import c01, c02, c06, c07

    clubs = boot.load()
    raw = getattr(clubs.configs, case["name"])
    case = dict(case, config=copy.deepcopy(raw))
    run(case, raw)
    for oracle in (c01, c02, c06, c07):
        oracle.check(case, core.Recorder())
    rec.event("shipped games played")
    rec.event(case["name"])
    rec.mark()


def named(case, rec):
    """The configuration is the game its name says."""
    clubs = boot.load()
    name = case["name"]
    cfg = getattr(clubs.configs, name)
    want = {}
    for word, num in (("_TWO_", 2), ("_THREE_", 3), ("_SIX_", 6), ("_NINE_", 9)):
        if word in name:
            want["num_players"] = num
    read = game.Cfg(cfg)
    inf = float("inf")
    rules = {"low": True, "order": None}
    if "LEDUC" in name or "KUHN" in name:
        leduc = "LEDUC" in name
        want.update(
            num_streets=2 if leduc else 1, num_suits=2 if leduc else 1, num_ranks=3,
            num_hole_cards=1, num_cards_for_hand=2 if leduc else 1,
            mandatory_num_hole_cards=0,
        )
        rules.update(
            blinds=[0] * read.n, antes=[1] * read.n, comms=[0, 1] if leduc else [0],
            raises=[2, 2] if leduc else [1],
        )
        core.ensure(
            all(isinstance(v, int) and v > 0 for v in read.sizes),
            "%s has raise sizes %r", name, cfg["raise_sizes"],
        )
    elif "HOLDEM" in name or "OMAHA" in name or "SHORT_DECK" in name:
        want.update(
            num_streets=4, num_suits=4, num_ranks=9 if "SHORT_DECK" in name else 13,
            num_hole_cards=4 if "OMAHA" in name else 2,
            mandatory_num_hole_cards=2 if "OMAHA" in name else 0, num_cards_for_hand=5,
        )
        big = read.big
        rules.update(
            blinds=[big // 2, big] + [0] * (read.n - 2), comms=[0, 3, 1, 1],
            antes=[0] * read.n, raises=[inf] * 4,
        )
        core.ensure(
            isinstance(big, int) and big >= 2 and read.start >= 10 * big,
            "%s has the big blind %r and stacks of %r", name, big, read.start,
        )
        if "BB_ANTE" in name:
            core.ensure(read.antes[1] > 0, "%s has the antes %r", name, read.antes)
            rules["antes"][1] = read.antes[1]
        if "SHORT_DECK" in name:
            rules["order"] = ["sf", "fk", "fl", "fh", "st", "tk", "tp", "pa", "hc"]
        if name.startswith("LIMIT"):
            # a bet and three raises per street, the big blind is the first bet
            rules.update(sizes=[big, big, 2 * big, 2 * big], raises=[3, 4, 4, 4])
        elif "POT_LIMIT" in name:
            rules["sizes"] = ["pot"] * 4
        else:
            rules["sizes"] = ["inf"] * 4
    for key, value in rules.items():
        got = getattr(read, key)
        if key == "sizes":
            got = [str(v) if v == inf else v for v in got]
        core.same(got, value, "%s of %s", key, name)
    for key, value in want.items():
        core.same(cfg[key], value, "%s of %s", key, name)
    rec.event("names compared")
    rec.mark()
