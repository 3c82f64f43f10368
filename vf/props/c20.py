import json

from .. import boot, core, game, live

ID = "C20"
RULE = (
    "a session case is a table of 2-10 seats with a viewer, up to 14 operations (reset, "
    "step, render, render of an arbitrary state or of one close to the last, connect a "
    "browser, wait for all browsers) "
    "run against a real server in the project's interpreter, some with a second viewer "
    "open at the same time; a conversion case is one arbitrary state turned into its "
    "message; non-trivial: sessions with two or more different states and two browsers, "
    "and conversions with cards"
)
EXAMPLES = {"quick": 4000, "thorough": 40000}
SESSIONS = {"quick": 100, "thorough": 12}  # one session among so many cases
ASSUMPTIONS = [
    "real time: a message counts as lost after 30 s; browsers use the polling transport of "
    "socket.io",
    "a browser may receive the current state again (connecting browsers cause that)",
]
KEYS = (
    "action active all_in community_cards button done hole_cards pot payouts prev_action "
    "street_commits stacks"
).split()


def states(players, holes, comms):
    from hypothesis import strategies as st

    card = st.tuples(
        st.sampled_from("23456789TJQKA"), st.sampled_from("\u2660\u2665\u2666\u2663")
    ).map("".join)
    chips = st.one_of(st.integers(0, 500), st.integers(0, 10 ** 15))
    seat = st.integers(0, players - 1)

    def per_seat(value):
        return st.lists(value, min_size=players, max_size=players)

    return st.fixed_dictionaries({
        "action": st.one_of(st.just(-1), seat),
        "active": per_seat(st.booleans()),
        "all_in": per_seat(st.booleans()),
        "community_cards": st.lists(card, max_size=comms),
        "button": seat,
        "done": st.booleans(),
        "hole_cards": per_seat(st.lists(card, min_size=holes, max_size=holes)),
        "pot": chips,
        "payouts": per_seat(st.one_of(chips, st.integers(-500, 500))),
        "prev_action": st.one_of(
            st.none(), st.tuples(seat, chips, st.booleans()).map(list)
        ),
        "street_commits": per_seat(chips),
        "stacks": per_seat(chips),
    })


def strategy(tier):
    from hypothesis import strategies as st

    @st.composite
    def converts(draw):
        size = [draw(st.integers(1, 12)), draw(st.sampled_from([1, 2, 3, 4, 5, 0, 7, 11])),
                draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 8, 12]))]
        return {"kind": "convert", "size": size, "state": draw(states(*size))}

    @st.composite
    def sessions(draw):
        cfg = stacks = None
        if draw(st.integers(0, 3)):
            cfg = draw(game.configs())
            stacks = draw(st.none() | game.stack_lists(cfg["num_players"]))
            size = [cfg["num_players"], cfg["num_hole_cards"],
                    sum(cfg["num_community_cards"])]
        else:
            size = [draw(st.integers(1, 10)), draw(st.integers(1, 5)),
                    draw(st.integers(0, 6))]
        raw = states(*size).map(lambda state: ["raw", state])
        near = st.tuples(
            st.just("near"), st.sampled_from(KEYS), st.integers(0, size[0]), states(*size),
            st.booleans(),
        ).map(list)
        kinds = [raw, near, near, st.just(["connect"]), st.just(["settle"])]
        if cfg is not None:
            render = st.sampled_from([0, 0, 0, 0.001]).map(lambda v: ["render", v])
            act = st.tuples(
                st.just("step"),
                st.sampled_from("call call call fold min max allin any".split()),
                st.integers(-3, 60),
            ).map(list)
            reset = st.tuples(
                st.just("reset"), st.booleans(), st.booleans()
            ).map(list)
            play = st.tuples(act, render).map(list)
            kinds = [play, play, play, render, st.just(["connect"]), act, st.just(["settle"]),
                     reset, raw, near, near]
        ops = []
        for oper in draw(st.lists(st.one_of(kinds), min_size=3, max_size=14)):
            if isinstance(oper[0], list):
                ops.extend(oper)
            else:
                ops.append(oper)
        return {
            "kind": "session", "config": cfg, "stacks": stacks, "size": size, "ops": ops,
            "make": "viewer" if cfg is None else draw(st.sampled_from(["dealer", "viewer"])),
            "port": draw(st.sampled_from(["fixed", "fixed", "auto"])),
            "host": draw(st.sampled_from([None, None, "127.0.0.2", "localhost"])),
            "seed": draw(st.integers(0, 999)), "page": False,
            "twin": draw(st.sampled_from([False, False, True])),
        }

    every = SESSIONS[tier]
    return st.integers(0, every - 1).flatmap(
        lambda num: sessions() if num == every // 2 else converts()
    )


def sweep(tier):
    """Sessions which every run holds: a browser before, between and after renders."""
    one = {
        "num_players": 3, "num_streets": 2, "blinds": [1, 2, 0], "antes": 0,
        "raise_sizes": "pot", "num_raises": "inf", "num_suits": 4, "num_ranks": 13,
        "num_hole_cards": 2, "num_community_cards": [0, 3], "num_cards_for_hand": 5,
        "mandatory_num_hole_cards": 0, "start_stack": 50,
    }
    play = [["step", "call", 0], ["render", 0]]
    for num in range(8):
        ops = [["connect"]] if num & 1 else []
        ops = ops + play + ([["connect"]] if num & 2 else [["settle"]]) + play * 2
        ops += [["connect"], ["step", "max", 0], ["render", 0], ["settle"], ["connect"]]
        ops += [["step", "fold", 0], ["render", 0], ["reset", False, False]]
        ops += [["connect"], ["render", 0]]
        yield {
            "kind": "session", "config": dict(one, num_players=3), "stacks": None,
            "size": [3, 2, 3], "ops": ops, "make": "viewer" if num & 4 else "dealer",
            "port": "fixed" if num else "auto", "seed": num, "page": False,
            "host": [None, None, "127.0.0.2", None, "localhost", None][num % 6],
            "twin": num in (3, 6),
        }
    # states which differ from the one before in a single entry
    pair = [
        {
            "action": seat, "active": [True, seat != 1, seat == 1],
            "all_in": [seat == 1, False, True], "community_cards": ["2\u2660"] * (1 + seat),
            "button": seat, "done": seat == 1,
            "hole_cards": [[rank + "\u2665"] * 2 for rank in "345T"[seat:seat + 3]],
            "pot": 7 + seat, "payouts": [seat, -1, 5 + seat],
            "prev_action": [seat, 4, seat == 1], "street_commits": [seat, 2, 9 - seat],
            "stacks": [5 + seat, 6, 11 - seat],
        }
        for seat in range(2)
    ]
    for same in (False, True):
        ops = [["connect"], ["raw", pair[0]]]
        for key in KEYS:
            for other in pair[1], pair[0]:
                ops.append(["near", key, 0, other, same])
        yield {
            "kind": "session", "config": None, "stacks": None, "size": [3, 2, 3],
            "ops": ops, "make": "viewer", "port": "fixed", "seed": 0, "page": False,
            "host": None,
        }


def spliced(old, new, key, seat):
    """The old state with one entry of the new one"""
    out = json.loads(json.dumps(old))
    if isinstance(out[key], list) and isinstance(new[key], list) and (
        seat < len(out[key]) == len(new[key])
    ):
        out[key][seat] = new[key][seat]
    else:
        out[key] = new[key]
    return out


def message_of(graphic, state):
    made = graphic._jsonify(state)
    if isinstance(made, (str, bytes)):
        return json.loads(made)
    return json.loads(json.dumps(made))


def typed(value):
    """A copy in which cards, strings, lists and tuples stay different."""
    if isinstance(value, dict):
        return {key: typed(val) for key, val in value.items()}
    if isinstance(value, (list, tuple)):
        return [type(value).__name__] + [typed(val) for val in value]
    return [type(value).__name__, str(value)]


def convert(clubs, graphic, case):
    """The conversion called directly; whether it works.  A session decides."""
    raw = case["state"]
    state = dict(raw)
    state["hole_cards"] = [[game.make_card(clubs, t) for t in c] for c in raw["hole_cards"]]
    state["community_cards"] = [game.make_card(clubs, t) for t in raw["community_cards"]]
    if raw["prev_action"] is not None:
        state["prev_action"] = tuple(raw["prev_action"])
    before = typed(state)
    try:
        message = message_of(graphic, state)
    except Exception:
        return False
    return exact(message, raw) and typed(state) == before


def exact(one, two):
    """Equal with equal types"""
    return json.dumps(one, sort_keys=True) == json.dumps(two, sort_keys=True)


def check(case, rec):
    clubs = boot.load()
    from clubs.render import graphic

    rec.event(case["kind"])
    if case["kind"] == "convert":
        rec.mark(any(case["state"]["hole_cards"]))
        if not hasattr(graphic, "_jsonify") or convert(clubs, graphic, case):
            return
        rec.event("conversions settled by a session")
        case = {
            "kind": "session", "config": None, "stacks": None, "size": case["size"],
            "make": "viewer", "port": "fixed", "seed": 0, "page": False,
            "ops": [["connect"], ["raw", case["state"]]],
        }
    session(case, rec)


def session(case, rec):
    """Ports are shared with everything else that runs on the machine, so one
    failure alone says nothing: two out of three do."""
    failed = 0
    for attempt in range(3):
        try:
            judge(case, rec if not attempt else core.Recorder())
        except core.Violation:
            failed += 1
            live.stop()
            if failed == 2:
                raise
            rec.event("sessions repeated")
        else:
            if not failed or attempt == 2:
                return


def judge(case, rec):
    # the last state differs from all others and every browser waits for it
    report = live.run(dict(case, ops=case["ops"] + [["connect"], ["settle"]]))
    core.ensure(report is not None, "the session hangs or dies")
    core.ensure("error" not in report, "the session fails: %s", report.get("error"))
    received(report, rec)
    for num, obs in report["obs"]:
        shown = report["states"][num]["config"]
        for key, value in obs.items():
            core.ensure(exact(shown[key], value), "state %d: %s is %r, the table's %r",
                        num, key, shown[key], value)
    if "twin" in report:
        twin = report["twin"]
        received(twin, rec, "second viewer, ")
        core.ensure(not twin["open"], "ports %r are open after closing the second viewer",
                    twin["open"])
        rec.event("two viewers at once")
    core.ensure(not report["alive"], "the server is alive after closing the viewer")
    core.ensure(not report["open"], "ports %r are open after closing the viewer",
                report["open"])
    texts = {json.dumps(entry["config"], sort_keys=True) for entry in report["states"]}
    rec.mark(len(report["browsers"]) >= 2 and len(texts) >= 2)


def received(report, rec, prefix=""):
    """What the browsers of one viewer received, in which order"""
    shown = []
    for num, entry in enumerate(report["states"]):
        core.ensure(entry["changed"] is None,
                    "render %d changes the table state: %r", num, entry["changed"])
        core.same(sorted(entry["config"]), sorted(KEYS), "parts of state %d", num)
        shown.append(entry["config"])
    texts = [json.dumps(state, sort_keys=True) for state in shown]
    rec.event("renders", len(texts))
    for num, browser in enumerate(report["browsers"]):
        who = prefix + "browser %d (connected after %d renders)" % (num, browser["at"])
        got = []
        for message in browser["messages"]:
            try:
                name, *rest = json.loads(message, parse_constant=strict)
            except ValueError:
                raise core.Violation("%s: invalid message %r" % (who, message)) from None
            if name != "config":
                continue
            core.same(len(rest), 1, "%s: parts of a message", who)
            got.append(rest[0])
        if browser["known"] == 0:
            while got and not (isinstance(got[0], dict) and "hole_cards" in got[0]):
                got.pop(0)
        seen = squeeze([json.dumps(state, sort_keys=True) for state in got])
        first = range(max(browser["known"], 1), max(browser["at"], 1) + 1)
        options = [squeeze(texts[idx - 1:]) for idx in first]
        if seen not in options:
            raise core.Violation(wrong(who, seen, texts, browser, report["late"] == num))
        rec.event("browsers")
        rec.event("messages", len(got))
    core.ensure(report["late"] is None, prefix + "browser %s misses a state",
                report["late"])


def wrong(who, seen, texts, browser, late):
    for text in seen:
        if text not in texts:
            return "%s receives a state never rendered: %s (rendered: %s)" % (
                who, text, texts[-2:]
            )
    return "%s%s receives the states %s of %d%s" % (
        who, " misses the last state and" if late else "",
        [texts.index(text) + 1 for text in seen], len(texts),
        "; the server had %d before it connected" % browser["known"],
    )


def strict(text):
    raise ValueError(text)


def squeeze(texts):
    return [t for i, t in enumerate(texts) if not i or texts[i - 1] != t]
