import atexit
import json
import os
import select
import subprocess
import time

from .. import boot, core, drawing, live
from . import c19, c20

ID = "C21"
RULE = (
    "a case is a table of 1-12 seats, 0-11 hole and community cards, with a sequence of 1-8 "
    "messages (table states, mostly changed from the one before as a hand would do; messages without a state) shown by the "
    "real browser script in node on the real drawing; non-trivial if at least two different "
    "states are shown and a seat is folded in one of them or a message has no state"
)
EXAMPLES = {"quick": 3000, "thorough": 60000}
ASSUMPTIONS = [
    "the document is a small model of the DOM (elements, attributes, text, live "
    "collections, selectors) made from the real drawing, not a browser",
]
SUITS = {"\u2663": "club", "\u2660": "spade", "\u2666": "diamond", "\u2665": "heart"}
HIDDEN = ("url(#card-back)", "url(#card-blank)")
LIMIT = 60
_PROC = []
_TREES = {}
_LARGE = []


def strategy(tier):
    from hypothesis import strategies as st

    card = st.tuples(
        st.sampled_from("23456789TJQKA"), st.sampled_from("\u2660\u2665\u2666\u2663")
    ).map("".join)

    @st.composite
    def cases(draw):
        players = draw(st.sampled_from([2, 3, 6, 4, 5, 1, 7, 8, 9, 10, 12]))
        holes = draw(st.sampled_from([2, 1, 3, 4, 5, 6, 0, 7, 11]))
        comms = draw(st.sampled_from([5, 3, 0, 1, 2, 4, 6, 8, 11]))
        size = [players, holes, comms]
        fresh = c20.states(*size)
        states, last = [], None
        for _ in range(draw(st.integers(1, 8))):
            kind = draw(st.integers(0, 12))
            if kind == 0:
                states.append({})
                continue
            if last is None or kind <= 3:
                last = draw(fresh)
            elif kind >= 10:
                # a single entry changes
                key = draw(st.sampled_from(c20.KEYS))
                seat = draw(st.integers(0, players))
                last = c20.spliced(last, draw(fresh), key, seat)
            else:
                # the next moment of the same hand
                last = json.loads(json.dumps(last))
                last["action"] = draw(st.integers(-1, players - 1))
                seat = draw(st.integers(0, players - 1))
                if kind <= 5:
                    last["active"][seat] = not last["active"][seat]
                last["stacks"][seat] = draw(st.integers(0, 2000))
                last["street_commits"][seat] = draw(st.integers(0, 2000))
                last["pot"] = draw(st.integers(0, 9999))
                if kind >= 8:
                    board = last["community_cards"]
                    if len(board) < comms:
                        board.append(draw(card))
                    else:
                        last["community_cards"] = []
                        last["button"] = draw(st.integers(0, players - 1))
                        last["active"] = [True] * players
                        last["hole_cards"] = draw(st.lists(
                            st.lists(card, min_size=holes, max_size=holes),
                            min_size=players, max_size=players,
                        ))
            states.append(last)
        return {"size": size, "states": states}

    return cases()


def stop():
    for proc in _PROC:
        proc.kill()
        proc.wait()
    del _PROC[:]


atexit.register(stop)


def ask(spec, rec):
    if _PROC and _PROC[0].poll() is not None:
        stop()
    if not _PROC:
        _TREES.clear()
        _PROC.append(subprocess.Popen(
            ["node", os.path.join(boot.VERIF, "vf", "page.js")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
        ))
    proc = _PROC[0]
    key = json.dumps(spec["size"])
    if key not in _TREES:
        case = dict(zip(("players", "holes", "comms"), spec["size"]))
        from xml.etree import ElementTree as et

        if c19.direct():
            text = c19.text_of(case, rec, 1)
        else:
            rec.event("drawings cut out of a served one")
            text = cut_out(*spec["size"])
        if text is None:
            return None
        try:
            _TREES[key] = tree(et.fromstring(text))
        except et.ParseError as exc:
            raise core.Violation("the drawing is not well-formed: %s" % exc) from None
        first = True
    else:
        first = False
    where = os.path.join(boot.REPO, "clubs", "render", "resources")
    line = {
        "script": os.path.join(where, "static", "parse_config.js"),
        "early": early(os.path.join(where, "templates", "index.html")),
        "key": key,
        "messages": [json.dumps(state) for state in spec["states"]],
    }
    if first:
        line["tree"] = _TREES[key]
    proc.stdin.write(json.dumps(line).encode() + b"\n")
    proc.stdin.flush()
    data, end = b"", time.time() + LIMIT
    while not data.endswith(b"\n"):
        left = end - time.time()
        ready = left > 0 and select.select([proc.stdout], [], [], left)[0]
        chunk = os.read(proc.stdout.fileno(), 1 << 16) if ready else b""
        if not chunk:
            stop()
            raise core.Violation("the script hangs")
        data += chunk
    reply = json.loads(data)
    if "error" in reply:
        raise core.Violation("the script fails: %s" % reply["error"].split("\n    at ")[:3])
    return reply["looks"]


LARGEST = (12, 11, 11)


def cut_out(players, holes, comms):
    """A drawing made from one of the largest table, which is had from its page: the
    elements are those of the smaller table, at other places"""
    from xml.etree import ElementTree as et

    if not _LARGE:
        _LARGE.append(live.page_drawing(*LARGEST))
    root = et.fromstring(_LARGE[0])
    gone = {str(seat) for seat in range(players, LARGEST[0])}
    gone |= {"street-commit-%s" % seat for seat in gone}
    gone |= {"card-%d-%d" % (seat, num) for seat in range(players)
             for num in range(holes, LARGEST[1])}
    gone |= {"card-community-%d" % num for num in range(comms + 1, LARGEST[2] + 1)}
    for node in list(root.iter()):
        for child in list(node):
            if child.get("id") in gone:
                node.remove(child)
    return et.tostring(root, encoding="unicode")


def early(path):
    """Whether the script runs before the drawing is there"""
    with open(path) as file:
        text = file.read()
    at, svg = text.find("parse_config.js"), text.find("svg }}")
    if at < 0 or svg < 0:
        return False
    tag = text[text.rfind("<", 0, at):text.find(">", at)]
    return at < svg and "defer" not in tag


def tree(node):
    if not isinstance(node.tag, str):
        return ["comment", {}, "", [], node.tail or ""]
    return [
        drawing.tag(node), dict(node.attrib), node.text or "",
        [tree(child) for child in node], node.tail or "",
    ]


def text(look, name):
    core.ensure(name in look, "element %s is gone", name)
    return look[name][0]


def fill(look, name):
    core.ensure(name in look, "element %s is gone", name)
    core.ensure(len(look[name]) == 2, "element %s exists twice", name)
    return look[name][1]


def card(look, name, value, when):
    """value: the card shown, or None"""
    shown, side = text(look, "card-text-" + name), fill(look, "card-background-" + name)
    if value is None:
        core.same(shown, "", "%s: text of hidden card %s", when, name)
        core.ensure(side in HIDDEN, "%s: hidden card %s shows %s", when, name, side)
        return
    rank = "10" if value[0] == "T" else value[0]
    core.same(shown, rank, "%s: text of card %s (%s)", when, name, value)
    core.same(side, "url(#card-%s)" % SUITS[value[1]], "%s: side of card %s (%s)", when, name,
              value)
    color = "red" if value[1] in "\u2665\u2666" else "black"
    core.same(fill(look, "card-text-" + name), color, "%s: colour of card %s (%s)", when, name,
              value)


def verify(look, state, size, base, when):
    players, holes, comms = size
    empty = not state
    for seat in range(players):
        chips = text(look, "chips-text-%d" % seat)
        if empty:
            core.ensure(chips in ("0", ""), "%s: chips %s of seat %d", when, chips, seat)
        else:
            core.same(chips, str(state["stacks"][seat]), "%s: chips of seat %d", when, seat)
            core.same(
                text(look, "street-commit-text-%d" % seat),
                str(state["street_commits"][seat]), "%s: bet of seat %d", when, seat,
            )
        shown = not empty and state["active"][seat]
        for num in range(holes):
            card(look, "%d-%d" % (seat, num),
                 state["hole_cards"][seat][num] if shown else None, when)
        side = fill(look, "button-background-%d" % seat)
        if not empty and state["button"] == seat:
            core.same(side, "url(#dealer)", "%s: button of seat %d", when, seat)
        else:
            core.same(side, base["button"], "%s: no button at seat %d", when, seat)
        light = fill(look, "player-background-%d" % seat)
        if not empty and state["action"] == seat:
            core.ensure(light not in ("", base["player"]), "%s: seat %d is not highlighted",
                        when, seat)
        else:
            core.same(light, base["player"], "%s: seat %d not to act", when, seat)
    board = [] if empty else state["community_cards"]
    card(look, "community-0", None, when)
    for num in range(comms):
        card(look, "community-%d" % (num + 1), board[num] if num < len(board) else None, when)
    pot = text(look, "pot-text")
    if empty:
        core.ensure(pot in ("0", ""), "%s: pot %s", when, pot)
    else:
        core.same(pot, str(state["pot"]), "%s: pot", when)


def check(case, rec):
    boot.load()
    size, states = case["size"], case["states"]
    # a page which has seen nothing but a message without a state
    clear = ask({"size": size, "states": [{}]}, rec)
    if clear is None:  # the drawing cannot be had
        return
    clear = clear[1]
    base = {
        "button": fill(clear, "button-background-0"),
        "player": fill(clear, "player-background-0"),
    }
    core.ensure(base["button"] != "url(#dealer)", "a cleared table shows a button")
    verify(clear, {}, size, base, "cleared page")
    looks = ask(case, rec)
    for num, state in enumerate(states):
        verify(looks[num + 1], state, size, base, "message %d of %d" % (num + 1, len(states)))
        core.same(sorted(looks[num + 1]), sorted(looks[0]), "elements after message %d", num)
        rec.event("messages" if state else "messages without state")
    folded = any(s and not all(s["active"]) for s in states)
    different = len({json.dumps(s) for s in states}) > 1
    rec.mark(different and (folded or {} in states))
