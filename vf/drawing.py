"""What the drawing of a table has to look like (shared by C19, C20, C21)."""
import math
from xml.etree import ElementTree as et

from . import core

TABLE = (900.0, 550.0)  # width and height of the table inside the 1000 x 1000 drawing
SEATS = (1000.0, 650.0)  # of the outline on which the players sit
BETS = (675.0, 365.0)  # of the outline on which the bets lie
PATTERNS = (
    "dealer card-back card-blank card-club card-spade card-diamond card-heart".split()
)


def outline(width, height, frac):
    """The point at a fraction of the outline of a rounded rectangle around (0, 0)
    whose short sides are half circles: clockwise from the middle of the lower side"""
    straight, radius = width - height, height / 2
    arc = math.pi * radius
    pos = (frac % 1) * (2 * straight + 2 * arc)
    if pos <= straight / 2:
        return -pos, radius
    pos -= straight / 2
    if pos <= arc:
        angle = pos / radius
        return -straight / 2 - radius * math.sin(angle), radius * math.cos(angle)
    pos -= arc
    if pos <= straight:
        return -straight / 2 + pos, -radius
    pos -= straight
    if pos <= arc:
        angle = pos / radius
        return straight / 2 + radius * math.sin(angle), -radius * math.cos(angle)
    pos -= arc
    return straight / 2 - pos, radius


def tag(node):
    return node.tag.rsplit("}", 1)[-1] if isinstance(node.tag, str) else "#comment"


def classes(node):
    return (node.get("class") or "").split()


def by_class(root, name):
    return [node for node in root.iter() if name in classes(node)]


def attr(node, name, what):
    try:
        return float(node.get(name, "0"))
    except ValueError:
        raise core.Violation(
            "%s: %s is %r instead of a number" % (what, name, node.get(name))
        ) from None


def middle(node, what):
    return (
        attr(node, "x", what) + attr(node, "width", what) / 2,
        attr(node, "y", what) + attr(node, "height", what) / 2,
    )


def check(text, players, holes, comms):
    """Raises Violation unless the text draws such a table; returns the tree."""
    try:
        root = et.fromstring(text)
    except (et.ParseError, ValueError) as exc:
        raise core.Violation("the drawing is not well-formed: %s" % exc) from None
    core.same(tag(root), "svg", "element of the drawing")
    ids = {}
    for node in root.iter():
        name = node.get("id")
        if name is not None:
            core.ensure(name not in ids, "two elements have the id %r", name)
            ids[name] = node
    parent = {child: node for node in root.iter() for child in node}

    def inside(node, outer):
        while node is not None:
            if node is outer:
                return True
            node = parent.get(node)
        return False

    def need(name, cls, outer, kinds):
        core.ensure(name in ids, "no element has the id %r", name)
        node = ids[name]
        core.ensure(cls in classes(node), "%s is not of class %s", name, cls)
        core.ensure(inside(node, outer), "%s lies outside %s", name, outer.get("id"))
        core.ensure(tag(node) in kinds, "%s is a %s element", name, tag(node))
        return node

    for name in PATTERNS:
        core.ensure(
            name in ids and tag(ids[name]) == "pattern", "no pattern has the id %s", name
        )
    core.same(len(by_class(root, "table")), 1, "number of tables")
    table = by_class(root, "table")[0]
    box = (root.get("viewBox") or "").split()
    core.same(len(box), 4, "numbers of the view box")
    core.same(middle(table, "table"), (float(box[2]) / 2, float(box[3]) / 2),
              "middle of the table")
    core.same((attr(table, "width", "table"), attr(table, "height", "table")), TABLE,
              "size of the table")

    seats = by_class(root, "player")
    core.same(len(seats), players, "number of players")
    core.same(len(by_class(root, "player-background")), players,
              "number of player backgrounds")
    core.same(len(by_class(root, "button-background")), players, "number of buttons")
    for cls in ("card", "card-text", "card-background"):
        core.same(len(by_class(root, cls)), players * holes + comms + 1,
                  "number of elements of class %s", cls)
    core.same(len(by_class(root, "chips-text")), 2 * players + 1,
              "number of chip counts")

    def cards(label, num, outer):
        last = None
        for idx in range(num):
            card = need("card-%s-%d" % (label, idx), "card", outer, ("svg",))
            core.same(len(by_class(outer, "card")), num, "cards of %s", label)
            for cls in ("card-text", "card-background"):
                core.same(len(by_class(card, cls)), 1, "%s of card %d of %s", cls, idx,
                          label)
            left = attr(card, "x", card.get("id"))
            core.ensure(last is None or left >= last + attr(card, "width", "card") - 0.01,
                        "card %d of %s covers the one before", idx, label)
            last = left
            text = by_class(card, "card-text")[0]
            core.same((text.text or "").strip(), "", "text of card %d of %s", idx, label)
            side = by_class(card, "card-background")[0]
            blank = label == "community" and idx > 0
            core.same(side.get("fill"), "url(#card-blank)" if blank else "url(#card-back)",
                      "side of card %d of %s", idx, label)

    center = middle(table, "table")
    places = {}
    for seat in range(players):
        player = seats[seat]
        core.same(player.get("id"), str(seat), "id of player element %d", seat)
        core.same(tag(player), "svg", "element of player %d", seat)
        need("chips-text-%d" % seat, "chips-text", player, ("text",))
        need("player-background-%d" % seat, "player-background", player, ("rect",))
        core.same(len(by_class(player, "chips-text")), 1, "chip counts of player %d", seat)
        cards(seat, holes, player)
        bet = ids.get("street-commit-%d" % seat)
        core.ensure(bet is not None, "no element has the id street-commit-%d", seat)
        need("street-commit-text-%d" % seat, "chips-text", bet, ("text",))
        need("button-background-%d" % seat, "button-background", bet, ("rect",))
        for what, node, size in (("player", player, SEATS), ("bet", bet, BETS)):
            x, y = outline(size[0], size[1], seat / players)
            got = middle(node, "%s %d" % (what, seat))
            core.ensure(
                abs(got[0] - center[0] - x) <= 0.75 and abs(got[1] - center[1] - y) <= 0.75,
                "%s %d of %d lies at %r instead of (%.2f, %.2f)", what, seat, players, got,
                center[0] + x, center[1] + y,
            )
            places.setdefault(what, []).append(got)
    if players <= 60:
        for what, spots in places.items():
            core.same(len(set(spots)), len(spots), "number of places of all %ss", what)
    core.ensure("community" in ids, "no element has the id community")
    community = ids["community"]
    core.same(tag(community), "svg", "element of the community")
    core.ensure(not by_class(community, "player"), "the community holds a player")
    cards("community", comms + 1, community)
    need("pot-text", "chips-text", community, ("text",))
    core.same(len(by_class(community, "chips-text")), 1, "pots")
    return root
