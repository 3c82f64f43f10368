import inspect
import time
from fractions import Fraction

from .. import boot, core, drawing, live

ID = "C19"
RULE = (
    "a drawing case is a number of players, hole and community cards (the sweep holds "
    "every one with 2-22 players, up to 5 hole cards and 0-6 community cards), read from the "
    "page of a running server in the 8 page cases; an outline "
    "case is a rectangle with up to 40 rational fractions of its outline; all cases are "
    "non-trivial, repeated ones are not counted"
)
EXAMPLES = {"quick": 4000, "thorough": 60000}
ASSUMPTIONS = [
    "rectangles are at least as wide as high and fractions are rational with a "
    "denominator up to 10000; points are compared within 0.011 (they are rounded to "
    "hundredths), places of the drawing within 0.75 (rounded to whole units)",
]


def strategy(tier):
    from hypothesis import strategies as st

    size = st.one_of(
        st.integers(1, 2000), st.integers(1, 8000).map(lambda v: v / 4),
        st.sampled_from([100, 550, 900, 1, 650]),
    )
    place = st.one_of(st.integers(-500, 500), st.floats(-500, 500, width=32))
    frac = st.one_of(
        st.tuples(st.integers(-40, 60), st.integers(1, 40)),
        st.tuples(st.integers(-20000, 30000), st.integers(1, 10000)),
    )
    outline = st.fixed_dictionaries({
        "kind": st.just("outline"), "x": place, "y": place, "height": size,
        "extra": st.one_of(st.just(0), size), "fracs": st.lists(frac, min_size=1, max_size=40),
    })
    draw = st.fixed_dictionaries({
        "kind": st.just("drawing"), "players": st.integers(1, 40),
        "holes": st.integers(0, 12), "comms": st.integers(0, 12),
    })
    return st.one_of(outline, outline, outline, outline, outline, outline, outline, draw)


def sweep(tier):
    for num, size in enumerate([(2, 1, 0), (3, 2, 3), (6, 2, 5), (9, 4, 5), (10, 5, 3),
                                (4, 3, 1), (8, 1, 6), (5, 2, 5)]):
        yield {"kind": "page", "players": size[0], "holes": size[1], "comms": size[2]}
    for players in range(2, 23):
        for holes in range(1, 6):
            for comms in range(0, 7):
                yield {"kind": "drawing", "players": players, "holes": holes,
                       "comms": comms}
    for width, height in ((900, 550), (1000, 650), (675, 365), (100, 100), (300, 1)):
        for num in range(1, 41):
            yield {"kind": "outline", "x": 50, "y": 225, "height": height,
                   "extra": width - height,
                   "fracs": [[k, num] for k in range(num + 1)]}


def helper(test):
    """A class of the drawing module, whatever it is called"""
    from clubs.render import graphic

    for thing in list(vars(graphic).values()):
        if inspect.isclass(thing) and thing.__module__ == graphic.__name__ and test(thing):
            return thing
    return None


def draws(cls):
    try:
        names = list(inspect.signature(cls).parameters)
    except (TypeError, ValueError):
        return False
    return names == ["num_players", "num_hole_cards", "num_community_cards"]


def text_of(case, rec, every=5):
    """The drawing made directly, or else served (which takes its time)"""
    args = (case["players"], case["holes"], case["comms"])
    cls = helper(draws)
    if cls is not None:
        made = core.guarded("drawing the table", cls, *args)
        for value in vars(made).values():
            text = str(value)
            if "<svg" in text or ":svg" in text:
                return text
    if int(core.digest(case), 16) % every or SPENT[0] > 60:
        rec.event("drawings out of reach")
        return None
    start = time.time()
    try:
        return live.page_drawing(*args)
    finally:
        SPENT[0] += time.time() - start


def direct():
    return helper(draws) is not None


SPENT = [0.0]  # seconds


def check(case, rec):
    boot.load()
    rec.mark()
    rec.event(case["kind"])
    if case["kind"] == "page":
        size = (case["players"], case["holes"], case["comms"])
        drawing.check(live.page_drawing(*size), *size)
        return
    if case["kind"] == "drawing":
        text = text_of(case, rec)
        if text is not None:
            drawing.check(text, case["players"], case["holes"], case["comms"])
            again = text_of(case, rec)
            core.same(text if again is None else again, text, "the same table drawn twice")
        return
    cls = helper(lambda thing: hasattr(thing, "edge"))
    if cls is None:
        rec.event("outlines out of reach")  # their points on the page are judged
        return
    height, width = case["height"], case["height"] + case["extra"]
    x, y = case["x"], case["y"]
    rect = core.guarded("rectangle", cls, x, y, width, height)
    center = (x + width / 2, y + height / 2)
    for num, den in case["fracs"]:
        frac = num / den
        got = core.guarded("edge(%r)" % frac, rect.edge, frac)
        want = drawing.outline(width, height, float(Fraction(num, den) % 1))
        near = all(abs(g - c - w) <= 0.011 for g, c, w in zip(got, center, want))
        if not near and abs(num) % den == 0:
            # the ends of the outline are the same point
            want = (0.0, height / 2)
            near = all(abs(g - c - w) <= 0.011 for g, c, w in zip(got, center, want))
        core.ensure(
            near, "point at %d/%d of the outline of %r x %r at (%r, %r) is %r instead of "
            "(%.3f, %.3f)", num, den, width, height, x, y, got, center[0] + want[0],
            center[1] + want[1],
        )
        core.same(core.guarded("edge()", rect.edge, frac), got, "the point asked again")
        rec.event("points")
