"""Generated games: configurations, histories, and their recorded play.

A case is plain JSON:

  config   arguments of Dealer (lists, ints, "inf", "pot")
  stacks   null or the chips of every seat before the first hand
  spin     hands dealt and not played before the first (moves the button)
  seed     for Python's random module, set once per case
  hands    list of {"rb", "rs": reset options, "trick": null | "off" |
           picks (the deck is tricked with that arrangement), "style", "acts":
           hex bytes, two per action, "extra": calls after the end, "lost":
           bytes of a hand started before this one and given up unfinished}

Actions are decoded from the bytes together with what the table announces, so
every byte string is a legal history.  When the bytes are used up the players
check and call, which ends every hand.
"""
import copy
import random

from hypothesis import strategies as st

from . import boot, core, refpoker

SETTLE = 400  # check/call steps after which a hand must be over (see bound())

# weights of the kinds of action for the styles of play
KINDS = [
    "call", "fold", "neg", "min", "max", "range", "raw", "allin", "edge", "big", "part",
]
STYLES = [
    [10, 1, 1, 3, 1, 3, 2, 1, 3, 1, 1],  # mixed
    [16, 1, 0, 1, 0, 0, 1, 0, 1, 0, 0],  # passive
    [6, 1, 0, 6, 3, 6, 0, 2, 2, 0, 0],  # aggressive
    [6, 2, 1, 1, 3, 1, 0, 9, 1, 3, 0],  # all in
    [2, 14, 4, 4, 0, 2, 0, 0, 0, 0, 0],  # folding
    [3, 0, 1, 1, 1, 1, 9, 1, 9, 1, 4],  # odd amounts
    [1, 18, 1, 1, 0, 0, 0, 0, 0, 0, 0],  # folding at once
]
PARTS = [0.5, 0.25, -0.5, 0.0, 0.75, 0.5 + 2 ** -30, 0.5 - 2 ** -30, 0.125]


def _table(weights):
    total = sum(weights)
    out = []
    for kind, weight in zip(KINDS, weights):
        out += [kind] * round(256 * weight / total)
    out = out[:256]
    return out + ["call"] * (256 - len(out))


STYLE_TABLES = [_table(w) for w in STYLES]


def decode(style, kind_byte, par, obs):
    kind = STYLE_TABLES[style % len(STYLES)][kind_byte]
    call, low, high = obs.call, obs.min_raise, obs.max_raise
    stack = obs.stacks[obs.action]
    if kind == "call":
        return call
    if kind == "fold":
        return 0
    if kind == "neg":
        return -1 - par
    if kind == "min":
        return max(call, low)
    if kind == "max":
        return max(call, high)
    if kind == "range":
        if high <= low:
            return max(call, low)
        return low + par * (high - low) // 255
    if kind == "raw":
        return par - 20
    if kind == "allin":
        return stack
    if kind == "edge":
        spots = [
            call - 1, call + 1, low - 1, low + 1, high - 1, high + 1, stack - 1,
            stack + 1, call // 2, (call + 1) // 2, call // 2 + 1, (call + low) // 2,
            (call + low + 1) // 2, (call + low) // 2 + 1, low // 2, high * 2 + 1,
        ]
        return spots[par % len(spots)]
    if kind == "part":
        spots = [
            low, call, 0, call / 2, (call + low) / 2, low / 2, high - 1, stack - 1, high,
            low + (high - low) // 2, low + (high - low) // 3,
        ]
        spot = spots[par // len(PARTS) % len(spots)]
        if abs(spot) > 2 ** 40:  # no room for a fraction
            return int(spot)
        return spot + PARTS[par % len(PARTS)]
    if par >= 250:
        return float("inf") if par < 254 else float("-inf")
    return 10 ** (3 + par % 4) + par


# ---------------------------------------------------------------- strategies

SHIPPED = "LEDUC_TWO_PLAYER KUHN_THREE_PLAYER LIMIT_HOLDEM_SIX_PLAYER".split()


@st.composite
def configs(draw, max_players=10, small_deck=False, many=False):
    """A configuration of a playable game, by construction; if asked for, some have
    more seats than the text table has places."""
    players = draw(
        st.sampled_from([2, 3, 4, 3, 5, 2, 6, 4, 7, 8, 9, 10]).filter(
            lambda n: n <= max_players
        )
        if max_players < 10
        else st.sampled_from([2, 3, 4, 3, 5, 2, 6, 4, 7, 8, 9, 10])
    )
    many = many and draw(st.integers(0, 23)) == 23
    if many:
        players = draw(st.sampled_from([11, 12, 23, 16, 13, 20, 40]))
    # few games go beyond the usual numbers of streets, cards and raises
    wide = draw(st.integers(0, 19)) == 19
    streets = draw(st.sampled_from([1, 2, 3, 4, 2, 3, 1, 2, 4, 5, 6]))
    hole = draw(st.sampled_from([1, 2, 2, 1, 3, 4, 2, 1, 2, 1, 3, 5]))
    longest = 6
    if wide:
        streets += draw(st.sampled_from([0, 6, 3, 1]))
        hole += draw(st.sampled_from([0, 5, 3, 1]))
        longest = 11 - hole
    if players * hole > 40:
        hole = 3 if not many else 1 if players > 20 else 2
    room = 52 - players * hole
    comms = []
    for _ in range(streets):
        num = draw(st.sampled_from([0, 1, 2, 0, 3, 1, 0, 2, 3, 5]))
        comms.append(min(num, room, longest - min(longest, sum(comms))))
        room -= comms[-1]
    board = sum(comms)
    most = min(5, hole + board)
    size = draw(st.integers(1, most))
    if hole + board >= 4 and draw(st.booleans()):
        size = max(size, min(most, 4))
    mandatory = 0
    if draw(st.integers(0, 3)) == 3:
        options = [m for m in range(1, hole + 1) if 0 <= size - m <= board]
        if options:
            mandatory = draw(st.sampled_from(options))
    need = players * hole + board
    decks = [
        (s, r) for s in range(1, 5) for r in range(1, 14) if need <= s * r and r >= 1
    ]
    decks.sort(key=lambda sr: (sr[0] * sr[1], sr))
    if small_deck:
        decks = decks[:8]
    if draw(st.integers(0, 9)) == 9 and (4, 13) in decks:
        suits, ranks = 4, 13
    else:
        suits, ranks = draw(st.sampled_from(decks[:24]))
    unit = draw(st.sampled_from([1, 2, 5, 1, 3]))
    big = draw(st.sampled_from([2, 1, 2, 0, 3])) * unit
    small = draw(st.integers(0, max(big, 1)))
    blinds_kind = draw(st.integers(0, 5))
    if blinds_kind == 0:
        blinds = draw(st.integers(0, 4))
    elif blinds_kind == 1:
        blinds = [draw(st.integers(0, 6)) for _ in range(players)]
    else:
        blinds = [small, big] + [0] * (players - 2)
        if blinds_kind == 2 and players > 2:
            blinds[2] = 2 * big
    antes_kind = draw(st.integers(0, 5))
    if antes_kind == 1:
        antes = draw(st.integers(1, 3))
    elif antes_kind == 2:
        top = draw(st.sampled_from([3, 12, 40]))
        antes = [draw(st.integers(0, top)) for _ in range(players)]
    elif antes_kind == 3:
        antes = [0, big] + [0] * (players - 2)
    else:
        antes = 0

    def one_size():
        kind = draw(st.integers(0, 5))
        if kind <= 1:
            return "inf"
        if kind <= 3:
            return "pot"
        return draw(st.integers(1, 80 if wide else 8))

    def one_num():
        kind = draw(st.integers(0, 4))
        return "inf" if kind <= 2 else draw(st.integers(0, 12 if wide else 4))

    if draw(st.integers(0, 2)) < 2:
        raise_sizes = one_size()
    else:
        raise_sizes = [one_size() for _ in range(streets)]
    if draw(st.integers(0, 2)) < 2:
        num_raises = one_num()
    else:
        num_raises = [one_num() for _ in range(streets)]
    start = draw(st.sampled_from([20, 10, 100, 50, 5, 200, 3, 1, 33]))
    config = {
        "num_players": players,
        "num_streets": streets,
        "blinds": blinds,
        "antes": antes,
        "raise_sizes": raise_sizes,
        "num_raises": num_raises,
        "num_suits": suits,
        "num_ranks": ranks,
        "num_hole_cards": hole,
        "num_community_cards": comms,
        "num_cards_for_hand": size,
        "mandatory_num_hole_cards": mandatory,
        "start_stack": start,
    }
    if draw(st.integers(0, 4)) == 4:
        config["low_end_straight"] = False
    if draw(st.integers(0, 4)) == 4:
        keys = list(refpoker.SHORT)
        config["order"] = draw(st.permutations(keys))
    return config


@st.composite
def stack_lists(draw, players):
    top = draw(st.sampled_from([6, 30, 120, 3, 60, 12, 30]))
    kind = draw(st.integers(0, 3))
    if kind == 3:
        # short and deep stacks and seats without chips next to each other
        tops = [draw(st.sampled_from([60, 0, 120, 4, 0, 30, 12])) for _ in range(players)]
        stacks = [most and draw(st.integers(1, most)) for most in tops]
    elif kind == 2:
        # deep stacks, some of them busted
        out = draw(st.sets(st.integers(0, players - 1), max_size=max(0, players - 2)))
        stacks = [0 if i in out else top + draw(st.integers(0, 9)) for i in range(players)]
    else:
        stacks = [draw(st.integers(0, top)) for _ in range(players)]
    alive = [i for i, s in enumerate(stacks) if s]
    for i in range(players):
        if len(alive) >= 2:
            break
        if not stacks[i]:
            stacks[i] = top
            alive.append(i)
    return stacks


@st.composite
def hands(draw, cfg, max_acts, trick=True):
    out = {
        "rb": False,
        "rs": False,
        "trick": None,
        "style": draw(st.integers(0, len(STYLES) - 1)),
        "acts": "",
        "extra": 0,
    }
    num = draw(st.sampled_from([max_acts, max_acts // 2, max_acts, max_acts // 4, max_acts, 0]))
    out["acts"] = draw(st.binary(min_size=2 * num, max_size=2 * num)).hex()
    flags = draw(st.integers(0, 15))
    out["rb"] = flags == 15
    out["rs"] = flags in (13, 14, 15)
    out["extra"] = {12: 1, 11: 2}.get(flags, 0)
    if flags in (9, 10, 14):
        out["lost"] = draw(st.binary(min_size=2, max_size=16)).hex()
    if trick:
        kind = draw(st.integers(0, 7))
        if kind == 5:
            out["trick"] = "off"
        elif kind >= 6:
            out["trick"] = list(draw(st.binary(min_size=1, max_size=24)))
    return out


def scaled(value, factor):
    if isinstance(value, list):
        return [scaled(v, factor) for v in value]
    return value * factor if isinstance(value, int) else value


@st.composite
def games(draw, max_hands=3, max_acts=24, small_deck=False, max_players=10,
          trick=True, scales=(1000, 10 ** 6 + 1, 2 ** 55 + 1), many=False):
    cfg = draw(configs(small_deck=small_deck, max_players=max_players, many=many))
    stacks = None
    if draw(st.integers(0, 3)):
        stacks = draw(stack_lists(cfg["num_players"]))
    # amounts of any size: the same game played with larger chips, off by one
    scale = draw(st.sampled_from([1] * 16 + list(scales)))
    if scale > 1:
        for key in ("blinds", "antes", "raise_sizes", "start_stack"):
            cfg[key] = scaled(cfg[key], scale)
        if stacks:
            stacks = [v and v * scale + draw(st.integers(0, 3)) for v in stacks]
    num = draw(st.integers(1, max_hands))
    if num > 1 and draw(st.integers(0, 24)) == 24:
        # a long session of short hands
        num += draw(st.integers(4, 24))
        max_acts = max(2, max_acts // 6)
    spin = 0
    if draw(st.integers(0, 4)) == 4:
        spin = draw(st.integers(1, cfg["num_players"]))
    specs = [draw(hands(cfg, max_acts, trick)) for _ in range(num)]
    if draw(st.integers(0, 11)) == 11:
        # the same hand again from the same seats and stacks, with other cards
        # (mostly): only the deal tells the moments of these hands apart
        specs[0].update(rb=True, rs=True)
        if draw(st.integers(0, 3)):
            specs[0]["trick"] = None
        specs = [dict(specs[0]) for _ in range(draw(st.integers(2, max(2, max_hands))))]
        spin = 0
    return {
        "config": cfg,
        "stacks": stacks,
        "spin": spin,
        "seed": draw(st.integers(0, 2 ** 16)),
        "hands": specs,
    }


# ---------------------------------------------------------------------- play


class Obs:
    """A copy of an observation in plain values; cards become strings."""

    __slots__ = (
        "action", "active", "button", "call", "community_cards", "hole_cards",
        "max_raise", "min_raise", "pot", "stacks", "street_commits",
    )
    NUMS = ("action", "button", "call", "max_raise", "min_raise", "pot")
    KEYS = sorted(__slots__)

    def __init__(self, raw, players):
        try:
            for key in self.NUMS:
                setattr(self, key, whole(raw[key], key))
            for key in ("stacks", "street_commits"):
                setattr(self, key, [whole(v, key) for v in raw[key]])
            self.active = [bool(v) for v in raw["active"]]
            self.community_cards = [str(c) for c in raw["community_cards"]]
            self.hole_cards = [str(c) for c in raw["hole_cards"]]
        except (TypeError, KeyError, AttributeError) as exc:
            raise core.Violation("malformed observation: %r (%s)" % (raw, exc))
        for key in ("stacks", "street_commits", "active"):
            core.ensure(
                len(getattr(self, key)) == players, "observation: wrong length of %s", key
            )
        core.ensure(-1 <= self.action < players, "action on seat %d", self.action)

    def plain(self):
        return {key: getattr(self, key) for key in self.KEYS}

    def __eq__(self, other):
        return self.plain() == other.plain()


def whole(value, what):
    if isinstance(value, bool) or value != int(value):
        raise core.Violation("%s is not a whole number: %r" % (what, value))
    return int(value)


class Step:
    """One call of step(): the table before and after."""

    def __init__(self, bet, pre, post, payouts, done):
        self.bet, self.pre, self.post = bet, pre, post
        self.payouts, self.done = payouts, done
        self.ended = post.action == -1


class Hand:
    def __init__(self, before, spec):
        self.before = before  # chips before the hand
        self.spec = spec
        self.prev_button = None  # button before the reset
        self.after_given_up = False
        self.first = None  # observation of reset()
        self.steps = []
        self.hole = None  # cards of every seat after reset
        self.extra = []  # Steps called after the end
        self.over = False
        self.refused = False  # reset refused
        self.expect_refused = False
        self.tricked = None  # arranged cards in force

    @property
    def dealt(self):
        return [chips > 0 for chips in self.before]

    @property
    def last(self):
        return self.steps[-1].post if self.steps else self.first


class Trace:
    def __init__(self, case):
        self.case = case
        self.cfg = Cfg(case["config"])
        self.hands = []
        self.dealer = None

    def raw_config(self):
        return self.case["config"]


REQUIRED = (
    "num_players num_streets blinds antes raise_sizes num_raises num_suits num_ranks "
    "num_hole_cards num_community_cards num_cards_for_hand mandatory_num_hole_cards "
    "start_stack"
).split()


def shipped_names():
    """Names of the configurations which the package ships"""
    configs = boot.load().configs
    return sorted(
        name
        for name, value in vars(configs).items()
        if name.isupper() and name[0] != "_" and isinstance(value, dict)
        and (name.endswith("_PLAYER") or set(REQUIRED) <= set(value))
    )


class Cfg:
    """The configuration as the rules see it."""

    def __init__(self, raw):
        self.raw = raw
        n, streets = raw["num_players"], raw["num_streets"]

        def expand(value, num):
            return list(value) if isinstance(value, list) else [value] * num

        self.n = n
        self.streets = streets
        self.blinds = expand(raw["blinds"], n)
        self.antes = expand(raw["antes"], n)
        self.sizes = expand(raw["raise_sizes"], streets)
        self.raises = [
            float("inf") if v == "inf" else v for v in expand(raw["num_raises"], streets)
        ]
        self.comms = expand(raw["num_community_cards"], streets)
        self.hole = raw["num_hole_cards"]
        self.size = raw["num_cards_for_hand"]
        self.mandatory = raw["mandatory_num_hole_cards"]
        self.suits, self.ranks = raw["num_suits"], raw["num_ranks"]
        self.start = raw["start_stack"]
        self.low = raw.get("low_end_straight", True)
        self.order = raw.get("order")
        self.big = self.blinds[1]
        self.cards = [pretty(c) for c in refpoker.deck(self.suits, self.ranks)]

    def bound(self):
        """More steps than any hand of checks and calls can take: each street
        every seat acts at most twice after the last raise."""
        return self.streets * self.n * 2 + self.n + 4


def pretty(card):
    return refpoker.RANKS[card[0]] + refpoker.PRETTY[card[1]]


def arrangement(cfg, picks):
    """Distinct cards of the deck from a list of picks."""
    rest = list(cfg.cards)
    out = []
    for pick in picks:
        if not rest:
            break
        out.append(rest.pop(pick % len(rest)))
    return out


def make_card(clubs, text):
    return clubs.Card(text[0] + "SHDC"["\u2660\u2665\u2666\u2663".index(text[1])])


def build(clubs, raw):
    return core.guarded("Dealer()", clubs.Dealer, **copy.deepcopy(raw))


def story(trace):
    """What happened, up to the cards, in plain values."""
    out = []
    for hand in trace.hands:
        if hand.refused:
            out.append("refused")
            continue
        if hand.first is None:
            continue
        out.append([hand.first.plain(), hand.hole])
        for step in hand.steps + hand.extra:
            out.append([step.bet, step.post.plain(), step.payouts, step.done])
    return out


def pay(bet, obs):
    """(chips, folded) for the amount: the rule of property C05."""
    bet = min(max(bet, -(10 ** 30)), 10 ** 30)  # infinite amounts
    options = {0, obs.call}
    best = min(options, key=lambda v: (abs(v - bet), v))
    low, high = obs.min_raise, obs.max_raise
    if low <= high and high > 0:
        near = min(max(bet, low), high)
        # the smaller whole number wins a tie
        near = int(near) + (near - int(near) > 0.5)
        best = min([best, near], key=lambda v: (abs(v - bet), v))
    if obs.call and (bet < 0 or best == 0):
        return 0, True
    return best, False


def order_of(dealer_or_evaluator):
    """Names of the categories from best to worst, as printed."""
    evaluator = getattr(dealer_or_evaluator, "evaluator", dealer_or_evaluator)
    text = core.guarded("str() of the evaluator", str, evaluator)
    return [part.rsplit(" (", 1)[0] for part in text.split(" > ")]


def rules_of(cfg, dealer):
    """The reference rules; the order of the categories is the configured one
    or, ranked by rarity, the one which the table prints (property C12)."""
    if cfg.order:
        order = [refpoker.SHORT[key] for key in cfg.order]
    else:
        order = order_of(dealer)
    return refpoker.Rules(cfg.suits, cfg.ranks, cfg.size, cfg.low, order, cfg.mandatory)


def play(case, watch=None):
    """Plays the case on the real code and records what it returns.

    watch: object with optional methods made(dealer), before_reset(hand, dealer),
    after_reset(hand, dealer, raw), before_step(hand, dealer, bet),
    after_step(hand, dealer, step, raw), ended(hand, dealer)."""
    trace = Trace(case)
    for _ in playing(trace, watch):
        pass
    for tell in FOLLOW:
        tell(trace)
    return trace


def playing(trace, watch=None, make=None):
    """Generator: plays the case of the trace, one call of the table at a time."""
    clubs = boot.load()
    case, cfg = trace.case, trace.cfg
    dealer = trace.dealer = (make or build)(clubs, trace.raw_config())

    def tell(name, *args):
        fn = getattr(watch, name, None)
        if fn:
            fn(*args)

    if case.get("stacks"):
        for idx, chips in enumerate(case["stacks"]):
            dealer.stacks[idx] = chips
    random.seed(case["seed"])
    tell("made", dealer)
    yield
    prev_button = 0
    for _ in range(case.get("spin", 0)):
        # hands which are not played only move the button
        raw = core.guarded("reset(reset_stacks=True)", dealer.reset, reset_stacks=True)
        prev_button = Obs(raw, cfg.n).button
        for idx, chips in enumerate(case.get("stacks") or [cfg.start] * cfg.n):
            dealer.stacks[idx] = chips
    tricked = None
    for spec in case["hands"]:
        if spec["trick"] == "off":
            dealer.deck.untrick()
            tricked = None
        elif spec["trick"] is not None:
            tricked = arrangement(cfg, spec["trick"])
            dealer.deck.trick([make_card(clubs, t) for t in tricked])
        given_up = False
        if spec.get("lost") and sum(chips > 0 for chips in dealer.stacks) > 1:
            prev_button = give_up(cfg, dealer, spec)
            given_up = True
        before = [whole(v, "stack") for v in dealer.stacks]
        hand = Hand([cfg.start] * cfg.n if spec["rs"] else before, spec)
        hand.prev_button = prev_button
        hand.after_given_up = given_up
        if "seed" in spec:
            random.seed(spec["seed"])
        hand.tricked = tricked
        hand.expect_refused = sum(hand.dealt) < 2
        trace.hands.append(hand)
        tell("before_reset", hand, dealer)
        if hand.expect_refused:
            core.refused(
                "reset() with chips %s" % before,
                clubs.error.TooFewActivePlayersError,
                dealer.reset,
                reset_button=spec["rb"],
                reset_stacks=spec["rs"],
            )
            hand.refused = True
            tell("after_refusal", hand, dealer)
            yield
            continue
        raw = core.guarded(
            "reset()", dealer.reset, reset_button=spec["rb"], reset_stacks=spec["rs"]
        )
        hand.first = Obs(raw, cfg.n)
        prev_button = hand.first.button
        hand.hole = [[str(c) for c in cards] for cards in dealer.hole_cards]
        tell("after_reset", hand, dealer, raw)
        script = list(spec.get("script", ()))
        hand.widths = []  # numbers of choices, if the hand follows a script
        acts = bytes.fromhex(spec["acts"])
        acts = [(acts[i], acts[i + 1]) for i in range(0, len(acts) - 1, 2)]
        pre = hand.first
        settle = 0
        yield
        while not hand.over:
            if acts:
                kind, par = acts.pop(0)
                bet = decode(spec["style"], kind, par, pre)
            elif "script" in spec:
                spots = choices(pre, spec.get("odd"))
                pick = script.pop(0) if script else 0
                bet = spots[pick % len(spots)]
                hand.widths.append(len(spots))
                core.ensure(
                    len(hand.widths) <= SETTLE, "hand not over after %d steps", SETTLE
                )
            else:
                bet = pre.call
                settle += 1
                core.ensure(
                    settle <= cfg.bound(),
                    "hand not over after %d checks and calls", settle,
                )
            pre = take_step(trace, hand, dealer, pre, bet, tell)
            yield
        tell("ended", hand, dealer)
        for num in range(spec["extra"]):
            bet = [0, 5, -3][num % 3]
            raw = core.guarded("step(%s) after the end" % bet, dealer.step, bet)
            hand.extra.append(make_step(cfg, bet, pre, raw))
            tell("after_extra", hand, dealer, raw)
            yield


def choices(obs, odd=False):
    """The amounts a scripted hand chooses from; the first one ends any hand.
    All legal amounts, or the same and all around them."""
    call, low, high = obs.call, obs.min_raise, obs.max_raise
    out = [call]
    if call:
        out.append(-1)
    if odd:
        out += [v / 2 for v in range(-1, 2 * max(high, call) + 4) if v != 2 * call]
    elif 0 < low <= high:
        out += [v for v in range(low, high + 1) if v != call]
    if len(out) > 9 and not odd:
        out = out[:5] + out[-3:]
    return out


def trees(num, leaves, odd=False, again=False):
    """Cases which stand for every way to play one hand at a tiny table.

    num tables; trees of more than that many leaves are cut and the rest is
    sampled.  odd: amounts around the legal ones too; again: a second hand
    of checks and calls follows."""
    rng = random.Random(7)
    for idx in range(num):
        players = (2, 3, 2, 3, 4)[idx % 5]
        streets = rng.choice((1, 2, 2, 3) if players == 2 else (1, 1, 2))
        top = {2: 14, 3: 9, 4: 7}[players]
        stacks = [rng.randint(1, top) for _ in range(players)]
        if players > 2 and rng.random() < 0.2:
            stacks[rng.randrange(players)] = 0
        blinds = [rng.choice((1, 1, 1, 0, 2)), rng.choice((2, 1, 2, 0))]
        blinds += [0] * (players - 2)
        if players > 2 and rng.random() < 0.3:
            blinds[2] = rng.randint(1, 4)
        antes = rng.choice((0, 0, 0, 1, None))
        if antes is None:
            antes = [rng.choice((0, 1, 2, 3)) for _ in range(players)]
        sizes = [rng.choice(("inf", "inf", "pot", 1, 2)) for _ in range(streets)]
        raises = [rng.choice(("inf", "inf", 1, 2, 0)) for _ in range(streets)]
        comms = [rng.choice((0, 1)) for _ in range(streets)]
        hole = rng.choice((1, 1, 2))
        size = min(hole + sum(comms), rng.choice((1, 2, 2)))
        need = players * hole + sum(comms)
        suits = rng.choice((2, 4, 3))
        config = {
            "num_players": players, "num_streets": streets, "blinds": blinds,
            "antes": antes, "raise_sizes": sizes, "num_raises": raises,
            "num_suits": suits, "num_ranks": -(-need // suits) + rng.randint(0, 1),
            "num_hole_cards": hole, "num_community_cards": comms,
            "num_cards_for_hand": size, "mandatory_num_hole_cards": 0, "start_stack": top,
        }
        yield {
            "kind": "tree", "config": config, "stacks": stacks, "odd": odd,
            "spin": rng.randrange(players), "seed": idx * 1000, "leaves": leaves,
            "again": again,
        }


def with_trees(check):
    """The check of a game, also for cases that stand for a tree of games."""

    def checked(case, rec):
        if case.get("kind") != "tree":
            return check(case, rec)
        for leaf in whole_tree(case, check, rec):
            pass

    return checked


def whole_tree(case, check, rec):
    rng = random.Random(case["seed"])
    script, whole = [], True
    for num in range(case["leaves"]):
        one = {
            "rb": False, "rs": False, "trick": None, "style": 0, "acts": "", "extra": 0,
            "script": script, "odd": case["odd"],
        }
        leaf = {
            "config": case["config"], "stacks": case["stacks"], "spin": case["spin"],
            "seed": case["seed"] + num,
            "hands": [one] + [dict(one, script=[], odd=False)] * case["again"],
        }
        inner = core.Recorder()
        widths = []

        def follow(trace):
            widths[:] = trace.hands[0].widths if trace.hands else []

        FOLLOW.append(follow)
        try:
            check(leaf, inner)
        except core.Violation as exc:
            exc.case = leaf
            raise
        finally:
            FOLLOW.remove(follow)
        yield leaf
        rec.event("hands of trees")
        rec.mark(inner.nontrivial)
        for key, count in inner.events.items():
            rec.event(key, count)
        if whole:
            # the next script in the order of the tree
            script = script + [0] * (len(widths) - len(script))
            while script and script[-1] + 1 >= widths[len(script) - 1]:
                script.pop()
            if not script:
                rec.event("whole trees")
                return
            script[-1] += 1
            whole = num < case["leaves"] // 2
        if not whole:
            script = [rng.randrange(9) for _ in range(rng.randint(1, 12))]
    rec.event("trees cut")


FOLLOW = []  # told about every game played


def give_up(cfg, dealer, spec):
    """Starts a hand and leaves it; returns its button."""
    obs = Obs(core.guarded("reset()", dealer.reset), cfg.n)
    acts = bytes.fromhex(spec["lost"])
    for pos in range(0, len(acts) - 1, 2):
        if obs.action < 0:
            break
        bet = decode(spec["style"], acts[pos], acts[pos + 1], obs)
        raw = core.guarded("step(%s)" % bet, dealer.step, bet)
        obs = make_step(cfg, bet, obs, raw).post
    return obs.button


def make_step(cfg, bet, pre, raw):
    try:
        obs, payouts, done = raw
        payouts, done = list(payouts), list(done)
    except (TypeError, ValueError):
        raise core.Violation("step() returns %r" % (raw,))
    core.same((len(payouts), len(done)), (cfg.n, cfg.n), "lengths of payouts and done")
    return Step(
        bet,
        pre,
        Obs(obs, cfg.n),
        [whole(v, "payout") for v in payouts],
        [bool(v) for v in done],
    )


def take_step(trace, hand, dealer, pre, bet, tell):
    tell("before_step", hand, dealer, bet)
    raw = core.guarded("step(%s)" % bet, dealer.step, bet)
    step = make_step(trace.cfg, bet, pre, raw)
    hand.steps.append(step)
    hand.over = step.ended
    tell("after_step", hand, dealer, step, raw)
    return step.post


# ------------------------------------------------------- shared observations


def paid_chips(hand):
    """Chips each seat put in up to the end: the stacks before the last step
    plus what the rules say about the last step."""
    last = hand.steps[-1]
    out = [b - s for b, s in zip(hand.before, last.pre.stacks)]
    out[last.pre.action] += pay(last.bet, last.pre)[0]
    return out


def next_seat(start, flags):
    n = len(flags)
    for idx in range(1, n + 1):
        if flags[(start + idx) % n]:
            return (start + idx) % n
    return -1


def features(trace, rec):
    """Counts what a game exercised."""
    for hand in trace.hands:
        if hand.refused:
            rec.event("reset refused")
            continue
        rec.event("hands")
        rec.event("steps", len(hand.steps))
        last = hand.steps[-1].post
        unfolded = sum(last.active)
        rec.event("showdown" if unfolded > 1 else "fold-out")
        if hand.tricked is not None:
            rec.event("tricked hands")
        if hand.after_given_up:
            rec.event("hands after one given up")
        commits = paid_chips(hand)
        if unfolded > 1:
            levels = {c for c, a in zip(commits, last.active) if a}
            if len(levels) > 1:
                rec.event("showdown with side pots")
            if len(levels) > 2:
                rec.event("showdown with 3+ pots")
        allin = [
            a and b == c and d
            for a, b, c, d in zip(last.active, hand.before, commits, hand.dealt)
        ]
        if any(allin):
            rec.event("hands with all-in players")
        if not all(hand.dealt):
            rec.event("hands with busted seats")
