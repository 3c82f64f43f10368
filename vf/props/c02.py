from .. import core, game

ID = "C02"
RULE = (
    "a case is a generated game as in C01, biased to small decks (ties) and uneven "
    "stacks (side pots); payouts of every showdown are compared with an independent "
    "layer-by-layer division using an independent hand ranking; non-trivial if a "
    "showdown has side pots, a tie, or dead money of folded players"
    "; a tree case stands for every way to play a hand at a tiny table and is "
    "non-trivial if one of its hands is"
)
EXAMPLES = {"quick": 20000, "thorough": 160000}
ASSUMPTIONS = [
    "without a custom order the ranking of categories is the one the evaluator prints "
    "(decided by C12)",
    "the amount paid by the bet that ends the hand follows the rule of C05",
]


def sweep(tier):
    """Every way to play a hand at tiny tables"""
    return game.trees(*((240, 300) if tier == "quick" else (1600, 4000)))


def strategy(tier):
    from hypothesis import strategies as st

    depth = 2 if tier == "quick" else 5

    @st.composite
    def uneven(draw):
        """Antes much larger than the bets: folded players may have put in most"""
        case = draw(game.games(many=True, max_hands=1, small_deck=True, max_acts=16))
        num = case["config"]["num_players"]
        case["config"]["antes"] = draw(
            st.lists(st.integers(0, 40), min_size=num, max_size=num)
        )
        for hand in case["hands"]:
            hand["style"] = draw(st.sampled_from([0, 1, 3, 4, 6]))
        return case

    return st.one_of(
        game.games(many=True, max_hands=depth, small_deck=True, max_acts=16),
        game.games(many=True, max_hands=depth, max_acts=16),
        game.games(many=True, max_hands=depth, small_deck=True, max_acts=16),
        game.games(many=True, max_hands=depth, max_acts=16),
        uneven(),
    )


def divide(commits, active, strength, button):
    """Expected winnings: one layer of chips after the other."""
    n = len(commits)
    won = [0] * n
    pots = []  # [winners, chips] merged by the same set of winners
    levels = sorted(set(commits) | {0})
    for below, level in zip(levels, levels[1:]):
        payers = [i for i in range(n) if commits[i] >= level]
        able = [i for i in payers if active[i]]
        if not able:
            # only folded players put in that much (uneven antes): the chips
            # belong to the last side pot
            deepest = max(commits[i] for i in range(n) if active[i])
            able = [i for i in range(n) if active[i] and commits[i] == deepest]
        top = max(strength[i] for i in able)
        winners = tuple(i for i in able if strength[i] == top)
        for pot in pots:
            if pot[0] == winners:
                pot[1] += len(payers) * (level - below)
                break
        else:
            pots.append([winners, len(payers) * (level - below)])
    for winners, chips in pots:
        share, odd = divmod(chips, len(winners))
        for seat in winners:
            won[seat] += share
        first = min(winners, key=lambda seat: (seat - button - 1) % n)
        won[first] += odd
    return won, pots


@game.with_trees
def check(case, rec):
    trace = game.play(case)
    cfg = trace.cfg
    game.features(trace, rec)
    rules = game.rules_of(cfg, trace.dealer)
    from .. import refpoker

    for hand in trace.hands:
        if hand.refused:
            continue
        end = hand.steps[-1]
        active = end.post.active
        if sum(active) < 2:
            continue
        commits = game.paid_chips(hand)
        board = [refpoker.parse(c) for c in end.post.community_cards]
        core.same(len(board), sum(cfg.comms), "cards on the board at the showdown")
        strength = [
            rules.best([refpoker.parse(c) for c in hand.hole[i]], board)
            if active[i]
            else None
            for i in range(cfg.n)
        ]
        if max(commits) > max(c for c, a in zip(commits, active) if a):
            rec.event("folded player put in most")
        won, pots = divide(commits, active, strength, end.post.button)
        core.same(
            end.payouts,
            [w - c for w, c in zip(won, commits)],
            "payouts (hole cards %s, board %s, chips put in %s, unfolded %s, button %d)",
            hand.hole, end.post.community_cards, commits, active, end.post.button,
        )
        ties = any(len(w) > 1 for w, _ in pots)
        odd = any(chips % len(w) for w, chips in pots)
        dead = any(c and not a for c, a in zip(commits, active))
        if ties:
            rec.event("showdown with tie")
        if odd:
            rec.event("showdown with odd chips")
        if odd and len(pots) > 1:
            rec.event("odd chips and side pots")
        rec.mark(ties or len(pots) > 1 or dead)
