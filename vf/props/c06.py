from .. import core, game

ID = "C06"
RULE = (
    "a case is a generated game as in C01; an independent model of turn order and street "
    "ends predicts the next seat to act after every reset and step; non-trivial if a hand "
    "has a fold, an all-in or a busted seat and at least 4 turns"
    "; a tree case stands for every way to play a hand at a tiny table and is "
    "non-trivial if one of its hands is"
)
EXAMPLES = {"quick": 20000, "thorough": 180000}
ASSUMPTIONS = ["the amount paid by a bet that ends a hand follows the rule of C05"]


def sweep(tier):
    """Every way to play a hand at tiny tables"""
    return game.trees(*((240, 300) if tier == "quick" else (1600, 4000)))


def strategy(tier):
    return game.games(many=True, max_hands=2 if tier == "quick" else 5, max_acts=24)


class Turns:
    """Whose turn it is, from the public state only."""

    def __init__(self, cfg, hand):
        self.cfg = cfg
        obs = hand.first
        self.button = obs.button
        self.dealt = hand.dealt
        self.street = 0
        self.turned = set()
        small = self.button
        if cfg.n > 2:
            small = game.next_seat(self.button, self.dealt)
        big = game.next_seat(small, self.dealt)
        self.action = game.next_seat(big, self.dealt)
        self.board = obs.community_cards
        self.outcome = "turn"

    def step(self, seat, active, stacks, commits):
        """After the bet of seat: "turn", "street" or "end"; stacks and commits
        are those of the moment right after the bet."""
        self.turned.add(seat)
        unfolded = [i for i in range(self.cfg.n) if active[i]]
        self.commits = commits
        if len(unfolded) == 1:
            self.outcome = "end"
            return "end"
        top = max(commits)
        settled = all(stacks[i] == 0 for i in unfolded) or all(
            i in self.turned and (commits[i] == top or stacks[i] == 0)
            for i in unfolded
        )
        if not settled:
            self.action = game.next_seat(seat, active)
            self.outcome = "turn"
            return "turn"
        self.street += 1
        if (
            self.street == self.cfg.streets
            or sum(stacks[i] > 0 for i in unfolded) <= 1
        ):
            self.outcome = "end"
            return "end"
        self.turned = set()
        self.action = game.next_seat(self.button, active)
        self.outcome = "street"
        return "street"


def after_bet(step):
    """Unfolded seats, stacks and street commitments right after the bet, from
    the state before and the rule for amounts."""
    pre, seat = step.pre, step.pre.action
    chips, folds = game.pay(step.bet, pre)
    if not step.ended:
        chips = pre.stacks[seat] - step.post.stacks[seat]
    active = list(step.post.active)
    stacks = list(pre.stacks)
    stacks[seat] -= chips
    commits = list(pre.street_commits)
    commits[seat] += chips
    return active, stacks, commits


@game.with_trees
def check(case, rec):
    trace = game.play(case)
    cfg = trace.cfg
    game.features(trace, rec)
    for hand in trace.hands:
        if hand.refused:
            continue
        turns = Turns(cfg, hand)
        core.same(hand.first.action, turns.action, "seat to act first")
        core.same(
            len(hand.first.community_cards), cfg.comms[0], "community cards after reset()"
        )
        log = []
        board = hand.first.community_cards
        for step in hand.steps:
            post = step.post
            active, stacks, commits = after_bet(step)
            log.append((step.pre.action, step.bet))
            outcome = turns.step(step.pre.action, active, stacks, commits)
            if outcome == "end":
                core.ensure(
                    step.ended, "the last street is over or nobody can bet any more, "
                    "but seat %d is to act (after %s)", post.action, log,
                )
                core.same(
                    post.community_cards[: len(board)], board, "board after the end"
                )
                if sum(active) > 1:
                    core.same(
                        len(post.community_cards), sum(cfg.comms),
                        "cards of the board after all streets (after %s)", log,
                    )
                break
            core.ensure(not step.ended, "the hand ended too early (after %s)", log)
            core.same(
                post.action, turns.action, "seat to act (new %s, after %s)", outcome, log
            )
            if outcome == "street":
                rec.event("streets")
                core.same(
                    post.street_commits, [0] * cfg.n, "commitments on a new street"
                )
                core.same(
                    post.community_cards[: len(board)], board, "old cards of the board"
                )
                core.same(
                    len(post.community_cards) - len(board),
                    cfg.comms[turns.street],
                    "cards added on street %d", turns.street,
                )
                log.append("street")
            else:
                rec.event("turns")
                core.same(post.community_cards, board, "board within a street")
                core.same(
                    post.street_commits, commits, "commitments within a street"
                )
            board = post.community_cards
        rec.mark(
            len(hand.steps) >= 4
            and (
                hand.last.active != [True] * cfg.n
                or any(0 in s.pre.stacks for s in hand.steps)
            )
        )
