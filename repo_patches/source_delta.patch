From 5ac6a2e517acd910fdd8d0ee08ef8dcfaade8832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 01/26] fix: post blinds and antes only up to the player's
 stack

A player with fewer chips than the blind or ante was charged the full
amount, which left a negative stack and corrupted every following bet size
and payout of the hand. Such a player is now all in for what is left.
---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index c18e6e3..96b057d 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -592,7 +592,7 @@ class Dealer:
         # roll list to action
         bets = bets[-self.action :] + bets[: -self.action]  # noqa: E203
         bets = [
-            (stack > 0) * active * bet
+            active * min(stack, bet)
             for stack, active, bet in zip(self.stacks, self.active, bets)
         ]
         if street_commits:
-- 
2.43.0


From 9637cb3e7775e9e57fe5b0ef536f0a106e48e526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 02/26] fix: give odd chips to the first winner after the
 button

The remainder of a split pot was looked up at player_idx + button without
wrapping around the table (the modulo bound to the button only) and then
paid to player_idx, so with the button anywhere but seat 0 the chips went to
the wrong seat, possibly one which did not win anything, or the hand ended
in an IndexError. If every share was 0 (a 1 chip pot) the remainder vanished.
Pay the remainder of every pot to the first player after the button who
shares that pot.
---
 clubs/poker/engine.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 96b057d..4157475 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -696,7 +696,6 @@ class Dealer:
         # sort hands by hand strength and pot commits
         hands = sorted(hands, key=operator.itemgetter(1, 2))
         pot = self.pot
-        remainder = 0
         payouts = [0] * self.num_players
         worst_hand = self.evaluator.table.max_rank + 1
         # iterate over hand strength and
@@ -716,7 +715,12 @@ class Dealer:
             remain = split_pot % len(eligible)
             for player_idx in eligible:
                 payouts[player_idx] += split
-            remainder += remain
+            # give worst position player remainder chips, worst
+            # player is first player after button involved in pot
+            worst_position = min(
+                eligible, key=lambda idx: (idx - self.button - 1) % self.num_players
+            )
+            payouts[worst_position] += remain
             # remove chips from players and pot
             for idx in range(len(cut)):
                 hands[idx][2] -= cut[idx]
@@ -725,13 +729,6 @@ class Dealer:
             hands[hand_idx][1] = worst_hand
             if pot == 0:
                 break
-        # give worst position player remainder chips
-        if remainder:
-            # worst player is first player after button involved in pot
-            for player_idx in range(1, self.num_players + 1):
-                if payouts[player_idx + self.button % self.num_players]:
-                    payouts[player_idx] += remainder
-                    break
         return payouts
 
     def _move_action(self) -> "Dealer":
-- 
2.43.0


From 294bb60a8fbdec1b88e6dffdca05270d4811deb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 03/26] fix: play out the hand when everybody is all in before
 acting

If a player was all in from a blind or ante and the last opponent moved all
in before the action got back to that player, all players were done, the
hand was closed on the current street without a showdown: bets were handed
back and the chips of folded players disappeared.
---
 clubs/poker/engine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 4157475..c8640fa 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -524,6 +524,11 @@ class Dealer:
         return win_probs
 
     def _all_agreed(self) -> bool:
+        # all agreed if all remaining players are all in
+        if all(
+            stack == 0 or not active for stack, active in zip(self.stacks, self.active)
+        ):
+            return True
         # not all agreed if not all players had chance to act
         if not all(self.street_option):
             return False
-- 
2.43.0


From 9308d24d2a3743692e1408e1cf2bed7ab25d90a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 04/26] fix: keep reporting the final payouts after the hand is
 over

The pot is emptied when the hand ends, but payouts were computed from the
pot. Calling step() again or rendering the table after everyone else folded
showed the winner losing the chips put into the pot.
---
 clubs/poker/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index c8640fa..a7918d8 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -658,7 +658,7 @@ class Dealer:
         # if only one player left give that player all chips
         if sum(self.active) == 1:
             payouts = [
-                payout + active * (self.pot - pot_commit)
+                payout + active * (sum(self.pot_commits) - pot_commit)
                 for payout, active, pot_commit in zip(
                     payouts, self.active, self.pot_commits
                 )
@@ -700,7 +700,7 @@ class Dealer:
         ]
         # sort hands by hand strength and pot commits
         hands = sorted(hands, key=operator.itemgetter(1, 2))
-        pot = self.pot
+        pot = sum(self.pot_commits)
         payouts = [0] * self.num_players
         worst_hand = self.evaluator.table.max_rank + 1
         # iterate over hand strength and
-- 
2.43.0


From 440927e8964718992c835f3fa94444a7dd8a525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 05/26] fix: record folds and checks in the history as they
 happened

step(0) facing a bet folds but was recorded as a check, and a negative bet
without a bet to call is a check but was recorded as a fold, so the table
rendered the wrong action.
---
 clubs/poker/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index a7918d8..dec33fb 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -373,7 +373,8 @@ class Dealer:
         bet = self._clean_bet(bet, call, min_raise, max_raise)
 
         # only fold if player cannot check
-        if call and ((bet < call) or fold):
+        fold = bool(call and ((bet < call) or fold))
+        if fold:
             self.active[self.action] = False
             bet = 0
 
@@ -384,7 +385,7 @@ class Dealer:
 
         self._collect_bet(bet)
 
-        self.history.append((self.action, int(bet), bool(fold)))
+        self.history.append((self.action, int(bet), fold))
 
         self.street_option[self.action] = True
         self._move_action()
-- 
2.43.0


From 13aaf205dc54a1b2179aceb27e297bd46b600eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 06/26] fix: accept float('inf') as raise size

The README and the docstring document float('inf') for no limit games but
only the string 'inf' was accepted.
---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index dec33fb..2af0556 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -174,7 +174,7 @@ class Dealer:
         def clean_rs(
             raise_size: Union[int, Literal["pot", "inf"]]
         ) -> Union[float, Literal["pot"]]:
-            if raise_size == "inf":
+            if raise_size in ("inf", float("inf")):
                 return float(raise_size)
             if raise_size == "pot":
                 return raise_size
-- 
2.43.0


From f78196fd1959a63a56b59fb61f3ff0f0489ac837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 07/26] fix: honour the order of a completely tricked deck

If every card of the deck was given to trick() there are no bottom cards
left and the deck was shuffled randomly.
---
 clubs/poker/card.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/card.py b/clubs/poker/card.py
index de54134..ea3d573 100644
--- a/clubs/poker/card.py
+++ b/clubs/poker/card.py
@@ -216,7 +216,7 @@ class Deck:
             self
         """
         self.cards = list(self.full_deck)
-        if self._tricked and self._top_idcs and self._bottom_idcs:
+        if self._tricked:
             top_cards = [self.full_deck[idx] for idx in self._top_idcs]
             bottom_cards = [self.full_deck[idx] for idx in self._bottom_idcs]
             random.shuffle(bottom_cards)
-- 
2.43.0


From ec615ba6f9fe21fc764cdbfb9e107d10b0a98bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 08/26] fix: do not round bets which lie between min and max
 raise

Without a big blind the first bet of a street has a minimum raise of 0. A
bet closer to 0 than to the maximum raise was then rounded down to a check
even though it is a valid bet size.
---
 clubs/poker/engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 2af0556..b07b6c3 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -582,6 +582,9 @@ class Dealer:
         # find closest bet size to actual bet
         # round down for tie, order is fold/check -> call -> raise
         bet = max(0, bet)
+        # no rounding needed if bet is a valid raise
+        if min_raise <= bet <= max_raise:
+            return bet
         idx = argmin([abs(value - bet) for value in [0, call, min_raise, max_raise]])
         # if call closest
         if idx == 1:
-- 
2.43.0


From f17d29fafaf59aed4b01364e34ea8784a0de088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 09/26] fix: count every full raise of a limit street

Raises were only counted if they were at least as large as the largest raise
so far. With a raise size below the big blind, or below the raise size of an
earlier street, no raise was ever counted and num_raises had no effect.
Calls were counted if the largest raise was still 0.
---
 clubs/poker/engine.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index b07b6c3..dd0896a 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -379,7 +379,7 @@ class Dealer:
             bet = 0
 
         # if bet is full raise record as largest raise
-        if bet and (bet - call) >= self.largest_raise:
+        if bet > call and (bet - call) >= self._full_raise():
             self.largest_raise = bet - call
             self.street_raises += 1
 
@@ -577,6 +577,13 @@ class Dealer:
         max_raise = min(max_raise, self.stacks[self.action])
         return call, min_raise, max_raise
 
+    def _full_raise(self) -> int:
+        # in limit games all full raises have the same size
+        raise_size = self.raise_sizes[self.street]
+        if isinstance(raise_size, int):
+            return raise_size
+        return self.largest_raise
+
     @staticmethod
     def _clean_bet(bet: int, call: int, min_raise: int, max_raise: int) -> int:
         # find closest bet size to actual bet
-- 
2.43.0


From af79d08b1120727ce039426ea68139f821f2c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 10/26] fix: reset the minimum raise at the start of every
 street

The largest raise of a previous street was carried over, e.g. after a raise
of 50 before the flop the smallest legal bet on the flop was 50 instead of
the big blind.
---
 clubs/poker/engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index dd0896a..2efffc1 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -414,6 +414,7 @@ class Dealer:
             self.street_commits = [0] * self.num_players
             self.street_option = [not active for active in self.active]
             self.street_raises = 0
+            self.largest_raise = self.big_blind
 
         done = self._done()
         payouts = self._payouts()
-- 
2.43.0


From 9250c6cfb187cdacd1bfdcac42aea7f1b1ab8564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 11/26] fix: never report a min raise larger than the max raise

In pot limit games with a missing or short big blind the pot can be smaller
than the big blind, which made the minimum raise exceed the maximum raise.
---
 clubs/poker/engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 2efffc1..857c11d 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -576,6 +576,8 @@ class Dealer:
         call = min(call, self.stacks[self.action])
         min_raise = min(min_raise, self.stacks[self.action])
         max_raise = min(max_raise, self.stacks[self.action])
+        # pot limit raises can't exceed pot size
+        min_raise = min(min_raise, max_raise)
         return call, min_raise, max_raise
 
     def _full_raise(self) -> int:
-- 
2.43.0


From 8d8f175ac8f4a720fe36e31e878fa6cae0ff4419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:41 +0000
Subject: [PATCH 12/26] fix: return copies of the table state in observations

Observations contained the lists of the dealer itself, so later steps changed
observations returned earlier and changing an observation changed the game.
---
 clubs/poker/engine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 857c11d..e1db6dc 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -650,16 +650,16 @@ class Dealer:
             call, min_raise, max_raise = self._bet_sizes()
         observation: ObservationDict = {
             "action": self.action,
-            "active": self.active,
+            "active": list(self.active),
             "button": self.button,
             "call": call,
-            "community_cards": self.community_cards,
-            "hole_cards": self.hole_cards[self.action],
+            "community_cards": list(self.community_cards),
+            "hole_cards": list(self.hole_cards[self.action]),
             "max_raise": max_raise,
             "min_raise": min_raise,
             "pot": self.pot,
-            "stacks": self.stacks,
-            "street_commits": self.street_commits,
+            "stacks": list(self.stacks),
+            "street_commits": list(self.street_commits),
         }
         return observation
 
-- 
2.43.0


From c8ab2d952b91820361e16972bbbb7f9b9ebaa1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 13/26] fix: support decks with few ranks

Lookup tables for decks with fewer or just as many ranks as cards in a hand
failed with an AssertionError: the number of combinations was 1 instead of 0
if there are not enough ranks, and the low end straight was counted although
it is the same hand as the only other straight. If the only suited hands are
straight flushes (as many ranks as cards) the suited lookup table was
dropped.
---
 clubs/poker/evaluator.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 8b4b1e2..9c78e18 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -315,7 +315,7 @@ class LookupTable:
 
         # if suited hands aren't relevant set the suited
         # lookup table equal to the unsuited table
-        if not self.hand_dict["flush"]["cumulative unsuited"]:
+        if not straight_flushes and not flushes:
             suited_lookup = unsuited_lookup
 
         self.suited_lookup = suited_lookup
@@ -342,14 +342,22 @@ class LookupTable:
         prime = _prime_product_from_hand(cards)
         return self.unsuited_lookup[prime]
 
+    @staticmethod
+    def _num_straights(ranks: int, cards_for_hand: int, low_end_straight: bool) -> int:
+        if cards_for_hand < 3 or cards_for_hand > ranks:
+            return 0
+        # number of smallest cards which start straight, the low end
+        # straight is no additional hand if it needs all ranks
+        low_end = low_end_straight and cards_for_hand < ranks
+        return ranks - (cards_for_hand - 1) + low_end
+
     @staticmethod
     def _straight_flush(
         suits: int, ranks: int, cards_for_hand: int, low_end_straight: bool
     ) -> Tuple[int, int]:
         if cards_for_hand < 3 or suits < 2:
             return 0, 0
-        # number of smallest cards which start straight
-        unsuited = ranks - (cards_for_hand - 1) + low_end_straight
+        unsuited = LookupTable._num_straights(ranks, cards_for_hand, low_end_straight)
         # multiplied with number of suits
         suited = max(unsuited, unsuited * suits)
         return int(suited), int(unsuited)
@@ -389,7 +397,9 @@ class LookupTable:
         if cards_for_hand < 3 or suits < 2:
             return 0, 0
         # all straight combinations
-        straight_flushes = ranks - (cards_for_hand - 1) + low_end_straight
+        straight_flushes = LookupTable._num_straights(
+            ranks, cards_for_hand, low_end_straight
+        )
         # choose all cards from ranks minus straight flushes
         unsuited = _ncr(ranks, cards_for_hand) - straight_flushes
         # multiplied by number of suits
@@ -402,8 +412,7 @@ class LookupTable:
     ) -> Tuple[int, int]:
         if cards_for_hand < 3:
             return 0, 0
-        # number of smallest cards which start straight
-        unsuited = ranks - (cards_for_hand - 1) + low_end_straight
+        unsuited = LookupTable._num_straights(ranks, cards_for_hand, low_end_straight)
         # straight flush combinations
         straight_flushes = 0
         if suits > 1:
@@ -461,10 +470,7 @@ class LookupTable:
     def _high_card(
         suits: int, ranks: int, cards_for_hand: int, low_end_straight: bool
     ) -> Tuple[int, int]:
-        # number of smallest cards which start straight
-        straights = 0
-        if cards_for_hand > 2:
-            straights = ranks - (cards_for_hand - 1) + low_end_straight
+        straights = LookupTable._num_straights(ranks, cards_for_hand, low_end_straight)
         # any combination of rank and subtract straights
         unsuited = _ncr(ranks, cards_for_hand) - straights
         # multiplied with suit choices for all cards
@@ -486,7 +492,7 @@ class LookupTable:
         for _ in range(ranks - (cards_for_hand - 1)):
             straight_flushes.append(int(bin_num_str, 2))
             bin_num_str = bin_num_str[:-1]
-        if low_end_straight:
+        if low_end_straight and cards_for_hand < ranks:
             # add low end straight
             bin_num_str = (
                 "0b1"
@@ -661,6 +667,8 @@ def _lexographic_next_bit(bits: int) -> Iterator[int]:
 
 
 def _ncr(n: int, r: int) -> int:
+    if r > n:
+        return 0
     r = min(r, n - r)
     numer = functools.reduce(operator.mul, range(n, n - r, -1), 1)
     denom = functools.reduce(operator.mul, range(1, r + 1), 1)
-- 
2.43.0


From 8a5ca3151872a06fd47bb65a20a560f2e079dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 14/26] fix: count suited high cards of 1 and 2 card hands

Hands with less than 3 cards have no flushes, so cards of the same suit are
high cards. With 2 ranks high cards came out as rare as pairs and were ranked
above them.
---
 clubs/poker/evaluator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 9c78e18..4c82c96 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -474,8 +474,9 @@ class LookupTable:
         # any combination of rank and subtract straights
         unsuited = _ncr(ranks, cards_for_hand) - straights
         # multiplied with suit choices for all cards
-        # all same suits not allowed
-        suited = max(unsuited, unsuited * (suits ** cards_for_hand - suits))
+        # all same suits not allowed if hand can be suited
+        same_suits = suits if cards_for_hand > 2 else 0
+        suited = max(unsuited, unsuited * (suits ** cards_for_hand - same_suits))
         if suits < 2:
             suited = unsuited
         return int(suited), int(unsuited)
-- 
2.43.0


From c4542bbed5ac042e7b682f9cbadfacc7394393ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:00 +0000
Subject: [PATCH 15/26] fix: support custom hand orders for decks without all
 hands

Hands which are impossible with a deck, e.g. four of a kind with 3 suits,
were only left out if they were at the start of the order. Anywhere else in
a custom order they made the lookup table fail with an AssertionError.
---
 clubs/poker/evaluator.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 4c82c96..dc8eeaa 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -298,7 +298,7 @@ class LookupTable:
             hand_rank = u_hand[1]
             cumulative_hands += u_hand[0]
             self.hand_dict[hand_rank]["cumulative unsuited"] = cumulative_hands
-            if cumulative_hands > 0:
+            if u_hand[0] > 0:
                 self.hand_dict[hand_rank]["rank"] = rank
                 rank += 1
                 ranked_hands.append(hand_rank)
@@ -530,8 +530,8 @@ class LookupTable:
     ) -> Tuple[Dict[int, int], Dict[int, int]]:
         straight_flushes = []
         if (
-            self.hand_dict["straight flush"]["cumulative unsuited"]
-            or self.hand_dict["straight"]["cumulative unsuited"]
+            self.hand_dict["straight flush"]["unsuited"]
+            or self.hand_dict["straight"]["unsuited"]
         ):
             straight_flushes = self._gen_straight_flush(
                 cards_for_hand, ranks, low_end_straight
@@ -540,15 +540,15 @@ class LookupTable:
         # flushes (including straight flushes)
         flushes = []
         if (
-            self.hand_dict["flush"]["cumulative unsuited"]
-            or self.hand_dict["high card"]["cumulative unsuited"]
+            self.hand_dict["flush"]["unsuited"]
+            or self.hand_dict["high card"]["unsuited"]
         ):
             flushes = self._gen_flush(cards_for_hand, ranks, straight_flushes)
 
         def add_to_dict(
             rank_string: str, rank_bits: List[int], lookup: Dict[int, int],
         ) -> Dict[int, int]:
-            if not self.hand_dict[rank_string]["cumulative unsuited"]:
+            if not self.hand_dict[rank_string]["unsuited"]:
                 return lookup
             num_ranks = len(rank_bits)
             assert num_ranks == self.hand_dict[rank_string]["unsuited"]
@@ -576,7 +576,7 @@ class LookupTable:
         ) -> Dict[int, int]:
             # inverse ranks, A - 2
             backwards_ranks = list(range(13 - 1, 13 - 1 - ranks, -1))
-            if not self.hand_dict[rank_string]["cumulative unsuited"]:
+            if not self.hand_dict[rank_string]["unsuited"]:
                 return unsuited_lookup
             # get cumulative hand rank
             hand_rank = self._get_rank(rank_string)
-- 
2.43.0


From d5544abda699b09dfdea83bf58796c4039cef0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 16/26] fix: leave the table unchanged if a reset is refused

reset() replaced the active players of the finished hand before it raised
TooFewActivePlayersError.
---
 clubs/poker/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index e1db6dc..76ced7f 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -283,11 +283,12 @@ class Dealer:
             self.active = [True] * self.num_players
             self.stacks = [self.start_stack] * self.num_players
         else:
-            self.active = [stack > 0 for stack in self.stacks]
-            if sum(self.active) <= 1:
+            active = [stack > 0 for stack in self.stacks]
+            if sum(active) <= 1:
                 raise error.TooFewActivePlayersError(
                     "not enough players have chips, set reset_stacks=True"
                 )
+            self.active = active
         if reset_button:
             self.button = 0
         else:
-- 
2.43.0


From 7731cef4d817c071ef5c68866ba1fc5210a8d5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 17/26] fix: do not render a hand as finished if all players
 are all in

If all players are all in from blinds and antes the hand was rendered as
finished, with all hole cards shown, before it was played.
---
 clubs/poker/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 76ced7f..a400e58 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -440,7 +440,8 @@ class Dealer:
         ]
         community_cards = self.community_cards
         button = int(self.button)
-        done = all(self._done())
+        # players can be all in from blinds without the hand being over
+        done = self.action == -1
         hole_cards = self.hole_cards
         pot = int(self.pot)
         payouts = self._payouts()
-- 
2.43.0


From e9f48cd64b6be5a7c08165f0ad7f5f849a8cb997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:58 +0000
Subject: [PATCH 18/26] fix: keep tied players out of side pots they have no
 chips in

A player whose commitment was used up by an equal commitment of another tied
player was skipped without being removed from the following split pots. With
commitments 5, 5, 10, 10 and a tie of the first three players the second of
them got half of the side pot of the third.
---
 clubs/poker/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index a400e58..558e4f1 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -730,6 +730,8 @@ class Dealer:
             # cut can only be as large as lowest player commit amount
             cut = [min(hand[2], pot_commit) for hand in hands]
             split_pot = sum(cut)
+            # remove player from next split pot
+            hands[hand_idx][1] = worst_hand
             if not split_pot:
                 continue
             split = split_pot // len(eligible)
@@ -746,8 +748,6 @@ class Dealer:
             for idx in range(len(cut)):
                 hands[idx][2] -= cut[idx]
             pot -= split_pot
-            # remove player from next split pot
-            hands[hand_idx][1] = worst_hand
             if pot == 0:
                 break
         return payouts
-- 
2.43.0


From 9278732ca279486d8b0a41a644cf47f816690965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:25 +0000
Subject: [PATCH 19/26] fix: pay out chips only folded players have put in

With uneven antes a player who folds can have more chips in the pot than anybody
who is left. These chips were split between all players including those who had
folded or lost. They now belong to the last side pot.
---
 clubs/poker/engine.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 558e4f1..4277b1b 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -727,8 +727,15 @@ class Dealer:
                 for player_idx, other_strength, _ in hands
                 if other_strength == strength
             ]
+            # all chips are won if only folded players are left
+            if strength == worst_hand:
+                break
             # cut can only be as large as lowest player commit amount
             cut = [min(hand[2], pot_commit) for hand in hands]
+            # largest commit of players still in the hand also wins
+            # chips folded players have committed on top of it
+            if pot_commit == max(hand[2] for hand in hands if hand[1] != worst_hand):
+                cut = [hand[2] for hand in hands]
             split_pot = sum(cut)
             # remove player from next split pot
             hands[hand_idx][1] = worst_hand
-- 
2.43.0


From abb566f799cd32485dd674ceea8547e6871ba4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:50 +0000
Subject: [PATCH 20/26] fix: refuse custom hand orders naming a category twice

---
 clubs/poker/evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index dc8eeaa..6b38954 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -213,7 +213,9 @@ class LookupTable:
     ):
 
         if order is not None:
-            if any(string not in order for string in self.ORDER_STRINGS):
+            if len(order) != len(self.ORDER_STRINGS) or any(
+                string not in order for string in self.ORDER_STRINGS
+            ):
                 raise error.InvalidOrderError(
                     (
                         f"invalid order list {order},"
-- 
2.43.0


From 6839b04f8c8e9f4e318537634679920bc7a1a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:33 +0000
Subject: [PATCH 21/26] fix: serve the table on the host given to the viewer

---
 clubs/render/graphic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 9eda291..7f21f84 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -145,7 +145,7 @@ class GraphicViewer(viewer.PokerViewer):
 
         socketio.start_background_task(listener)
 
-        socketio.run(app, port=self.port)
+        socketio.run(app, host=self.host, port=self.port)
 
     def render(self, config: viewer.RenderConfig, sleep: float = 0) -> None:
         """Render the table in browser based on the table configuration
-- 
2.43.0


From b21ea0703e17e78e1e4ee3c0c5f4d0b5d4539d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:28 +0000
Subject: [PATCH 22/26] fix: move fractional bets to the nearest legal amount

step(2.3) with the legal amounts 0 and 4 folded, step(3.5) between min and max
raise bet 4 although ties go to the smaller amount, and step(float('inf'))
raised OverflowError.
---
 clubs/poker/engine.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 4277b1b..94280b2 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -367,7 +367,6 @@ class Dealer:
             raise error.TableResetError("call reset() before calling first step()")
 
         fold = bet < 0
-        bet = round(bet)
 
         call, min_raise, max_raise = self._bet_sizes()
         # round bet to nearest sizing
@@ -590,13 +589,15 @@ class Dealer:
         return self.largest_raise
 
     @staticmethod
-    def _clean_bet(bet: int, call: int, min_raise: int, max_raise: int) -> int:
+    def _clean_bet(bet: float, call: int, min_raise: int, max_raise: int) -> int:
         # find closest bet size to actual bet
         # round down for tie, order is fold/check -> call -> raise
         bet = max(0, bet)
-        # no rounding needed if bet is a valid raise
+        bet = min(bet, max(call, max_raise))
+        # bets within the valid raises only need to be whole chips
         if min_raise <= bet <= max_raise:
-            return bet
+            chips = int(bet)
+            return chips + 1 if bet - chips > 0.5 else chips
         idx = argmin([abs(value - bet) for value in [0, call, min_raise, max_raise]])
         # if call closest
         if idx == 1:
@@ -771,7 +772,7 @@ class Dealer:
         return self
 
 
-def argmin(values: List[int]) -> int:
+def argmin(values: List[float]) -> int:
     minimum = float("inf")
     minimum_idx = 0
     for idx, value in enumerate(values):
-- 
2.43.0


From 53281dbdcea64025df16f07af4b62d762572768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:54 +0000
Subject: [PATCH 23/26] fix: page server outlives the program of its viewer

A program which rendered in the browser and ended without closing the viewer
hung at exit waiting for the server, and a server whose program was killed went
on serving.
---
 clubs/render/graphic.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 7f21f84..5d9c59a 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -56,7 +56,8 @@ class GraphicViewer(viewer.PokerViewer):
             self.num_players, self.num_hole_cards, self.num_community_cards
         )
 
-        self.process = multiprocessing.Process(target=self._run_flask)
+        # daemon, otherwise programs which do not close the viewer never end
+        self.process = multiprocessing.Process(target=self._run_flask, daemon=True)
         self.process.start()
 
         self._test_socket_conn()
@@ -133,7 +134,11 @@ class GraphicViewer(viewer.PokerViewer):
             conn = socket.accept()
             while True:
                 if conn.poll():
-                    message: Dict[str, Any] = conn.recv()
+                    try:
+                        message: Dict[str, Any] = conn.recv()
+                    except EOFError:
+                        # process of the viewer ended without closing it
+                        os._exit(0)
                     if message["content"] == "close":
                         conn.close()
                         break
-- 
2.43.0


From 9914fa096c054b3e30e53057bd110c7e44a133c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:54 +0000
Subject: [PATCH 24/26] fix: speed test evaluates no cards once its deck is
 empty

---
 clubs/poker/evaluator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 6b38954..ad1220a 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -176,6 +176,7 @@ class Evaluator(object):
             start = timer()
             self.evaluate(deck.draw(2), deck.draw(5))
             time += timer() - start
+            deck.shuffle()
 
         avg = time / n
         return avg
-- 
2.43.0


From 8cac601dbbb4bc665f8cbb47dc95f0e854de88dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:52 +0000
Subject: [PATCH 25/26] fix: viewers at ports in use show another table or hang

---
 clubs/render/graphic.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 5d9c59a..2191a45 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -44,13 +44,11 @@ class GraphicViewer(viewer.PokerViewer):
             )
 
         self.host = host
-        if port:
-            self.port = port
-        else:
-            tmp_socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
-            tmp_socket.bind(("", 0))
-            self.port = tmp_socket.getsockname()[1]
-            tmp_socket.close()
+        self.port = port or self._free_port()
+        if not self._ports_free(self.port):
+            raise error.RenderInitializationError(
+                f"ports {self.port} and {self.port + 1} have to be free"
+            )
 
         self.svg_poker = _SVGPoker(
             self.num_players, self.num_hole_cards, self.num_community_cards
@@ -64,6 +62,27 @@ class GraphicViewer(viewer.PokerViewer):
         self._test_flask_conn()
         print(f"clubs table openend at http://{self.host}:{self.port}")
 
+    def _free_port(self) -> int:
+        for _ in range(100):
+            tmp_socket = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
+            tmp_socket.bind(("", 0))
+            port = int(tmp_socket.getsockname()[1])
+            tmp_socket.close()
+            if self._ports_free(port):
+                break
+        return port
+
+    def _ports_free(self, port: int) -> bool:
+        # the page is served on the port, states are sent to the next port
+        for used_port in (port, port + 1):
+            with socket.socket(socket.AF_INET, socket.SOCK_STREAM) as tmp_socket:
+                tmp_socket.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
+                try:
+                    tmp_socket.bind((self.host, used_port))
+                except (OSError, OverflowError):
+                    return False
+        return True
+
     def _test_socket_conn(self) -> None:
         start = time.time()
         while True:
@@ -94,8 +113,10 @@ class GraphicViewer(viewer.PokerViewer):
         assert response and response.status == 200
 
     def close(self) -> None:
-        if self.process.is_alive():
-            self.socket.send({"content": "close"})
+        # not started if initialization failed
+        if hasattr(self, "process") and self.process.is_alive():
+            if hasattr(self, "socket"):
+                self.socket.send({"content": "close"})
             self.process.terminate()
             self.process.join()
 
-- 
2.43.0


From a16fcaa224a0b165715e27157330ead944e65b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:41 +0000
Subject: [PATCH 26/26] fix: tables of more than ten seats cannot be made

---
 clubs/poker/engine.py        | 9 ++++++---
 clubs/render/ascii_viewer.py | 6 ++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 94280b2..cdb8784 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -229,11 +229,14 @@ class Dealer:
         # render
         self.viewer: Optional[render.PokerViewer]
         self.viewer = None
-        self.ascii_viewer = render.ASCIIViewer(
-            num_players, num_hole_cards, sum(num_community_cards)
-        )
+        self.ascii_viewer: Optional[render.ASCIIViewer] = None
 
     def __str__(self) -> str:
+        # not made before, since it has places for few players only
+        if self.ascii_viewer is None:
+            self.ascii_viewer = render.ASCIIViewer(
+                self.num_players, self.num_hole_cards, sum(self.num_community_cards)
+            )
         config = self._render_config()
         return self.ascii_viewer._parse_string(config)
 
diff --git a/clubs/render/ascii_viewer.py b/clubs/render/ascii_viewer.py
index 96d657c..46375c7 100644
--- a/clubs/render/ascii_viewer.py
+++ b/clubs/render/ascii_viewer.py
@@ -2,6 +2,7 @@ import os
 import time
 from typing import Any, List
 
+from .. import error
 from . import viewer
 
 
@@ -95,6 +96,11 @@ class ASCIIViewer(viewer.PokerViewer):
         with open("{}/ascii_table.txt".format(dir_path), "r") as file:
             self.table = file.read()
 
+        if num_players not in self.POS_DICT:
+            raise error.RenderInitializationError(
+                f"the ascii table has places for {min(self.POS_DICT)} to "
+                f"{max(self.POS_DICT)} players, got {num_players}"
+            )
         self.player_pos = self.POS_DICT[num_players]
 
     def _parse_string(self, config: viewer.RenderConfig) -> str:
-- 
2.43.0

