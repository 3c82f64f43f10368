"""tools/rare.py FILE OUT [--num N] [--jobs N] [--seed S]: rare-trigger mutants.

Like tools/mutate.py, but each mutant acts only under a random condition on the
state of the object (a street, a seat, stack sizes, length of the history, ...),
so that it needs something specific to manifest.  A sample of N of them is run.
For finding weak spots of the checks; not registered in MANIFEST.json.
"""
import ast
import concurrent.futures
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate  # noqa: E402

CONDS = {
    "Dealer": """
self.street == 2
self.street == 1
self.street >= 3
self.num_players == 6
self.num_players == 4
self.num_players == 2
self.num_players >= 8
self.button == self.num_players - 1
self.button == 0
self.button == 3
sum(self.active) == 3
sum(self.active) == 2 and self.num_players > 2
sum(self.active) >= 4
min(self.stacks) == 0
sum(s == 0 for s in self.stacks) >= 2
min(self.stacks) == 1
len(self.history) > 9
len(self.history) == 4
self.street_raises >= 2
self.street_raises == 3
self.pot > 60
self.pot % 7 == 3
self.action == self.button
self.action == 2
len(set(self.pot_commits)) >= 3
self.num_streets > 3
self.num_streets == 1
any(self.antes)
not any(self.antes)
self.num_players > 3 and self.blinds[2] > 0
self.blinds[0] > self.blinds[1]
len(self.community_cards) == 4
len(self.community_cards) > 5
'pot' in self.raise_sizes
len(set(map(str, self.raise_sizes))) > 1
self.num_suits == 1
self.num_hole_cards >= 4
self.mandatory_num_hole_cards > 0
bool(self.history) and self.history[-1][2]
bool(self.history) and self.history[-1][1] == 0
bool(self.history) and self.history[-1][0] == self.num_players - 1
len(self.history) > 1 and self.history[-2][2]
max(self.stacks) > self.start_stack * 2
self.largest_raise > self.big_blind * 2
self.big_blind == 0
self.start_stack > 100
self.stacks[self.action] == max(self.stacks)
self.street_commits[self.action] == max(self.street_commits)
sum(self.street_option) >= self.num_players - 1
self.stacks[self.action] == 0
not self.active[0]
not self.active[self.button]
""",
    "Evaluator": """
self.suits == 3
self.suits == 1
self.suits == 2
self.ranks == 5
self.ranks == 13
self.ranks < 4
self.cards_for_hand == 4
self.cards_for_hand == 5
self.cards_for_hand == 3
self.cards_for_hand == 2
self.suits == 4 and self.ranks > 8
self.mandatory_num_hole_cards > 0
""",
    "LookupTable": "",
    "Deck": """
self.num_suits == 1
self.num_suits == 3
self.num_ranks == 13
self.num_ranks < 4
self._tricked
len(self._top_idcs) > 3
len(self._bottom_idcs) == 1
len(self.cards) < 4
len(self.cards) == len(self.full_deck)
self.full_deck[0].rank == '7'
""",
    "Card": """
self.rank == 'T'
self.suit == chr(9829)
self.rank == 'A' and self.suit == chr(9827)
self.rank == '2'
""",
}


CHECKS = {  # of the methods of the dealer
    "reset": "C09 C01 C08 C22 C10", "step": "C06 C05 C07 C03 C04 C01",
    "_render_config": "C18 C20 C10", "render": "C18 C20 C10", "__str__": "C18",
    "win_probabilities": "C16", "_all_agreed": "C06 C07", "_bet_sizes": "C04 C05",
    "_full_raise": "C04", "_collect_multiple_bets": "C09 C01", "_collect_bet": "C05 C01",
    "_done": "C07 C03", "_observation": "C10 C04 C07 C08", "_payouts": "C03 C02 C01",
    "_eval_hands": "C02 C16 C13", "_eval_round": "C02 C01", "_move_action": "C06 C09 C07",
}


def mutants(text, rng):
    tree = ast.parse(text)
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.Raise):
            skip.update(id(n) for n in ast.walk(node))
        if isinstance(node, (ast.AnnAssign, ast.arg)) and node.annotation is not None:
            skip.update(id(n) for n in ast.walk(node.annotation))
    out = []
    for cls in [n for n in tree.body if isinstance(n, ast.ClassDef)]:
        conds = [c for c in CONDS.get(cls.name, "").strip().split("\n") if c]
        for fun in [n for n in cls.body if isinstance(n, ast.FunctionDef)]:
            if fun.name in ("__init__", "__repr__", "speed_test") or not conds:
                continue
            if not fun.args.args or fun.args.args[0].arg != "self":
                continue
            for stmt in fun.body:
                for parent in ast.walk(stmt):
                    places(parent, tree, skip, conds, fun.name, rng, out)
                if not isinstance(stmt, (ast.For, ast.If, ast.While)):
                    continue
    return out


def places(parent, tree, skip, conds, where, rng, out):
    for field, value in ast.iter_fields(parent):
        items = value if isinstance(value, list) else [value]
        for pos, node in enumerate(items):
            if not isinstance(node, (ast.expr, ast.stmt)) or id(node) in skip:
                continue
            if isinstance(getattr(node, "ctx", None), ast.Store):
                continue
            for new in mutate.variants(node):
                cond = rng.choice(conds)
                if rng.random() < 0.4:
                    cond = "(%s) and (%s)" % (cond, rng.choice(conds))
                test = ast.parse(cond, mode="eval").body
                if isinstance(node, ast.stmt):
                    rare = ast.If(test, [new], [node])
                elif isinstance(parent, ast.JoinedStr):
                    continue
                else:
                    rare = ast.IfExp(test, new, node)
                swap(value, pos, parent, field, rare)
                try:
                    text = ast.unparse(ast.fix_missing_locations(tree))
                    compile(text, "mutant", "exec")
                except Exception:
                    continue
                finally:
                    swap(value, pos, parent, field, node)
                name = "%d %s: %s  ->  %s  IF %s" % (
                    getattr(node, "lineno", 0), where,
                    ast.unparse(node).split("\n")[0][:80],
                    ast.unparse(ast.fix_missing_locations(new)).split("\n")[0][:80], cond)
                out.append((name, text))


def swap(value, pos, parent, field, node):
    if isinstance(value, list):
        value[pos] = node
    else:
        setattr(parent, field, node)


def option(name, default):
    return int(sys.argv[sys.argv.index(name) + 1]) if name in sys.argv else default


def main():
    path, result = sys.argv[1:3]
    rng = random.Random(option("--seed", 1))
    text = open(os.path.join("/repo", path)).read()
    every = mutants(text, rng)
    print(len(every), "mutants")
    todo = rng.sample(every, min(len(every), option("--num", 100)))
    base = 10000 + option("--seed", 1) * 1000
    jobs = []
    for num, (name, new) in enumerate(todo):
        checks = mutate.MAP[path]
        if path.endswith("engine.py"):
            checks = CHECKS[name.split()[1].rstrip(":")]
        jobs.append((base + num, name, path, new, checks))
    with concurrent.futures.ThreadPoolExecutor(option("--jobs", 4)) as pool, open(
        result, "a"
    ) as file:
        for future in concurrent.futures.as_completed([pool.submit(mutate.run, j) for j in jobs]):
            num, name, verdict, secs = future.result()
            file.write("%d | %s | %s | %.0f s\n" % (num, name, verdict, secs))
            file.flush()


if __name__ == "__main__":
    main()
