"""tools/mutate.py FILE OUT [--jobs N] [--only i,j]: mutation sweep.

Makes every small syntactic mutant of FILE (relative to /repo) in scratch copies
under /tmp/mutants and runs the checks of MAP on it until one raises an alarm.
Writes one line per mutant to OUT.  For finding weak spots of the checks; not
registered in MANIFEST.json.
"""
import ast
import concurrent.futures
import copy
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "clubs/poker/engine.py": "C06 C04 C02 C05 C03 C01 C09 C08 C10 C18 C16 C17 C07 C22",
    "clubs/poker/evaluator.py": "C11 C12 C13 C22 C17",
    "clubs/poker/card.py": "C14 C15 C08 C22",
    "clubs/render/ascii_viewer.py": "C18 C10",
    "clubs/render/graphic.py": "C19 C20 C21",
    "clubs/configs.py": "C17",
    "clubs/render/resources/static/parse_config.js": "C21",
    "clubs/render/ascii_table.txt": "C18",
}
CMP = {
    ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE],
    ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
    ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult],
       ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult],
       ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.LShift: [ast.RShift],
       ast.RShift: [ast.LShift]}
SWAP = {"min": "max", "max": "min", "any": "all", "all": "any", "list": "tuple",
        "sum": "max", "round": "int", "permutations": "combinations",
        "combinations": "permutations", "and_": "or_", "or_": "and_"}


def variants(node):
    """Mutated copies of the node."""
    if isinstance(node, ast.Compare):
        for idx, op in enumerate(node.ops):
            for new in CMP.get(type(op), []):
                out = copy.deepcopy(node)
                out.ops[idx] = new()
                yield out
    elif isinstance(node, ast.BinOp):
        for new in BIN.get(type(node.op), []):
            out = copy.deepcopy(node)
            out.op = new()
            yield out
    elif isinstance(node, ast.AugAssign):
        for new in BIN.get(type(node.op), []):
            out = copy.deepcopy(node)
            out.op = new()
            yield out
        yield ast.Pass()
    elif isinstance(node, ast.BoolOp):
        out = copy.deepcopy(node)
        out.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield out
        for idx in range(len(node.values)):
            out = copy.deepcopy(node)
            del out.values[idx]
            yield out if len(out.values) > 1 else out.values[0]
    elif isinstance(node, ast.UnaryOp):
        if isinstance(node.op, (ast.Not, ast.USub)):
            yield copy.deepcopy(node.operand)
    elif isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            yield ast.Constant(not node.value)
        elif isinstance(node.value, (int, float)):
            yield ast.Constant(node.value + 1)
            yield ast.Constant(node.value - 1)
        elif isinstance(node.value, str) and node.value:
            yield ast.Constant(node.value + "x")
    elif isinstance(node, (ast.If, ast.While)):
        for value in (True, False):
            out = copy.deepcopy(node)
            out.test = ast.Constant(value)
            yield out
        if isinstance(node, ast.If):
            out = copy.deepcopy(node)
            out.test = ast.UnaryOp(ast.Not(), out.test)
            yield out
    elif isinstance(node, ast.IfExp):
        yield copy.deepcopy(node.body)
        yield copy.deepcopy(node.orelse)
    elif isinstance(node, ast.Call):
        func = node.func
        name = getattr(func, "id", getattr(func, "attr", None))
        if name in SWAP:
            out = copy.deepcopy(node)
            if isinstance(func, ast.Name):
                out.func.id = SWAP[name]
            else:
                out.func.attr = SWAP[name]
            yield out
        if name in ("list", "copy", "abs", "round", "bool", "int", "float", "sorted") and (
            len(node.args) >= 1
        ):
            yield copy.deepcopy(node.args[0])
        for idx, key in enumerate(node.keywords):
            out = copy.deepcopy(node)
            del out.keywords[idx]
            yield out
    elif isinstance(node, ast.Assign):
        yield ast.Pass()
    elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        yield ast.Pass()
    elif isinstance(node, (ast.Break, ast.Continue)):
        yield ast.Pass()
        yield ast.Continue() if isinstance(node, ast.Break) else ast.Break()
    elif isinstance(node, ast.Return) and node.value is not None:
        yield ast.Return(ast.Constant(None))
    elif isinstance(node, ast.Slice):
        for key in ("lower", "upper", "step"):
            if getattr(node, key) is not None:
                out = copy.deepcopy(node)
                setattr(out, key, None)
                yield out
    elif isinstance(node, ast.comprehension):
        for idx in range(len(node.ifs)):
            out = copy.deepcopy(node)
            del out.ifs[idx]
            yield out


def python_mutants(text):
    tree = ast.parse(text)
    docs = set()
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            docs.add(id(node.value))
        if isinstance(node, (ast.AnnAssign, ast.arg)) and node.annotation is not None:
            skip.update(id(n) for n in ast.walk(node.annotation))
        if isinstance(node, (ast.FunctionDef,)) and node.returns is not None:
            skip.update(id(n) for n in ast.walk(node.returns))
        if isinstance(node, ast.Raise):
            skip.update(id(n) for n in ast.walk(node))
        if isinstance(node, ast.ClassDef) and any(
            getattr(b, "id", "") == "TypedDict" for b in node.bases
        ):
            skip.update(id(n) for n in ast.walk(node))
        if isinstance(node, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == "error_msg" for t in node.targets
        ):
            skip.update(id(n) for n in ast.walk(node))
        if isinstance(node, ast.FunctionDef):
            skip.update(id(d) for d in node.decorator_list)
            if any(getattr(d, "id", "") == "overload" for d in node.decorator_list):
                skip.update(id(n) for n in ast.walk(node))
    for parent in ast.walk(tree):
        for field, value in ast.iter_fields(parent):
            items = value if isinstance(value, list) else [value]
            for pos, node in enumerate(items):
                if not isinstance(node, ast.AST) or id(node) in docs or id(node) in skip:
                    continue
                for new in variants(node):
                    if isinstance(value, list):
                        value[pos] = new
                    else:
                        setattr(parent, field, new)
                    try:
                        out = ast.unparse(ast.fix_missing_locations(tree))
                    finally:
                        if isinstance(value, list):
                            value[pos] = node
                        else:
                            setattr(parent, field, node)
                    line = getattr(node, "lineno", getattr(parent, "lineno", 0))
                    was = ast.unparse(node).split("\n")[0][:90]
                    now = ast.unparse(ast.fix_missing_locations(new)).split("\n")[0][:90]
                    yield "%d: %s  ->  %s" % (line, was, now), out


def text_mutants(text):
    lines = text.split("\n")
    for num, line in enumerate(lines):
        bare = line.strip()
        if not bare or bare in ("}", "{", "})", "})()"):
            continue
        news = []
        if bare.endswith(";") or (bare.endswith(")") and "{" not in bare):
            news.append("")
        for old, new in ((" < ", " <= "), (" >= ", " > "), ("==", "!="), ("[0]", "[1]"),
                         ("= 0", "= 1"), ("= 1", "= 2"), ("+ 1", "+ 0"), ('""', '"x"'),
                         ("url(#card-", "url(#cart-"), ("#000000", "#ffffff"),
                         ("#ffffff", "#000000"), ("transparent", "red"),
                         ("black", "red"), ('"red"', '"black"'), ("if (", "if (!"),
                         ("[1]", "[0]"), ("innerHTML", "textContent2")):
            if old in line:
                news.append(line.replace(old, new, 1))
        for new in news:
            out = list(lines)
            out[num] = new
            yield "%d: %s  ->  %s" % (num + 1, bare[:90], new.strip()[:90]), "\n".join(out)


def run(job):
    num, name, path, text = job[:4]
    where = "/tmp/mutants/%d" % num
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    shutil.copytree("/repo/clubs", where + "/clubs")
    open(os.path.join(where, path), "w").write(text)
    out = where + "/out"
    os.makedirs(out)
    shutil.copy(ROOT + "/KNOWN_FINDINGS.txt", out)
    verdict = "SURVIVED"
    start = time.time()
    for check in (job[4] if len(job) > 4 else MAP[path]).split():
        try:
            proc = subprocess.run(
                ["python3-vt", "-m", "vf.run", check, "--tier", "quick",
                 "--scale", os.environ.get("MUT_SCALE", "0.25")], cwd=ROOT,
                env=dict(os.environ, VERIF_REPO=where, VERIF_OUT=out, VERIF_SEED="1",
                         VERIF_JOBS="1", VERIF_SHRINK="0"),
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
        except subprocess.TimeoutExpired:
            verdict = "TIMEOUT " + check
            break
        if proc.returncode == 2 and "cannot import clubs" in proc.stdout:
            verdict = "no import"
            break
        if proc.returncode:
            lines = [l for l in proc.stdout.splitlines() if not l.startswith("VIOL")]
            verdict = "%s %s: %s" % (
                "killed" if proc.returncode == 1 else "ERROR", check,
                (lines or [""])[-1][:160])
            break
    shutil.rmtree(where, ignore_errors=True)
    return num, name, verdict, time.time() - start


def main():
    path, result = sys.argv[1:3]
    jobs = int(sys.argv[sys.argv.index("--jobs") + 1]) if "--jobs" in sys.argv else 8
    text = open(os.path.join("/repo", path)).read()
    make = python_mutants if path.endswith(".py") else text_mutants
    todo = [(num, name, path, new) for num, (name, new) in enumerate(make(text))]
    if "--only" in sys.argv:
        only = {int(v) for v in sys.argv[sys.argv.index("--only") + 1].split(",")}
        todo = [job for job in todo if job[0] in only]
    print(len(todo), "mutants")
    if "--list" in sys.argv:
        for job in todo:
            print(job[0], job[1])
        return
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool, open(result, "w") as file:
        for future in concurrent.futures.as_completed([pool.submit(run, j) for j in todo]):
            num, name, verdict, secs = future.result()
            file.write("%d | %s | %s | %.0f s\n" % (num, name, verdict, secs))
            file.flush()


if __name__ == "__main__":
    main()
