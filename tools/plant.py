"""tools/plant.py SPECS.py [ids]: confirms planted changes in scratch copies.

SPECS.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
needs, breaks, demo (python source).  For each one a scratch copy of /repo is
made under /tmp/plant, changed, demonstrated, tested, and given to the check of
its property; confirmed changes are written to /verif/seeded/<id>/.
"""
import json
import os
import re
import shutil
import subprocess
import sys

PY = "/opt/pypyvenv/bin/python"
SEEDED = "/verif/seeded"
SHELL = """#!/bin/bash
# run with the working directory at the top of the tree
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec %s "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd=None, timeout=900, **env):
    proc = subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          env=dict(os.environ, **env))
    return proc.returncode, proc.stdout


def copy(where):
    shutil.rmtree(where, ignore_errors=True)
    sh(["cp", "-a", "/repo", where])


def original(path):
    """Numbers of the lines of the current file which the base commit wrote"""
    base = sh("git rev-list --max-parents=0 HEAD", "/repo")[1].strip()[:8]
    out = sh(["git", "blame", "-s", "--abbrev=8", path], "/repo")[1]
    return {num for num, line in enumerate(out.splitlines(), 1)
            if line.lstrip("^")[:7] == base[:7]}


def tests(where):
    """Like /opt/vp/test.sh: own session, killed afterwards with its servers"""
    log = where + ".log"
    with open(log, "w") as file:
        proc = subprocess.Popen(
            [PY, "-m", "pytest", "-q", "-p", "pypy_collect", "-p", "no:cacheprovider",
             "--timeout=120", "test"], cwd=where, stdout=file, stderr=file,
            start_new_session=True,
            env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                     PYTHONPATH=where + ":/opt/vp/plugin"))
        try:
            code = proc.wait(300)
        except subprocess.TimeoutExpired:
            code = -1
    subprocess.run(["pkill", "-KILL", "-s", str(proc.pid)])
    out = open(log).read()
    os.remove(log)
    return code == 0 and "49 passed" in out, out


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = sys.argv[2:]
    for bug in spec["BUGS"]:
        if only and bug["id"] not in only:
            continue
        name = bug["id"]
        where = "/tmp/plant/" + name
        copy(where)
        bad = None
        for path, old, new in bug["edits"]:
            full = os.path.join(where, path)
            text = open(full, newline="").read()
            if "\r\n" in text:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if text.count(old) != 1:
                bad = "text occurs %d times: %r" % (text.count(old), old)
                break
            open(full, "w", newline="").write(text.replace(old, new))
        if bad:
            print(name, "BAD", bad)
            continue
        diff = subprocess.run(["git", "diff"], cwd=where, stdout=subprocess.PIPE).stdout
        touched = [m.group(1).strip() for m in
                   re.finditer(r"^--- a/(.*)$", diff.decode(), re.M)]
        changed = 0
        for path in touched:
            own = original(path)
            part = sh(["git", "diff", "-U0", "--", path], where)[1]
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", part, re.M):
                start, num = int(m.group(1)), int(m.group(2) or 1)
                for line in range(start, start + num):
                    if line in own:
                        changed += 1
                    else:
                        bad = "%s:%d is not an original line" % (path, line)
        if not changed:
            bad = "no original line changed"
        if bad:
            print(name, "BAD", bad)
            continue
        folder = os.path.join(SEEDED, name)
        temp = "/tmp/plant/%s.demo" % name
        shutil.rmtree(temp, ignore_errors=True)
        os.makedirs(temp)
        open(temp + "/patch.diff", "wb").write(diff)
        open(temp + "/demo.py", "w").write(bug["demo"].lstrip("\n"))
        open(temp + "/demo.sh", "w").write(SHELL % PY)
        os.chmod(temp + "/demo.sh", 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"],
                   "what_it_breaks": bug["breaks"]}, open(temp + "/meta.json", "w"), indent=1)
        applies = sh(["git", "apply", "--check", temp + "/patch.diff"], "/repo")
        if applies[0]:
            print(name, "BAD does not apply", applies[1])
            continue
        clean = sh(["bash", temp + "/demo.sh"], "/repo", 300)
        broken = sh(["bash", temp + "/demo.sh"], where, 300)
        if clean[0] != 0 or broken[0] == 0:
            print(name, "BAD demo: clean", clean, "patched", broken)
            continue
        passed, out = tests(where)
        if not passed:
            print(name, "CAUGHT BY TESTS:", out[-300:].replace("\n", " | "))
            continue
        shutil.rmtree(folder, ignore_errors=True)
        shutil.copytree(temp, folder)
        out = "/tmp/plant/%s.out" % name
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        shutil.copy("/verif/KNOWN_FINDINGS.txt", out)
        code, text = sh(["python3-vt", "-m", "vf.run", bug["property"], "--tier", "quick"],
                        "/verif", VERIF_REPO=where, VERIF_OUT=out, VERIF_SEED="1")
        print(name, {1: "caught", 0: "MISSED"}.get(code, "ERROR"),
              text.strip()[-400:].replace("\n", " | "))
        sys.stdout.flush()
        for path in (where, temp, out):
            shutil.rmtree(path, ignore_errors=True)


main()
