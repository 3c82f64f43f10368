"""python3-vt -m vf.run <property> [--tier quick|thorough]

Runs the generated-input search of one property on the working tree, writes
evidence/<property>.json.  Exit 0: held on everything explored; 1: VIOLATION
(shrunk and confirmed in a fresh process); 2: error of the check itself.
"""
import argparse
import importlib
import json
import multiprocessing
import os
import random
import re
import subprocess
import sys
import tempfile
import time
import traceback

from . import boot, core, known

SHARDS = 8


def load_prop(pid):
    return importlib.import_module("vf.props.%s" % pid.lower())


def sweep_cases(prop, tier):
    fn = getattr(prop, "sweep", None)
    return fn(tier) if fn else iter(())


class Shard:
    """One slice of the search; runs in a forked process."""

    def __init__(self, pid, tier, seed, shard, scale):
        self.pid, self.tier, self.seed, self.shard = pid, tier, seed, shard
        self.scale = scale
        self.prop = load_prop(pid)
        self.history = []
        self.hashes = set()
        self.events = {}
        self.known = {}
        self.samples = []
        self.evaluations = 0
        self.failure = None
        self.first_failure = None

    def one(self, case):
        text = json.dumps(case, sort_keys=True)
        rec = core.Recorder()
        self.history.append(text)
        try:
            self.prop.check(json.loads(text), rec)
        except core.Violation as exc:
            if self.first_failure is None:
                self.first_failure = (text, str(exc), len(self.history) - 1)
            # the part of the case that fails is tried alone first
            text = json.dumps(getattr(exc, "case", case), sort_keys=True)
            self.failure = (text, str(exc), len(self.history) - 1)
            raise
        if self.failure is None:
            self.evaluations += 1
            for key, num in rec.events.items():
                self.events[key] = self.events.get(key, 0) + num
            for key, what in rec.known.items():
                self.known.setdefault(key, what)
            if rec.nontrivial:
                key = core.digest(case)
                if key not in self.hashes:
                    self.hashes.add(key)
                    if len(self.samples) < 2 or (
                        len(self.samples) < 4 and len(self.hashes) % 97 == 0
                    ):
                        self.samples.append(
                            {"case": case, "note": rec.note} if rec.note else case
                        )

    def run(self):
        core.guard_init()
        setup = getattr(self.prop, "setup", None)
        if setup:
            setup(self.tier)
        try:
            for idx, case in enumerate(sweep_cases(self.prop, self.tier)):
                if idx % SHARDS == self.shard:
                    self.one(case)
        except core.Violation:
            return
        num = int(self.prop.EXAMPLES[self.tier] * self.scale)
        num = (num + SHARDS - 1 - self.shard) // SHARDS
        if num > 0:
            self.search(num)

    def search(self, num):
        import hypothesis
        from hypothesis import HealthCheck, Phase, settings
        from hypothesis import errors
        from hypothesis.internal.conjecture import engine

        engine.MAX_SHRINKING_SECONDS = 40
        strategy = self.prop.strategy(self.tier)

        @hypothesis.seed(self.seed * 1000 + self.shard)
        @settings(
            max_examples=num,
            database=None,
            deadline=None,
            derandomize=False,
            report_multiple_bugs=False,
            phases=[Phase.generate]
            + ([Phase.shrink] if os.environ.get("VERIF_SHRINK") != "0" else []),
            suppress_health_check=list(HealthCheck),
            verbosity=hypothesis.Verbosity.quiet,
        )
        @hypothesis.given(strategy)
        def search(case):
            self.one(case)

        try:
            search()
        except core.Violation:
            pass
        except errors.Flaky:
            if self.failure is None:
                raise
        except BaseException:
            # hypothesis wraps some failures in exception groups
            if self.failure is None:
                raise

    def result(self):
        return {
            "evaluations": self.evaluations,
            "hashes": sorted(self.hashes),
            "events": self.events,
            "known": self.known,
            "samples": self.samples,
            "failure": self.failure,
            "first_failure": self.first_failure,
            "history": self.history if self.failure else None,
        }


def shard_main(pid, tier, seed, shard, scale, path):
    out = {"error": None}
    try:
        random.seed(seed)
        job = Shard(pid, tier, seed, shard, scale)
        try:
            job.run()
        except BaseException:
            if job.failure is None:
                raise
        out.update(job.result())
    except BaseException:
        out["error"] = traceback.format_exc()
    with open(path + ".tmp", "w") as file:
        json.dump(out, file)
    os.rename(path + ".tmp", path)
    os._exit(0)


def write_replay(pid, case, message, prefix, name):
    path = os.path.join(boot.OUT, "replays", name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as file:
        json.dump(
            {"property": pid, "message": message, "case": case, "prefix": prefix},
            file,
            indent=1,
            ensure_ascii=False,
        )
        file.write("\n")
    return path


def reproduces(path):
    """Runs the replay in a fresh process; the message if it fails, else None"""
    env = dict(os.environ)
    env.setdefault("PYTHONHASHSEED", "0")
    proc = subprocess.run(
        [sys.executable, "-m", "vf.replay", path],
        cwd=boot.VERIF,
        env=env,
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        text=True,
        timeout=600,
    )
    if proc.returncode == 1:
        return proc.stdout
    if proc.returncode == 0:
        return None
    raise RuntimeError("replay failed: %s %s" % (proc.stdout, proc.stderr))


def confirm(pid, results):
    """The replay file of a failure that a fresh process reproduces, or None"""
    for res in results:
        tried = set()
        for kind in ("failure", "first_failure"):
            text, message, pos = res[kind]
            if text in tried:
                continue
            tried.add(text)
            case = json.loads(text)
            name = "%s-%s.json" % (pid, core.digest(case))
            path = write_replay(pid, case, message, [], name)
            if reproduces(path):
                return path, message
            os.remove(path)
    # The failure needs what was run before it in the same process.
    for res in results:
        text, message, pos = res["first_failure"]
        case = json.loads(text)
        prefix = [json.loads(t) for t in res["history"][:pos]]
        name = "%s-%s-history.json" % (pid, core.digest(case))
        path = write_replay(pid, case, message, prefix, name)
        if not reproduces(path):
            os.remove(path)
            continue
        start = time.time()
        size = max(1, len(prefix) // 2)
        while prefix and time.time() - start < 60:
            done = True
            idx = 0
            while idx < len(prefix) and time.time() - start < 60:
                shorter = prefix[:idx] + prefix[idx + size:]
                write_replay(pid, case, message, shorter, name)
                if reproduces(path):
                    prefix = shorter
                    done = False
                else:
                    idx += size
            if size == 1 and done:
                break
            size = max(1, size // 2)
        write_replay(pid, case, message, prefix, name)
        return path, message
    return None


def explore(pid, tier, seed, scale=1.0):
    prop = load_prop(pid)
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(SHARDS, os.cpu_count() or 1)
    ctx = multiprocessing.get_context("fork")
    results = {}
    with tempfile.TemporaryDirectory(prefix="vf-") as tmp:
        waiting = list(range(SHARDS))
        running = {}
        stop = False
        try:
            while running or (waiting and not stop):
                while waiting and len(running) < jobs and not stop:
                    shard = waiting.pop(0)
                    path = os.path.join(tmp, str(shard))
                    proc = ctx.Process(
                        target=shard_main, args=(pid, tier, seed, shard, scale, path)
                    )
                    proc.start()
                    running[shard] = (proc, path)
                time.sleep(0.02)
                for shard, (proc, path) in list(running.items()):
                    if proc.is_alive():
                        continue
                    del running[shard]
                    proc.join()
                    if not os.path.exists(path):
                        raise RuntimeError(
                            "shard %s died with %s" % (shard, proc.exitcode)
                        )
                    with open(path) as file:
                        results[shard] = json.load(file)
                    if results[shard]["error"] or results[shard]["failure"]:
                        stop = True
                if stop and running:
                    # give shards that are about to finish a moment
                    deadline = time.time() + 1
                    while time.time() < deadline and any(
                        p.is_alive() for p, _ in running.values()
                    ):
                        time.sleep(0.02)
                    for shard, (proc, path) in running.items():
                        if proc.is_alive():
                            proc.kill()
                        proc.join()
                    running = {}
        finally:
            for proc, _ in running.values():
                proc.kill()
    return prop, [results[key] for key in sorted(results)]


def trim(samples, limit=24000):
    out, size = [], 0
    for sample in samples:
        text = json.dumps(sample, ensure_ascii=False)
        if len(text) > 6000:
            sample = text[:6000] + "..."
            text = sample
        if size + len(text.encode()) > limit:
            break
        out.append(sample)
        size += len(text.encode())
    return out


def evidence(prop, pid, tier, seed, results, wall, violations):
    hashes, events, samples = set(), {}, []
    evaluations = 0
    for res in results:
        evaluations += res["evaluations"]
        hashes.update(res["hashes"])
        for key, num in res["events"].items():
            events[key] = events.get(key, 0) + num
    depth = 0
    while len(samples) < 6 and any(len(r["samples"]) > depth for r in results):
        for res in results:
            if len(res["samples"]) > depth and len(samples) < 6:
                samples.append(res["samples"][depth])
        depth += 1
    out = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": prop.RULE,
            "samples": trim(samples),
            "events": dict(sorted(events.items())),
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    path = os.path.join(boot.OUT, "evidence", "%s.json" % pid)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as file:
        json.dump(out, file, indent=1, ensure_ascii=False)
        file.write("\n")
    return out


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--scale", type=float, default=1.0)
    args = parser.parse_args()
    pid = args.property.upper()
    digits = re.sub(r"\D", "", os.environ.get("VERIF_SEED", "1")) or "1"
    seed = int(digits)
    start = time.time()
    try:
        boot.load()
    except Exception as exc:
        # a package that cannot even be imported keeps no property
        traceback.print_exc()
        print("cannot import clubs: %s" % exc, file=sys.stderr)
        return 2
    prop, results = explore(pid, args.tier, seed, args.scale)
    failed = [res for res in results if not res["error"] and res["failure"]]
    errors = [res["error"] for res in results if res["error"]]
    ok = [res for res in results if not res["error"]]
    if failed:
        found = confirm(pid, failed)
        evidence(prop, pid, args.tier, seed, ok, time.time() - start, 1)
        if found is None:
            print("failure does not reproduce: %s" % (failed[0]["failure"],))
            return 2
        path, message = found
        print("%s: %s" % (pid, message))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("\n".join(errors), file=sys.stderr)
        return 2
    out = evidence(prop, pid, args.tier, seed, ok, time.time() - start, 0)
    seen = {}
    for res in ok:
        seen.update(res["known"])
    for key, entry in known.entries(pid).items():
        if key in seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, entry))
    print(
        "%s holds: %d cases, %d distinct non-trivial, %.1f s"
        % (
            pid,
            out["coverage"]["evaluations"],
            out["coverage"]["distinct_nontrivial"],
            out["wall_s"],
        )
    )
    return 0


if __name__ == "__main__":
    sys.exit(main())
