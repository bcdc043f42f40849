#!/usr/bin/env python3
"""C20: generated programs over the public API, interpreted by Miri.

usage: run.py quick|thorough      (seed: VERIF_SEED)
       run.py replay FILE

Failures listed as "known:" in known-findings.txt are reported and do not fail
the check; they are told by the kind of program, the innermost function of the
library or of the program, and what Miri says.
"""
import json
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BAD = re.compile(r"(Undefined Behavior: .*|unsafe precondition\(s\) violated.*|memory leaked: .*)")
JOBS = 8


def env(seed, leaks):
    e = dict(os.environ)
    e["MIRIFLAGS"] = "-Zmiri-tree-borrows -Zmiri-seed=%d" % seed
    if not leaks:
        e["MIRIFLAGS"] += " -Zmiri-ignore-leaks"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None)
    return e


def miri(seed, args, limit):
    """(exit code or None, stdout, stderr)"""
    p = subprocess.Popen(
        ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--", str(seed)]
        + [str(a) for a in args],
        cwd=HERE, env=env(seed, len(args) > 2 and args[2] == 1), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=limit)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out, err


def counted(seed, args, limit):
    """The same programs, compiled and run many times over, memory in use counted."""
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e["CARGO_TARGET_DIR"] = os.path.join(HERE, "target")
    b = subprocess.run(["cargo", "build", "--release", "-q", "--offline"], cwd=HERE, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if b.returncode != 0:
        return b.returncode, "", b.stdout
    try:
        r = subprocess.run([os.path.join(HERE, "target/release/rqmiri"), str(seed)]
                           + [str(a) for a in args], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=limit)
    except subprocess.TimeoutExpired as t:
        return None, (t.stdout or b"").decode(), ""
    return r.returncode, r.stdout, r.stderr


def lost(res):
    """None or (case, message)"""
    if res[0] in (-11, -7, -6) and cases(res[1]):
        return cases(res[1])[-1], "ended by signal %d" % -res[0]
    m = re.search(r"^LOST (\d+) bytes per run", res[1], re.M)
    return (cases(res[1])[-1], "memory lost: %s bytes per run" % m.group(1)) if m else None


KNOWN = os.path.join(VERIF, "known-findings.txt")


def known():
    with open(KNOWN) as f:
        return re.findall(r'^known: property=C20 signature="([^"]*)"(.*)$', f.read(), re.M)


def signature(kind, err):
    """kind of program: innermost function: what is wrong"""
    m = BAD.search(err)
    text = err[m.start():]
    where = re.search(r"^\s*0: (?:<)?([A-Za-z_][A-Za-z0-9_:]*)", text, re.M)
    what = "use-after-free" if re.search("use-after-free|has been freed|dangling", m.group(1)) else m.group(1)
    return "%s: %s: %s" % (kind, where.group(1).rstrip(":") if where else "?", what)


def cases(out):
    return re.findall(r"^CASE (\d+) (\S+) size=(\d+)$", out, re.M)


def verdict(res):
    """None: clean; 'limit'; ('bad', case, message); ('error', text)"""
    code, out, err = res
    done = cases(out)
    m = BAD.search(err)
    if m and done:
        text = err[max(0, m.start() - 200):m.start() + 1500]
        return ("bad", done[-1], m.group(1), text, signature(done[-1][1], err))
    if code is None:
        return "limit"
    if code == 0 and "DONE" in out:
        return None
    return ("error", (err or out)[-2000:])


def replay(path):
    r = json.load(open(path))
    if r["mode"] == 4:
        res = counted(r["seed"], [r["case"], 1, 4] + ([r["size"]] if "size" in r else []), 300)
        if lost(res):
            print("replay: C20 fails:", lost(res)[1])
            return 1
        if res[0] != 0:
            print("replay: no answer", res[2][-2000:])
            return 2
        print("replay: C20 holds on this case")
        return 0
    v = verdict(miri(r["seed"], [r["case"], 1, r["mode"]] + ([r["size"]] if "size" in r else []), 600))
    if v is not None and v[0] == "bad" and v[4] in dict(known()):
        print("replay: a known finding:", v[4])
        return 0
    if v is None:
        print("replay: C20 holds on this case")
        return 0
    if v[0] == "bad":
        print("replay: C20 fails:", v[2])
        print(v[3])
        return 1
    print("replay: no answer", v)
    return 2


def main():
    tier = sys.argv[1]
    if tier == "replay":
        return replay(sys.argv[2])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    each = 400 if tier == "thorough" else 20
    rounds = 12 if tier == "thorough" else 3
    budget = 4 * 3600 if tier == "thorough" else 420
    # Builds, and prepares the interpreter's own standard library.
    code, out, err = miri(seed, [0, 0, 2], 800)
    if code != 0 or "DONE" not in out:
        print((err or out)[-4000:])
        print("ERROR property=C20: the programs do not build against /repo or do not start")
        return 2
    many = counted(seed, [0, 100000 if tier == "thorough" else 3000, 4], 300)
    built = time.time() - start
    bad, seen, kinds, panicked, samples = None, 0, {}, 0, []
    # The solving programs keep threads, so lost memory is looked for in the
    # others, which run apart.
    # A listed failure ends its process, so those programs run one by one.
    listed, reported = dict(known()), set()
    ranges = [(k, 1, 3) for k in range(32 if tier == "thorough" else 4)]
    for k in range(rounds * JOBS):
        ranges += [(k * each, each, 1), (k * each, each, 2)]
    stop = []

    def work(rg):
        left = start + built + budget - time.time()
        if stop or left < 5:
            return None
        res = miri(seed, list(rg), left)
        v = verdict(res)
        if isinstance(v, tuple) and not (v[0] == "bad" and v[4] in listed):
            stop.append(1)
        return res

    errors = []
    with ThreadPoolExecutor(JOBS) as ex:
        for rg, res in zip(ranges, ex.map(work, ranges)):
            if res is None:
                continue
            cs = cases(res[1])
            v = verdict(res)
            if v == "limit":
                cs = cs[:-1]
            seen += len(cs)
            for c in cs:
                kinds[c[1]] = kinds.get(c[1], 0) + 1
            samples += [{"seed": seed, "case": int(c[0]), "kind": c[1], "size": int(c[2])} for c in cs[:1]]
            m = re.search(r"DONE \d+ cases, (\d+) panicked", res[1])
            panicked += int(m.group(1)) if m else 0
            if isinstance(v, tuple) and v[0] == "bad" and v[4] in listed:
                if v[4] not in reported:
                    reported.add(v[4])
                    print("KNOWN-FINDING: property=C20 %s%s" % (v[4], listed[v[4]]))
            elif isinstance(v, tuple) and v[0] == "bad":
                if bad is None or int(v[1][2]) < int(bad[1][2]):
                    bad = v
            elif isinstance(v, tuple):
                errors.append(v[1])
    rep, path = None, None
    if many[0] not in (0, None) and not lost(many):
        errors.append((many[2] or many[1])[-2000:])
    if lost(many) and not bad:
        (n, kind, size), message = lost(many)
        rep = {"property": "C20", "seed": seed, "case": int(n), "kind": kind, "message": message, "mode": 4}
        detail = "compiled and run over and over, a program of the kind %s fails" % kind
        for k in range(1, int(size)):
            res = counted(seed, [n, 1, 4, k], 100)
            if lost(res):
                rep["size"], rep["message"] = k, lost(res)[1]
                break
        bad = True
    elif bad:
        n, kind, size = int(bad[1][0]), bad[1][1], int(bad[1][2])
        rep = {"property": "C20", "seed": seed, "case": n, "kind": kind, "message": bad[2],
               "mode": {"solve": 2, "own-solver": 2, "kept-model": 3}.get(kind, 1)}
        detail = bad[3]
        # Shrink: the same kind of program with less of everything.
        with ThreadPoolExecutor(JOBS) as ex:
            sizes = list(range(1, size))
            for s, res in zip(sizes, ex.map(lambda s: miri(seed, [n, 1, rep["mode"], s], 120), sizes)):
                v = verdict(res)
                if isinstance(v, tuple) and v[0] == "bad":
                    rep["size"], rep["message"], detail = s, v[2], v[3]
                    break
    if rep:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "C20-%d-%d.json" % (seed, rep["case"]))
        json.dump(rep, open(path, "w"), indent=1)
    ev = {
        "property": "C20", "tier": "thorough" if tier == "thorough" else "quick",
        "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": seen,
            "distinct_nontrivial": seen - kinds.get("bits", 0),
            "rule": "a case is a generated program (assignments over expressions whose label "
                    "clones may panic, bit containers, models and their iterators, models and solvers "
                    "of the user's own, solving), made "
                    "from its own number and the seed, so no two are the same; run under Miri, which "
                    "stops at undefined behaviour and reports memory lost at the end; the plain bit "
                    "container programs are not counted as non-trivial",
            "samples": samples[:6],
            "kinds": kinds,
            "run_over_and_over": len(cases(many[1])),
            "cases_that_panicked": panicked,
            "known_findings_seen": sorted(reported),
            "build_s": built,
        },
        "assumptions": [
            "Miri finds undefined behaviour of the executed paths; aliasing is judged by tree borrows",
            "one thread: the parallel feature of the library is off here",
        ],
        "wall_s": time.time() - start,
        "violations": 1 if bad else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", "C20.json"), "w"), indent=1)
    if bad:
        print(detail)
        print("C20:", rep["message"])
        print("VIOLATION property=C20 replay=%s" % path)
        return 1
    if errors:
        print(errors[0])
        print("ERROR property=C20: a program ended in a way that is no verdict")
        return 3
    if seen < each:
        print("INCONCLUSIVE property=C20: only %d cases in the time" % seen)
        return 2
    print("OK property=C20 tier=%s seed=%d evaluations=%d panicked=%d wall=%.1fs"
          % (tier, seed, seen, panicked, time.time() - start))
    return 0


if __name__ == "__main__":
    sys.exit(main())
