#!/usr/bin/env python3
"""Decides one property of mqtt-bytes-v5 by watching it run.

  check.py C01 quick|thorough     run the check (VERIF_SEED, VERIF_TIER respected)
  check.py replay FILE            re-run the failing case a replay file describes
  check.py setup                  pre-build (not required by the checks)

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: no answer (build failure, harness error, workload not observed).
"""
import array
import fcntl
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replays")
CONFIGS = ["default", "boxed_string", "cow_string", "binary_string"]
TEXT_CONFIGS = CONFIGS[:3]
HOST = "x86_64-unknown-linux-gnu"

# kind: (name in reports, flags, needs an instrumented standard library)
SANITIZERS = {
    "asan": ("AddressSanitizer", "-Zsanitizer=address -Cforce-frame-pointers=yes", False),
    "tsan": ("ThreadSanitizer", "-Zsanitizer=thread", True),
    "msan": ("MemorySanitizer", "-Zsanitizer=memory", True),
}

sys.path.insert(0, VERIF)
from meta import PROPS, REQUIRED  # noqa: E402


class NoAnswer(Exception):
    pass


class NoTool(Exception):
    """A sanitizer run-time that cannot start in this sandbox."""


def say(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building

def env_for(kind):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    if kind == "plain":
        e["RUSTUP_TOOLCHAIN"] = "stable-" + HOST
    else:
        e["RUSTUP_TOOLCHAIN"] = "nightly-" + HOST
        if kind in SANITIZERS:
            e["RUSTFLAGS"] = SANITIZERS[kind][1]
    return e


def forget(tdir):
    """Cargo trusts time stamps; the tree under test may carry older ones."""
    for pat in ("*/.fingerprint/mqtt-bytes-v5-*", "*/*/.fingerprint/mqtt-bytes-v5-*",
                "*/.fingerprint/mqttmon-*", "*/*/.fingerprint/mqttmon-*"):
        for d in glob.glob(os.path.join(tdir, pat)):
            shutil.rmtree(d, ignore_errors=True)


def cargo_args(config, kind):
    a = ["--offline", "--locked", "--release", "--quiet"]
    if config != "default":
        a += ["--features", config]
    if kind in SANITIZERS:
        a += ["--target", HOST]
        if SANITIZERS[kind][2]:
            a += ["-Zbuild-std"]
    return a


def build(config, kind, dest):
    """Builds harness and library from the current tree; returns the binary."""
    tdir = os.path.join(TARGET, config if kind == "plain" else f"{kind}-{config}")
    os.makedirs(tdir, exist_ok=True)
    with open(os.path.join(tdir, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        forget(tdir)
        e = env_for(kind)
        e["CARGO_TARGET_DIR"] = tdir
        r = subprocess.run(["cargo", "build"] + cargo_args(config, kind), cwd=HARNESS, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return None, r.stdout
        src = os.path.join(tdir, HOST if kind in SANITIZERS else "", "release", "mqttmon")
        out = os.path.join(dest, f"mqttmon-{kind}-{config}")
        shutil.copy2(src, out)
        return out, r.stdout


def parallel(jobs, strict=True):
    res = {}

    def go(k, f):
        try:
            res[k] = f()
        except Exception as ex:  # noqa: BLE001
            res[k] = ex
    ts = [threading.Thread(target=go, args=(k, f)) for k, f in jobs.items()]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for k, v in res.items():
        if strict and isinstance(v, Exception):
            raise NoAnswer(f"{k}: {v}")
    return res


# ------------------------------------------------------------------- running

class Found:
    scale = None
    seed = None

    def __init__(self, config, kind, family, index, what, detail, data="", extra=""):
        self.config, self.kind, self.family, self.index = config, kind, family, index
        self.what, self.detail, self.data, self.extra = what, detail, data, extra


def run_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:"
                         "max_malloc_fill_size=4096:malloc_fill_byte=190:allocator_may_return_null=1:hard_rss_limit_mb=12000")
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:second_deadlock_stack=1"
    e["MSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:poison_in_malloc=1"
    e["RUST_BACKTRACE"] = "0"
    return e


def one_run(binary, config, kind, prop, tier, seed, scale, *rest):
    p, found = watched_run(binary, config, kind, prop, tier, seed, scale, *rest)
    for f in found:
        f.scale, f.seed = scale, seed
    return p, found


def watched_run(binary, config, kind, prop, tier, seed, scale, work, threads, budget, only=None):
    """One process under watch.  Returns (part or None, list of Found)."""
    out = os.path.join(work, f"{kind}-{config}.json")
    prog = os.path.join(work, f"{kind}-{config}.progress")
    os.makedirs(prog, exist_ok=True)
    cmd = [binary, "run", "--prop", prop, "--seed", str(seed), "--tier", tier, "--scale", str(scale),
           "--out", out, "--dir", prog, "--threads", str(threads), "--budget", str(budget)]
    if only:
        cmd += ["--only", only]
    try:
        r = subprocess.run(cmd, env=run_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=budget + 150)
    except subprocess.TimeoutExpired:
        raise NoAnswer(f"{config}: the monitors did not finish in {budget + 150} s")
    if r.returncode in (0, 1) and os.path.exists(out):
        part = json.load(open(out))
        return part, [Found(config, kind, v["family"], v["index"], v["what"], v["detail"], v["input"])
                      for v in part["violations"]]
    if r.returncode == 4:
        m = re.search(r"HANG \S+ (.+):(\d+)", r.stdout)
        if m:
            return None, [Found(config, kind, m.group(1), int(m.group(2)), "hang",
                                "one case used more than 60 s of processor time without an answer")]
    if r.returncode == 3 or "HARNESS-ERROR" in r.stderr:
        raise NoAnswer(f"{config}: {r.stderr[-800:]}")
    # The process died: an abort, a signal, or a sanitizer report.
    report = "\n".join(x for x in r.stderr.splitlines() if x.strip())[:6000]
    names = subprocess.run([binary, "list", "--prop", prop, "--tier", tier, "--scale", str(scale)],
                           stdout=subprocess.PIPE, text=True, env=run_env()).stdout.splitlines()[:-1]
    names = [x.strip().split(" ", 1)[1].strip() for x in names]
    if only:
        names = [x for x in names if x.startswith(only)]
    cases = []
    for f in sorted(glob.glob(os.path.join(prog, "*"))):
        b = open(f, "rb").read(16)
        if len(b) == 16 and b != b"\xff" * 16:
            fi, idx = int.from_bytes(b[:8], "little"), int.from_bytes(b[8:], "little")
            if fi < len(names):
                cases.append((names[fi], idx))
    how = f"exit status {r.returncode}"
    for name, idx in cases:
        rc, text = one_case(binary, prop, tier, seed, scale, name, idx)
        if rc not in (0, 1, 3):
            return None, [Found(config, kind, name, idx, "process-died",
                                f"the process ends with status {rc} while the library works on this case",
                                extra=text[-6000:])]
    if kind in SANITIZERS and "FATAL: " + SANITIZERS[kind][0] in r.stderr:
        raise NoTool(f"{SANITIZERS[kind][0]} does not start here: {r.stderr[:300]}")
    if "AddressSanitizer" in r.stderr or r.returncode == 77:
        n, i = cases[0] if cases else ("?", 0)
        return None, [Found(config, kind, n, i, "sanitizer-report", report[:600], extra=report)]
    if "has overflowed its stack" in r.stderr:
        n, i = cases[0] if cases else ("?", 0)
        return None, [Found(config, kind, n, i, "stack-overflow", report[:600], extra=report)]
    # Killed from outside (out of memory, for one) and not repeatable: no verdict.
    raise NoAnswer(f"{config}: the monitor process ended with {how} and no case repeats it: {report[-600:]}")


def one_case(binary, prop, tier, seed, scale, family, index):
    try:
        r = subprocess.run([binary, "case", "--prop", prop, "--seed", str(seed), "--tier", tier,
                            "--scale", str(scale), "--case", f"{family}:{index}"],
                           env=run_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=200)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as ex:
        return 4, f"no answer in 200 s\n{ex.stdout or ''}"


def merge(a, b):
    """Adds what a further run of the same monitors saw; distinct cases stay at the larger."""
    for k in ("cases", "cases_planned", "evaluations"):
        a[k] += b[k]
    a["wall_s"] = round(a["wall_s"] + b["wall_s"], 2)
    a["distinct"] = max(a["distinct"], b["distinct"])
    for k, n in b["counters"].items():
        a["counters"][k] = max(a["counters"].get(k, 0), n) if k.startswith("max ") else a["counters"].get(k, 0) + n
    for k, n in b["known"].items():
        a["known"][k] = a["known"].get(k, 0) + n
    for k, (x, y) in b["families"].items():
        u, v = a["families"].get(k, (0, 0))
        a["families"][k] = [u + x, v + y]


# ------------------------------------------------------------ C14 comparison

def compare_digests(parts, work, found, cov):
    """Same case, same outcome, whatever the string type."""
    have = [c for c in CONFIGS if c in parts]
    raw = {}
    for c in have:
        a = array.array("Q")
        with open(os.path.join(work, f"plain-{c}.json.digests"), "rb") as f:
            a.frombytes(f.read())
        raw[c] = a
    if len(have) < 2:
        raise NoAnswer("fewer than two configurations to compare")
    fams = list(parts[have[0]]["families"].items())
    for c in have[1:]:
        if list(parts[c]["families"].items()) != fams:
            raise NoAnswer(f"{c} did not run the same cases")

    def locate(k):
        for name, (_, planned) in fams:
            if k < planned:
                return name, k
            k -= planned
        return "?", k
    n = 0
    for base, other, which in ([(have[0], c, 0) for c in have[1:] if c in TEXT_CONFIGS]
                               + [(have[0], c, 1) for c in have[1:] if c == "binary_string"]):
        x, y = raw[base][which::2], raw[other][which::2]
        n += len(x)
        if x != y:
            bad = [k for k in range(len(x)) if x[k] != y[k]]
            for k in bad[:5]:
                name, i = locate(k)
                found.append(Found(other, "plain", name, i, "configurations-differ",
                                   f"{base} and {other} do not agree on this case ({len(bad)} such cases)",
                                   extra=f"also run: case '{name}:{i}' in configuration {base}"))
    k = "case_outcomes_compared_between_configurations"
    cov[k] = cov.get(k, 0) + n


# ------------------------------------------------------------------- C18: Miri

def miri_jobs(tier, seed, scale, work):
    # (configuration, seeds, scale): the interpreter is about 1000 times slower.
    if tier == "quick":
        plan = [(c, [seed * 10 + k], scale) for k, c in enumerate(CONFIGS)]
    else:
        # Many schedules of a small workload each, until the time is used up.
        plan = [(c, [seed * 1000 + 100 * k + j for j in range(60)], scale * 2) for k, c in enumerate(CONFIGS)]
    jobs = {}
    for config, seeds, sc in plan:
        jobs[f"miri {config}"] = (lambda config=config, seeds=seeds, sc=sc: miri_run(config, seeds, sc, work))
    return jobs


def miri_prepare():
    e = env_for("miri")
    with open(os.path.join(TARGET, "miri.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["cargo", "miri", "setup", "--offline"], cwd=HARNESS, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise NoAnswer("the Miri sysroot does not build: " + r.stdout[-800:])


def miri_run(config, seeds, scale, work):
    tdir = os.path.join(TARGET, f"miri-{config}")
    os.makedirs(tdir, exist_ok=True)
    parts, found = [], []
    with open(os.path.join(tdir, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        forget(tdir)
        t0 = time.time()
        for s in seeds:
            spent = time.time() - t0
            if parts and spent > 450:
                break
            e = env_for("miri")
            e["CARGO_TARGET_DIR"] = tdir
            e["MIRIFLAGS"] = f"-Zmiri-seed={s}"
            cmd = (["cargo", "miri", "run"] + [x for x in cargo_args(config, "miri") if x != "--release"]
                   + ["--", "run", "--prop", "C18", "--seed", str(s), "--threads", "1", "--scale", str(scale)])
            try:
                r = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   text=True, errors="replace", timeout=760 - spent)
            except subprocess.TimeoutExpired:
                if parts:
                    break
                raise NoAnswer(f"Miri did not finish on {config}")
            if "Undefined Behavior" in r.stderr or "data race" in r.stderr.lower() or "memory leaked" in r.stderr:
                i = r.stderr.find("error:")
                found.append(Found(config, "miri", "miri", s, "miri-report", r.stderr[i:i + 400].replace("\n", " "),
                                   extra=r.stderr[max(i, 0):i + 6000] + "\ncommand: " + " ".join(cmd)))
                break
            m = re.search(r"^\{.*\}$", r.stdout, re.M)
            if r.returncode not in (0, 1) or not m:
                raise NoAnswer(f"Miri on {config}: status {r.returncode}: {r.stderr[-800:]}")
            part = json.loads(m.group(0))
            parts.append(part)
            found += [Found(config, "miri", v["family"], v["index"], v["what"], v["detail"], v["input"],
                            extra="command: " + " ".join(cmd)) for v in part["violations"]]
    return parts, found


# ---------------------------------------------------------------- the check

def known_findings(prop):
    """Lines `open: property=<id> key=<prefix> ...` of known-findings.txt."""
    res = {}
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def replay_file(prop, tier, seed, scale, f, n):
    os.makedirs(REPLAYS, exist_ok=True)
    slug = re.sub(r"[^A-Za-z0-9]+", "-", f"{f.family}-{f.index}")[:60]
    path = os.path.join(REPLAYS, f"{prop}-{f.kind}-{f.config}-{slug}-{n}.json")
    with open(path, "w") as o:
        json.dump({"property": prop, "tier": tier, "seed": seed if f.kind in SANITIZERS else f.seed or seed, "scale": f.scale or scale, "config": f.config,
                   "kind": f.kind, "family": f.family, "index": f.index, "what": f.what,
                   "detail": f.detail, "input_hex": f.data, "report": f.extra,
                   "reproduce": f"python3 {VERIF}/check.py replay {path}"}, o, indent=1)
        o.write("\n")
    return path


def check(prop, tier):
    t0 = time.time()
    meta = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = meta[tier]
    os.makedirs(TARGET, exist_ok=True)
    budget = 420 if tier == "quick" else 560
    cov, found, parts = {}, [], {}
    with tempfile.TemporaryDirectory(prefix="mqttmon-") as work:
        sanit = prop == "C18"
        jobs = {("plain", c): (lambda c=c: build(c, "plain", work)) for c in CONFIGS}
        # (sanitizer, configuration, worker threads, share of the workload in %)
        san = ([("asan", "default", 2, 100), ("asan", "binary_string", 2, 100), ("tsan", "default", 4, 10),
                ("msan", "default", 2, 50)] if tier == "quick" else
               [("asan", c, 2, 100) for c in CONFIGS] + [("tsan", c, 4, 100) for c in ("default", "cow_string", "binary_string")]
               + [("msan", c, 2, 100) for c in ("default", "boxed_string", "binary_string")]) if sanit else []
        if sanit:
            jobs.update({(k, c): (lambda k=k, c=c: build(c, k, work)) for k, c, _, _ in san})
            jobs["miri"] = lambda: (miri_prepare(), None)
        built = parallel(jobs)
        bins, skipped = {}, []
        for c in CONFIGS:
            b, log = built[("plain", c)]
            if b is None:
                if c == "default":
                    raise NoAnswer("the harness does not build against this tree:\n" + log[-3000:])
                say(f"note: configuration {c} does not build and is left out:\n{log[-800:]}")
                skipped.append(c)
            else:
                bins[c] = b
        runs = {c: (lambda c=c: one_run(bins[c], c, "plain", prop, tier, seed, scale, work,
                                        1 if sanit else 2, budget)) for c in bins}
        if sanit:
            for k, c, th, share in san:
                b, log = built[(k, c)]
                if b is None:
                    if c in skipped:
                        continue
                    raise NoAnswer(f"the {SANITIZERS[k][0]} build fails:\n" + log[-2000:])
                runs[(k, c)] = (lambda b=b, c=c, k=k, th=th, share=share: one_run(
                    b, c, k, prop, tier, seed + 1000, max(1, scale * share // 100), work, th, budget))
            for k, j in miri_jobs(tier, seed, meta["miri"], work).items():
                if k.split()[1] not in skipped:
                    runs[k] = j
        t1 = time.time()
        res = parallel(runs, strict=False)
        extra_parts, failed, missing_tools = [], [], []
        for k, v in res.items():
            if isinstance(v, NoTool):
                say(f"note: {v}")
                missing_tools.append(str(v))
                continue
            if isinstance(v, Exception):
                failed.append(f"{k}: {v}")
                continue
            p, fs = v
            found += fs
            if isinstance(k, tuple):
                if p:
                    extra_parts.append((SANITIZERS[k[0]][0], k[1], p))
            elif k.startswith("miri"):
                extra_parts += [("Miri", k.split()[1], x) for x in p]
            elif p:
                parts[k] = p
        if failed and not found:
            raise NoAnswer("; ".join(failed))
        if prop == "C14" and not found:
            compare_digests(parts, work, found, cov)

        # The thorough tier goes on with other seeds while there is time.
        rounds, longest = 1, time.time() - t1
        while tier == "thorough" and not sanit and not found and time.time() - t0 + 1.4 * longest < 700:
            t2 = time.time()
            s2 = seed + 7919 * rounds
            left = max(60, int(720 - (t2 - t0)))
            res = parallel({c: (lambda c=c: one_run(bins[c], c, "plain", prop, tier, s2, scale, work, 2, left))
                            for c in bins})
            more = {c: p for c, (p, _) in res.items() if p}
            for c, (_, fs) in res.items():
                found += fs
            if prop == "C14" and not found:
                compare_digests(more, work, found, cov)
                for f in found:
                    f.seed = s2
            for c, p in more.items():
                merge(parts[c], p)
            rounds += 1
            longest = max(longest, time.time() - t2)
        cov["rounds_with_different_seeds"] = rounds

    # ---- what the monitors saw
    allp = list(parts.values()) + [x[2] for x in extra_parts]
    counters = {}
    for p in allp:
        for k, n in p["counters"].items():
            counters[k] = max(counters.get(k, 0), n) if k.startswith("max ") else counters.get(k, 0) + n
    samples = []
    for c, p in parts.items():
        s = p["samples"]
        step = max(1, len(s) // 6)
        samples += [f"[{c}] {x}"[:700] for x in s[::step][:6]]
    cov.update({
        "evaluations": sum(p["evaluations"] for p in allp),
        "distinct_nontrivial": max([p["distinct"] for p in allp] or [0]),
        "rule": meta["rule"],
        "samples": samples[:24],
        "counters": dict(sorted(counters.items())),
        "per_configuration": {c: {"cases": p["cases"], "planned": p["cases_planned"],
                                  "evaluations": p["evaluations"], "distinct": p["distinct"],
                                  "seconds": p["wall_s"]} for c, p in parts.items()},
        "families": {n: v[0] for n, v in next(iter(parts.values()))["families"].items()} if parts else {},
        "configurations_not_built": skipped,
        "sanitizers_not_available": missing_tools,
        "build_s": round(t1 - t0, 1),
    })
    if extra_parts:
        cov["instrumented_runs"] = [{"tool": t, "configuration": c, "cases": p["cases"],
                                     "evaluations": p["evaluations"], "seconds": p["wall_s"], "families": {n: v[0] for n, v in p["families"].items()}}
                                    for t, c, p in extra_parts]

    known = known_findings(prop)
    known_seen = {}
    for c, p in parts.items():
        for k, n in p["known"].items():
            key = k.split()[0]
            if key in known:
                known_seen.setdefault(key, [k, 0])[1] += n
            else:
                found.append(Found(c, "plain", "known", 0, key, f"{k} ({n} cases), not listed as a known finding"))
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 1),
        "violations": len(found),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    for key, (k, n) in sorted(known_seen.items()):
        say(f"KNOWN-FINDING: property={prop} {known[key]} ({n} cases observed)")
    if found:
        groups = {}
        for f in found:
            groups.setdefault((f.what, f.family), f)
        for n, f in enumerate(list(groups.values())[:8]):
            path = replay_file(prop, tier, seed, scale, f, n)
            say(f"  {f.what} [{f.kind} {f.config} {f.family}:{f.index}] {f.detail[:500]}")
            say(f"VIOLATION property={prop} replay={path}")
        return 1

    # ---- silence counts only if the workload was really observed
    lack = []
    for c, p in parts.items():
        for n, (done, planned) in p["families"].items():
            if done != planned and tier == "quick":
                lack.append(f"{c}: family {n} ran {done} of {planned} cases")
    for k in REQUIRED.get(prop, []):
        if counters.get(k, 0) == 0:
            lack.append(f"never observed: {k}")
    if cov["distinct_nontrivial"] < meta["least"]:
        lack.append(f"only {cov['distinct_nontrivial']} distinct cases, {meta['least']} expected")
    if sanit and not any(t == "Miri" for t, _, _ in extra_parts):
        lack.append("no run under Miri")
    if sanit and not any(t == "AddressSanitizer" for t, _, _ in extra_parts):
        lack.append("no run under AddressSanitizer")
    if lack:
        raise NoAnswer("the workload was not observed as planned: " + "; ".join(lack[:8]))
    say(f"{prop} {tier}: held; {cov['evaluations']} evaluations, {cov['distinct_nontrivial']} distinct, "
        f"{len(parts)} configurations, {evidence['wall_s']} s")
    return 0


def replay(path):
    r = json.load(open(path))
    print(json.dumps({k: v for k, v in r.items() if k != "report"}, indent=1))
    if r["kind"] == "miri":
        print(r["report"])
        return 0
    with tempfile.TemporaryDirectory(prefix="mqttmon-") as work:
        b, log = build(r["config"], r["kind"], work)
        if b is None:
            print(log)
            return 2
        seed = r["seed"] + (1000 if r["kind"] in SANITIZERS else 0)
        rc, text = one_case(b, r["property"], r["tier"], seed, r["scale"], r["family"], r["index"])
        print(text)
        if r["what"] == "configurations-differ":
            b, log = build("default", "plain", work)
            print(one_case(b, r["property"], r["tier"], seed, r["scale"], r["family"], r["index"])[1])
        return rc


def setup():
    with tempfile.TemporaryDirectory(prefix="mqttmon-") as work:
        os.makedirs(TARGET, exist_ok=True)
        for (k, (b, log)) in parallel({c: (lambda c=c: build(c, "plain", work)) for c in CONFIGS}).items():
            if b is None:
                print(log)
                return 1
    print("built", ", ".join(CONFIGS))
    return 0


def main(argv):
    if len(argv) == 2 and argv[1] == "setup":
        return setup()
    if len(argv) == 3 and argv[1] == "replay":
        return replay(argv[2])
    if len(argv) == 3 and argv[1] in PROPS and argv[2] in ("quick", "thorough"):
        try:
            return check(argv[1], argv[2])
        except NoAnswer as ex:
            say(f"NO-ANSWER property={argv[1]}: {ex}")
            return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv))
