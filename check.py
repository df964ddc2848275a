#!/usr/bin/env python3
"""Build the harness against /repo's working tree and run one check.

Exit 0: held; 1: VIOLATION line printed; 2: the check itself failed.
"""
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
REPO = "/repo"
EVID = os.path.join(VERIF, "evidence")
TRIPLE = "x86_64-unknown-linux-gnu"
JOBS = max(2, min(16, os.cpu_count() or 4))

ENV = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET")}
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["VERIF_DIR"] = VERIF


def die(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


# ------------------------------------------------------------------- builds

ASAN_FLAGS = "-Zsanitizer=address -Cforce-frame-pointers=yes"
VARIANTS = {
    # name: (toolchain and arguments of cargo, extra environment, executable)
    "checked": (["build"], {}, "debug/vh"),
    "release": (["build", "--release"], {}, "release/vh"),
    "log": (["build", "--features", "with_log"], {}, "debug/vh"),
    "tracing": (["build", "--features", "with_tracing"], {}, "debug/vh"),
    "both": (["build", "--features", "with_log,with_tracing"], {}, "debug/vh"),
    "asan": (["+nightly", "build", "--features", "plain", "--target", TRIPLE], {"RUSTFLAGS": ASAN_FLAGS}, TRIPLE + "/debug/vh"),
    "miri": (["+nightly", "miri", "run", "--features", "plain"], {"MIRI_SYSROOT": os.path.join(TARGET, "miri-sysroot"), "MIRIFLAGS": "-Zmiri-disable-isolation"}, None),
}


def repo_stamp():
    h = hashlib.sha256()
    for top in ("src", "Cargo.toml", "build.rs"):
        p = os.path.join(REPO, top)
        files = []
        if os.path.isfile(p):
            files = [p]
        else:
            for d, _, fs in os.walk(p):
                files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read() + b"\0")
    return h.hexdigest()


def build(name):
    args, env, exe = VARIANTS[name]
    tdir = os.path.join(TARGET, name)
    os.makedirs(tdir, exist_ok=True)
    e = dict(ENV, **env)
    e["CARGO_TARGET_DIR"] = tdir
    with open(os.path.join(tdir, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp, sfile = repo_stamp(), os.path.join(tdir, ".stamp")
        old = open(sfile).read() if os.path.exists(sfile) else ""
        if old != stamp and old:
            # do not rely on modification times
            tc = [args[0]] if args[0].startswith("+") else []
            tgt = ["--target", TRIPLE] if "--target" in args else []
            subprocess.run(["cargo"] + tc + ["clean", "-p", "gpt", "--offline"] + tgt, cwd=HARNESS, env=e, capture_output=True)
            if name == "miri":
                shutil.rmtree(os.path.join(tdir, "miri"), ignore_errors=True)
        if os.path.exists(sfile):
            os.unlink(sfile)
        if name == "miri":
            sysroot = env["MIRI_SYSROOT"]
            if not os.path.exists(os.path.join(sysroot, "lib", "rustlib", TRIPLE, "lib")):
                r = subprocess.run(["cargo", "+nightly", "miri", "setup", "--offline", "--target-dir", os.path.join(TARGET, "miri-sys")], cwd=HARNESS, env=e, capture_output=True, text=True)
                if r.returncode:
                    die("the Miri sysroot does not build:\n" + r.stderr[-3000:])
            r = subprocess.run(["cargo"] + args + ["--offline", "--", "list"], cwd=HARNESS, env=e, capture_output=True, text=True)
        else:
            r = subprocess.run(["cargo"] + args + ["--offline"], cwd=HARNESS, env=e, capture_output=True, text=True)
        if r.returncode:
            die(f"build '{name}' failed:\n" + r.stderr[-4000:])
        with open(sfile, "w") as f:
            f.write(stamp)
    return os.path.join(tdir, exe) if exe else None


def build_all(names):
    errs = []

    def one(n):
        try:
            build(n)
        except SystemExit:
            errs.append(n)

    ts = [threading.Thread(target=one, args=(n,)) for n in names]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        sys.exit(2)
    return {n: os.path.join(TARGET, n, VARIANTS[n][2]) if VARIANTS[n][2] else None for n in names}


# ------------------------------------------------------------------ running

ALSO_RELEASE = ("C13", "C20", "C26")


def drive(pid, tier, seed):
    names = ["checked"] + (["release"] if pid in ALSO_RELEASE else [])
    exes = build_all(names)
    r = subprocess.run([exes["checked"], "run", pid, tier, str(seed), "checked"], env=ENV)
    if r.returncode:
        return r.returncode
    if "release" in names:
        e = dict(ENV, VH_SCALE=str(float(ENV.get("VH_SCALE", "1")) * 0.4))
        r = subprocess.run([exes["release"], "run", pid, tier, str(seed + 1000003), "release"], env=e)
        main = os.path.join(EVID, pid + ".json")
        extra = os.path.join(EVID, pid + ".release.json")
        if os.path.exists(extra):
            with open(main) as f:
                m = json.load(f)
            with open(extra) as f:
                x = json.load(f)
            os.unlink(extra)
            m["coverage"]["optimised_build_without_overflow_checks"] = x["coverage"]
            m["wall_s"] = round(m["wall_s"] + x["wall_s"], 2)
            m["violations"] = m.get("violations", 0) + x.get("violations", 0)
            with open(main, "w") as f:
                json.dump(m, f, indent=1)
        if r.returncode:
            return r.returncode
    return 0


def save_replay(pid, tier, seed, index, obj):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, f"{pid}-{tier}-{seed}-{index}.json")
    obj.update(property=pid, tier=tier, seed=seed, index=index, replay_cmd=f"/verif/check.sh --replay {f}")
    with open(f, "w") as fh:
        json.dump(obj, fh, indent=1)
    return f


def write_evidence(pid, tier, seed, cov, wall, viols, assumptions):
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": viols}, f, indent=1)


# ---------------------------------------------------------------------- C21

def transcript(exe, seed, a, b, logger_off, timeout):
    e = dict(ENV)
    if logger_off:
        e["VH_LOGGER"] = "off"
    e["RUST_BACKTRACE"] = "0"
    with tempfile.TemporaryDirectory(prefix="vh-c21-") as d:
        e["TMPDIR"] = d
        try:
            r = subprocess.run([exe, "transcript", str(seed), str(a), str(b)], env=e, capture_output=True, timeout=timeout)
            return r.stdout.decode("utf-8", "replace"), r.returncode
        except subprocess.TimeoutExpired as x:
            return (x.stdout or b"").decode("utf-8", "replace"), "timeout"


def cases_of(text):
    """index -> (lines, meta); the last one may be incomplete"""
    out, cur, msgs = {}, None, 0
    for l in text.split("\n"):
        if l.startswith("case "):
            cur = int(l[5:])
            out[cur] = ([], [])
        elif l.startswith("# "):
            if " messages " in l:
                msgs += int(l.rsplit(" ", 1)[1])
            elif cur is not None:
                out[cur][1].append(l[2:])
        elif cur is not None and l:
            out[cur][0].append(l)
    return out, msgs


def c21(tier, seed):
    t0 = time.time()
    pid = "C21"
    exes = build_all(["checked", "log", "tracing", "both"])
    n = int((24000 if tier == "quick" else 240000) * float(ENV.get("VH_SCALE", "1")))
    n = max(n, 16)
    configs = [("checked", False), ("log", False), ("tracing", False), ("both", False), ("log", True), ("tracing", True)]
    chunk = 250
    work = [(i, min(i + chunk, n)) for i in range(0, n, chunk)]
    limit = 240 if tier == "quick" else 700
    lock = threading.Lock()
    st = dict(cases=0, digests=set(), counters={}, messages={}, lines=0, samples=[], lost=0)
    bad = []

    def name(c):
        return c[0] + (" without a logger" if c[1] else "")

    def compare(a, b):
        """-> list of (index, config, base lines, other lines)"""
        outs = [transcript(exes[c[0]], seed, a, b, c[1], 200) for c in configs]
        got = [cases_of(o[0]) for o in outs]
        base, brc = got[0][0], outs[0][1]
        res = []
        for k, c in enumerate(configs[1:], 1):
            for i in range(a, b):
                x, y = base.get(i), got[k][0].get(i)
                if (x and x[0]) != (y and y[0]):
                    res.append((i, c, x and x[0], y and y[0]))
                    break
            else:
                if brc != outs[k][1]:
                    res.append((b - 1, c, [f"exit {brc}"], [f"exit {outs[k][1]}"]))
        with lock:
            for k, c in enumerate(configs):
                st["messages"][name(c)] = st["messages"].get(name(c), 0) + got[k][1]
        return res, base, brc

    def runner():
        while True:
            with lock:
                if not work or bad or time.time() - t0 > limit:
                    return
                a, b = work.pop(0)
            res, base, brc = compare(a, b)
            if res:
                with lock:
                    bad.append(res[0])
                return
            if brc != 0:
                # ended early in every configuration: go on behind it
                done = sorted(base)
                last = done[-1] if done else a
                with lock:
                    st["lost"] += 1
                    if st["lost"] > 200:
                        return
                    if last + 1 < b:
                        work.append((last + 1, b))
            with lock:
                for i, (lines, meta) in base.items():
                    st["cases"] += 1
                    st["lines"] += len(lines)
                    for m in meta:
                        dg, _, ks = m.partition(" ")
                        st["digests"].add(dg)
                        for k in ks.split(","):
                            if k:
                                st["counters"][k] = st["counters"].get(k, 0) + 1
                    if len(st["samples"]) < 3:
                        st["samples"].append(f"case {i}: " + "; ".join(x.strip()[:100] for x in lines[:6]))

    ts = [threading.Thread(target=runner) for _ in range(JOBS)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    cov = {
        "evaluations": st["cases"],
        "distinct_nontrivial": len(st["digests"]),
        "rule": "one case is a history (of any kind: edits and writes, hostile disks, failing or lying devices, copies, files, low-level functions) executed in every configuration with the same randomness, its results, states and device writes compared line by line; distinct by what was observed",
        "configurations": [name(c) for c in configs],
        "messages_formatted": st["messages"],
        "lines_compared_per_configuration": st["lines"],
        "ended_early_in_all_configurations": st["lost"],
        "cases_by_what_they_met": st["counters"],
        "samples": st["samples"] or ["none finished"],
    }
    if bad:
        i, c, x, y = bad[0]
        # the difference must be one between the builds, not between runs
        o1 = cases_of(transcript(exes["checked"], seed, i, i + 1, False, 200)[0])[0].get(i)
        o2 = cases_of(transcript(exes["checked"], seed, i, i + 1, False, 200)[0])[0].get(i)
        if (o1 and o1[0]) != (o2 and o2[0]):
            die(f"case {i} is not deterministic")
        v, rc = transcript(exes[c[0]], seed, i, i + 1, c[1], 200)
        v = cases_of(v)[0].get(i)
        if (v and v[0]) == (o1 and o1[0]):
            die(f"the difference in case {i} was not reproduced")
        x, y = (o1 and o1[0]) or [], (v and v[0]) or []
        k = next((k for k in range(max(len(x), len(y))) if x[k:k + 1] != y[k:k + 1]), 0)
        what = f"case {i}, {name(c)}: observed {(y[k:k + 1] or ['nothing'])[0].strip()[:400]!r}, without logging {(x[k:k + 1] or ['nothing'])[0].strip()[:400]!r}"
        f = save_replay(pid, tier, seed, i, {"configuration": list(c), "violation": what, "without_logging": x, "with_logging": y})
        write_evidence(pid, tier, seed, cov, time.time() - t0, 1, [])
        print(what)
        print(f"VIOLATION property={pid} replay={f}")
        return 1
    if st["cases"] < 8 or not st["digests"]:
        die("nothing compared")
    for k in ("log", "tracing", "both"):
        if not st["messages"].get(k):
            die(f"no message was formatted in '{k}'")
    write_evidence(pid, tier, seed, cov, time.time() - t0, 0, ["a logger only formats the messages it is given", "in-memory devices behave as Read+Write+Seek devices do"])
    print(f"{pid} held: {st['cases']} histories in {len(configs)} configurations, {sum(st['messages'].values())} messages formatted, {time.time() - t0:.1f} s")
    return 0


# ---------------------------------------------------------------------- C22

UB = re.compile(r"unsafe precondition|AddressSanitizer(?!.*(stack-overflow|out-of-memory|allocation-size-too-big|requested allocation size))|Undefined Behavior|memory leaked|is leaked|not valid UTF-8|misaligned pointer dereference|null pointer dereference occurred|invalid enum value|slice::from_raw_parts requires")


class Serial:
    """Cases one after another in a process that dies of undefined behaviour."""

    def __init__(self, engine, exe, seed, tier):
        self.engine, self.exe, self.seed, self.tier = engine, exe, seed, tier

    def run(self, a, b, seconds, stall):
        e = dict(ENV, VH_SERIAL_S=str(int(max(1, seconds))), RUST_BACKTRACE="0")
        if self.engine == "miri":
            env = VARIANTS["miri"][1]
            e.update(env, CARGO_TARGET_DIR=os.path.join(TARGET, "miri"))
            cmd = ["cargo"] + VARIANTS["miri"][0] + ["--offline", "--"]
        else:
            e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:symbolize=0:abort_on_error=0:detect_stack_use_after_return=1"
            cmd = [self.exe]
        res = dict(last=None, counts={}, digests=set(), samples=[], ran=0, done=False, viol=None, err=None, rc=None, stderr="", stalled=False)
        with tempfile.TemporaryDirectory(prefix="vh-c22-") as d:
            e["TMPDIR"] = d
            with open(os.path.join(d, "err"), "w+b") as ef:
                p = subprocess.Popen(cmd + ["serial", "C22", self.tier, str(self.seed), str(a), str(b)], cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=ef, start_new_session=True)
                beat = [time.time()]
                stop = threading.Event()

                def watch():
                    while not stop.wait(1):
                        if time.time() - beat[0] > stall:
                            res["stalled"] = True
                            try:
                                os.killpg(p.pid, signal.SIGKILL)
                            except OSError:
                                pass
                            return

                w = threading.Thread(target=watch)
                w.start()
                for l in p.stdout:
                    beat[0] = time.time()
                    l = l.decode("utf-8", "replace").rstrip("\n")
                    k, _, r = l.partition(" ")
                    if k == "I":
                        res["last"] = int(r)
                        res["ran"] += 1
                    elif k == "G":
                        res["digests"].add(r)
                    elif k == "S":
                        res["samples"].append(r)
                    elif k == "C":
                        n, _, what = r.partition(" ")
                        res["counts"][what] = res["counts"].get(what, 0) + int(n)
                    elif k == "V":
                        res["viol"] = r
                    elif k == "E":
                        res["err"] = r
                    elif k == "D":
                        res["done"] = True
                p.wait()
                stop.set()
                w.join()
                res["rc"] = p.returncode
                ef.seek(0, 2)
                ef.seek(max(0, ef.tell() - 60000))
                res["stderr"] = ef.read().decode("utf-8", "replace")
        return res


def verdict(res):
    """-> ('ok'|'ub'|'lost'|'unsupported'|'error', text)"""
    if res["done"] and res["rc"] == 0:
        return "ok", ""
    err = res["stderr"]
    # only what is reported about the run itself
    err = "\n".join(l for l in err.split("\n") if not l.lstrip().startswith("warning"))
    if res["stalled"]:
        return "lost", "did not finish"
    if res["viol"]:
        return "ub", res["viol"]
    m = UB.search(err)
    if m:
        i = err.rfind("\n", 0, m.start()) + 1
        return "ub", err[i:i + 1500]
    if "unsupported operation" in err or "resource exhaustion" in err or "interpreter ran out of memory" in err:
        return "unsupported", err[-600:]
    if res["err"]:
        return "error", res["err"]
    if res["rc"] in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL) and "overflowed its stack" not in err and "stack-overflow" not in err:
        return "ub", f"the process died of signal {-res['rc']}\n" + err[-800:]
    if res["done"]:
        return "error", f"exit {res['rc']} after the last case: " + err[-800:]
    return "lost", err[-300:]


def c22(tier, seed):
    t0 = time.time()
    pid = "C22"
    scale = float(ENV.get("VH_SCALE", "1"))
    exes = build_all(["asan", "miri"])
    # (engine, number of cases, seconds, processes, stall)
    plan = [("miri", int(4000 * scale), (150 if tier == "quick" else 480) * min(scale, 1), max(2, JOBS - 2), 240), ("asan", int((40000 if tier == "quick" else 2000000) * scale), (120 if tier == "quick" else 480) * min(scale, 1), 3, 90)]
    lock = threading.Lock()
    cov = {}
    bad, errors = [], []

    def shard(engine, a, b, seconds, stall, acc):
        s = Serial(engine, exes.get(engine), seed, tier)
        end = time.time() + seconds
        first = True
        while a < b and not bad and (first or time.time() < end):
            first = False
            r = s.run(a, b, end - time.time(), stall)
            kind, text = verdict(r)
            with lock:
                acc["cases"] += r["ran"]
                acc["digests"] |= r["digests"]
                acc["samples"] += r["samples"][:2]
                for k, n in r["counts"].items():
                    acc["counts"][k] = acc["counts"].get(k, 0) + n
            if kind == "ok":
                return
            if r["last"] is None:
                with lock:
                    errors.append(f"{engine}: no case started: {text}")
                return
            if kind == "ub":
                # once more, alone
                again = s.run(r["last"], r["last"] + 1, 1, 400)
                k2, t2 = verdict(again)
                with lock:
                    if k2 == "ub":
                        bad.append((engine, r["last"], t2))
                    else:
                        errors.append(f"{engine} case {r['last']}: {text} -- not reproduced: {k2} {t2}")
                return
            with lock:
                if kind == "error":
                    errors.append(f"{engine} case {r['last']}: {text}")
                    return
                acc[kind] = acc.get(kind, 0) + 1
                if acc[kind] > 400:
                    return
            a = r["last"] + 1

    ts = []
    for engine, n, seconds, procs, stall in plan:
        n = max(n, procs)
        acc = dict(cases=0, digests=set(), counts={}, samples=[], lost=0, unsupported=0)
        cov[engine] = acc
        for k in range(procs):
            a, b = n * k // procs, n * (k + 1) // procs
            t = threading.Thread(target=shard, args=(engine, a, b, seconds, stall, acc))
            t.start()
            ts.append(t)
    for t in ts:
        t.join()
    desc = {}
    for e, acc in cov.items():
        desc[e] = {"cases": acc["cases"], "distinct": len(acc["digests"]), "observed": acc["counts"], "not_finished": acc["lost"], "unsupported": acc["unsupported"]}
    out = {
        "evaluations": sum(a["cases"] for a in cov.values()),
        "distinct_nontrivial": len(set().union(*[a["digests"] for a in cov.values()])),
        "rule": "one case is a history (of any kind: edits and writes, hostile disks, failing or lying devices, copies, files, low-level functions) executed under an engine which stops at undefined behaviour: Miri, or AddressSanitizer with the standard library's checks of unsafe preconditions; distinct by history",
        "engines": desc,
        "samples": (sum([a["samples"] for a in cov.values()], []) or ["none finished"])[:4],
    }
    assume = ["Miri and AddressSanitizer detect the undefined behaviour that occurs in the executions they observe"]
    if bad:
        engine, i, text = bad[0]
        f = save_replay(pid, tier, seed, i, {"engine": engine, "violation": text})
        write_evidence(pid, tier, seed, out, time.time() - t0, 1, assume)
        print(f"{engine}, case {i}: {text[:1500]}")
        print(f"VIOLATION property={pid} replay={f}")
        return 1
    if errors:
        die("; ".join(errors)[:3000])
    for e, acc in cov.items():
        if len(acc["digests"]) < 3:
            die(f"nothing was observed under {e}: {desc[e]}")
    write_evidence(pid, tier, seed, out, time.time() - t0, 0, assume)
    print(f"{pid} held: " + ", ".join(f"{a['cases']} cases under {e}" for e, a in cov.items()) + f", {time.time() - t0:.1f} s")
    return 0


# ------------------------------------------------------------------- replay

def replay(path):
    with open(path) as f:
        r = json.load(f)
    pid, tier, seed, i = r["property"], r["tier"], int(r["seed"]), int(r["index"])
    if pid == "C21":
        c = r["configuration"]
        exes = build_all(["checked", c[0]])
        x = cases_of(transcript(exes["checked"], seed, i, i + 1, False, 300)[0])[0].get(i)
        y = cases_of(transcript(exes[c[0]], seed, i, i + 1, c[1], 300)[0])[0].get(i)
        x, y = (x and x[0]) or [], (y and y[0]) or []
        for k in range(max(len(x), len(y))):
            a, b = x[k:k + 1], y[k:k + 1]
            if a != b:
                print("- " + "".join(a) + "\n+ " + "".join(b))
        if x == y:
            print("no difference")
            return 0
    elif pid == "C22":
        exes = build_all([r["engine"]])
        res = Serial(r["engine"], exes.get(r["engine"]), seed, tier).run(i, i + 1, 1, 600)
        kind, text = verdict(res)
        print(kind, text)
        if kind != "ub":
            return 0
    else:
        exe = build_all([r.get("build", "checked")])[r.get("build", "checked")]
        p = subprocess.run([exe, "one", pid, tier, str(seed), str(i)], env=ENV)
        if p.returncode == 0:
            return 0
        if p.returncode == 2:
            return 2
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        os.makedirs(TARGET, exist_ok=True)
        build_all(["checked"])
        print("built")
        return 0
    if len(a) == 2 and a[0] == "--replay":
        return replay(a[1])
    if not a:
        die("usage: check.sh ID quick|thorough | --setup | --replay FILE")
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed &= 0x7FFFFFFF
    if pid == "C21":
        return c21(tier, seed)
    if pid == "C22":
        return c22(tier, seed)
    return drive(pid, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
