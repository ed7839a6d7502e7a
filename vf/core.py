"""Runner: model checking, scenario execution on the real code, trace validation."""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)


class Machinery(Exception):
    pass


def setup_paths():
    for p in ("protoc-gen-connectrpc", "connectrpc-otel", "src"):
        q = os.path.join(REPO, p)
        if q in sys.path:
            sys.path.remove(q)
        sys.path.insert(0, q)


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf-")

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# ---------------------------------------------------------------- TLC

def tlc(module, cfg, scratch, env=None, workers=4, timeout=800, extra=(), mem="3g"):
    """Run TLC on spec/<module>.tla with spec/<cfg>. Returns dict(stats, printed)."""
    meta = tempfile.mkdtemp(dir=scratch.dir, prefix="tlc-")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss32m", "-Dtlc2.TLC.ide=vf", "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-deadlock",
           "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise Machinery("TLC timeout on %s/%s" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    printed = []
    for line in out.splitlines():
        if line.startswith('"{') and line.endswith('}"'):
            try:
                printed.append(json.loads(json.loads(line)))
            except ValueError:
                raise Machinery("unparsable TLC output line: " + line[:300])
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
    ok = "No error has been found" in out
    if not ok:
        e = Machinery("TLC failed on %s/%s (exit %d):\n%s" % (module, cfg, p.returncode, _tail(out)))
        m = UNEVALUABLE.search(out)
        if m and not re.search("StackOverflow|OutOfMemory", out):
            e.unevaluable = m.group(0)[:300]
        raise e
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return {"module": module, "cfg": cfg, "generated": gen, "distinct": dist,
            "printed": printed, "wall_s": round(time.time() - t0, 2)}


def _tail(s, n=6000):
    s = "\n".join(l for l in s.splitlines() if not l.startswith('"{'))
    return s if len(s) < n else s[:n // 2] + "\n...\n" + s[-n // 2:]


# ---------------------------------------------------------------- driver pool

class _Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise _Hang()


_DRV = {}


def _load(driver):
    if driver not in _DRV:
        setup_paths()
        import importlib
        _DRV[driver] = importlib.import_module("vf.drv." + driver)
    return _DRV[driver]


def _run_batch(args):
    driver, batch, limit = args
    signal.signal(signal.SIGALRM, _on_alarm)
    res = []
    hangs = 0
    mod = _load(driver)
    for scn in batch:
        if hangs >= 3:
            res.append(None)
            continue
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            tr = mod.run(scn)
        except _Hang:
            hangs += 1
            tr = mod.hung(scn) if hasattr(mod, "hung") else {"cfg": {}, "events": [], "broken": "hang"}
            tr["broken"] = "hang"
        except Exception:
            tr = {"cfg": {}, "events": [], "broken": traceback.format_exc()}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        res.append(tr)
    return res


def execute(driver, scns, limit=60, nproc=NCPU):
    """Run scenarios on the real code. Returns list of traces (None = skipped)."""
    if not scns:
        return []
    size = max(1, min(50, (len(scns) + nproc * 4 - 1) // (nproc * 4)))
    batches = [(driver, scns[i:i + size], limit) for i in range(0, len(scns), size)]
    out = []
    ctx = mp.get_context("fork")
    sys.stdout.flush()
    with cf.ProcessPoolExecutor(max_workers=nproc, mp_context=ctx) as ex:
        for r in ex.map(_run_batch, batches):
            out.extend(r)
    return out


# ---------------------------------------------------------------- validation

MAX_EVENTS = 60000
UNEVALUABLE = re.compile(r"Overflow when computing.*|Attempted to .*|The error occurred when TLC was evaluating.*")


def validate(module, traces, scratch, cfg=None):
    """traces: list of {id,cfg,events}. Returns ({id: [[line, clause],...]}, stats)."""
    groups, cur, n = [], [], 0
    per = max(4000, min(MAX_EVENTS, sum(len(t["events"]) + 2 for t in traces) // 4))
    for t in traces:
        cur.append(t)
        n += len(t["events"]) + 2
        if n >= per:
            groups.append(cur)
            cur, n = [], 0
    if cur:
        groups.append(cur)

    odd, stop = {}, threading.Event()

    def one(name, group):
        """-> (printed, generated, distinct); halves a group TLC cannot evaluate down to the traces that are no
        behaviours of anything the specification describes (a value of another type, a number out of range)"""
        f = scratch.path("traces-%s-%s.json" % (module, name))
        with open(f, "w") as fh:
            json.dump([{"id": t["id"], "cfg": t["cfg"], "events": t["events"]} for t in group], fh)
        try:
            r = tlc(module, cfg or (module + ".cfg"), scratch, env={"TRACE_FILE": f}, workers=2)
            return r["printed"], r["generated"], r["distinct"]
        except Machinery as e:
            if not getattr(e, "unevaluable", None):
                raise
            if len(group) == 1:
                odd[group[0]["id"]] = e.unevaluable
                if len(odd) >= 3:
                    stop.set()
                return [], 0, 0
        finally:
            os.unlink(f)
        out = [], 0, 0
        for k, half in enumerate((group[:len(group) // 2], group[len(group) // 2:])):
            if stop.is_set():
                break
            r = one("%s%d" % (name, k), half)
            out = out[0] + r[0], out[1] + r[1], out[2] + r[2]
        return out

    verdicts, gen, dist = {}, 0, 0
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        for printed, g, d in ex.map(one, ["%d-" % i for i in range(len(groups))], groups):
            gen += g
            dist += d
            for p in printed:
                verdicts[p["id"]] = [tuple(x) for x in p["bad"]]
    for i, why in odd.items():
        print("note: TLC cannot evaluate trace %s: %s" % (i, why))
        verdicts[i] = [(0, "*:outside_the_model")]
    if stop.is_set():
        for t in traces:
            verdicts.setdefault(t["id"], [])
    missing = [t["id"] for t in traces if t["id"] not in verdicts]
    if missing:
        raise Machinery("%s: no verdict for %d traces, e.g. %s" % (module, len(missing), missing[:3]))
    return verdicts, {"generated": gen, "distinct": dist}


# ---------------------------------------------------------------- suites

class Suite:
    """One specification domain bound to one driver.

    mc:    list of (module, cfg) exhaustively model checked on every run
    trace: trace validation module
    gen:   function(pid, tier, rng, tlcgen) -> list of scenarios
    """

    def __init__(self, name, driver, trace, gen, mc=(), mc_thorough=(), limit=60):
        self.name, self.driver, self.trace, self.gen = name, driver, trace, gen
        self.mc, self.mc_thorough, self.limit = list(mc), list(mc_thorough), limit


def sig(o):
    return hashlib.sha256(json.dumps(o, sort_keys=True).encode()).hexdigest()[:16]


def tags_of(clause):
    return clause.split(":", 1)[0].split(".")


def load_known():
    known = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                known.append(m.groups())
    return known


def blames_code(tb):
    """did the code under test raise the exception a driver did not expect?"""
    files = re.findall(r'File "([^"]+)", line', tb)
    return bool(files) and (os.path.realpath(files[-1]).startswith(os.path.realpath(REPO) + os.sep) or "/vf-cg-" in files[-1])


def run_suite(suite, pid, tier, seed, scratch, log):
    rng = random.Random("%s/%s/%s" % (seed, suite.name, pid))
    stats = {"suite": suite.name, "mc": [], "gen": []}

    def tlcgen(module, cfg, **kw):
        r = tlc(module, cfg, scratch, **kw)
        stats["gen"].append({k: r[k] for k in ("module", "cfg", "generated", "distinct", "wall_s")})
        return sorted(r["printed"], key=lambda p: json.dumps(p, sort_keys=True))

    mcs = suite.mc + (suite.mc_thorough if tier == "thorough" else [])
    with cf.ThreadPoolExecutor(max_workers=2) as ex:
        futs = [ex.submit(tlc, m, c, scratch) for m, c in mcs]
        scns = suite.gen(pid, tier, rng, tlcgen)
        seen, uniq = set(), []
        for s in scns:
            k = sig(s)
            if k not in seen:
                seen.add(k)
                uniq.append(s)
        t0 = time.time()
        traces = execute(suite.driver, uniq, suite.limit)
        stats["exec_s"] = round(time.time() - t0, 2)
        for f in futs:
            r = f.result()
            stats["mc"].append({k: r[k] for k in ("module", "cfg", "generated", "distinct", "wall_s")})
    stats["scenarios"] = len(uniq)
    rej = []
    good = []
    skipped = 0
    broken = []
    for i, (s, t) in enumerate(zip(uniq, traces)):
        if t is None:
            skipped += 1
            continue
        t["id"] = "%s-%d" % (suite.name, i)
        t["scn"] = s
        if t.get("broken") and t["broken"] != "hang":
            if blames_code(t["broken"]):
                # the code under test raised where its interface has no exception to raise
                rej.append((t, [(0, "*:unexpected_exception")]))
                continue
            broken.append(t)
            continue
        if t.get("broken") == "hang":
            rej.append((t, [(0, "*:hang")]))
            continue
        good.append(t)
    t0 = time.time()
    # what a driver saw before it failed is evidence too, without what is asked of a complete trace
    partial = [t for t in broken if t["cfg"] and t["events"]]
    todo = good + partial
    verdicts, vst = validate(suite.trace, todo, scratch) if todo else ({}, {"generated": 0, "distinct": 0})
    stats["validate_s"] = round(time.time() - t0, 2)
    for t in good:
        if verdicts[t["id"]]:
            rej.append((t, verdicts[t["id"]]))
    for t in partial:
        bad = [(l, c) for l, c in verdicts[t["id"]] if l > 0 and not c.startswith("X:")]
        if bad:
            broken.remove(t)
            rej.append((t, bad))
    stats["validated"] = len(good)
    stats["skipped_after_hangs"] = skipped
    stats["trace_states"] = vst["distinct"]
    stats["trace_transitions"] = vst["generated"]
    stats["broken"] = len(broken)
    stats["_rej"] = rej
    stats["_broken"] = broken
    stats["_samples"] = good[:2]
    stats["events"] = sum(len(t["events"]) for t in good)
    return stats


def check(pid, suites, tier, seed):
    t0 = time.time()
    scratch = Scratch()
    evid_path = os.path.join(ROOT, "evidence", pid + ".json")
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    viol, others, allstats, samples, brk = [], {}, [], [], []
    try:
        for suite in suites:
            st = run_suite(suite, pid, tier, seed, scratch, print)
            for t, bad in st.pop("_rej"):
                mine = [(l, c) for l, c in bad if pid in tags_of(c) or "*" in tags_of(c)]
                for l, c in bad:
                    if (l, c) not in mine:
                        others[c] = others.get(c, 0) + 1
                if mine:
                    viol.append((suite, t, mine))
            b = st.pop("_broken")
            brk += [(suite, x) for x in b]
            samples += st.pop("_samples")
            allstats.append(st)
    finally:
        scratch.close()
    known = load_known()
    reported, knownhit = [], []
    for suite, t, mine in viol:
        key = suite.name + ":" + sig(t["scn"])
        hit = [k for k in known if k[0] == pid and k[1] == key]
        (knownhit if hit else reported).append((suite, t, mine, hit))
    for k in known:
        if k[0] == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    states = sum(m["distinct"] for s in allstats for m in s["mc"] + s["gen"]) + sum(s["trace_states"] for s in allstats)
    trans = sum(m["generated"] for s in allstats for m in s["mc"] + s["gen"]) + sum(s["trace_transitions"] for s in allstats)
    nval = sum(s["validated"] for s in allstats)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": states, "transitions": trans, "traces_validated_against_impl": nval,
            "events_observed": sum(s["events"] for s in allstats),
            "suites": allstats,
            "samples": [{"scenario": _short(t["scn"]), "trace": [_compact(e) for e in t["events"][:12]]}
                        for t in samples[:4]],
            "rejections_of_other_properties": others,
        },
        "assumptions": ["TLC and its JSON module evaluate the specification correctly",
                        "the drivers record the public API faithfully (projection only)"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(reported),
    }
    with open(evid_path, "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for s in allstats:
        print("suite %-12s scenarios=%d validated=%d events=%d exec=%.1fs validate=%.1fs mc=%s" % (
            s["suite"], s["scenarios"], s["validated"], s["events"], s["exec_s"], s["validate_s"],
            ",".join("%s:%d" % (m["cfg"], m["distinct"]) for m in s["mc"])))
    print("property=%s tier=%s seed=%d states=%d traces=%d violations=%d wall=%.1fs" % (
        pid, tier, seed, states, nval, len(reported), time.time() - t0))
    if others:
        print("note: rejections tagged for other properties: %s" % json.dumps(others))
    if reported:
        byc = {}
        for suite, t, mine, _ in reported:
            for l, c in mine:
                byc.setdefault(c, []).append((suite, t, l))
        for c, lst in sorted(byc.items()):
            print("  clause %s violated by %d traces" % (c, len(lst)))
        shown = 0
        done = set()
        for suite, t, mine, _ in reported:
            cs = tuple(sorted(set(c for _, c in mine)))
            if cs in done:
                continue
            done.add(cs)
            path = os.path.join(ROOT, "evidence", "replay", "%s-%s.json" % (pid, sig(t["scn"])))
            with open(path, "w") as fh:
                json.dump({"property": pid, "suite": suite.name, "driver": suite.driver, "trace_module": suite.trace,
                           "clauses": mine, "scenario": t["scn"], "cfg": t["cfg"], "events": t["events"],
                           "how": "bash /verif/check.sh --replay " + path}, fh, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   clauses: %s" % ", ".join("%s@%d" % (c, l) for l, c in mine[:6]))
            shown += 1
            if shown >= 5:
                break
        return 1
    if brk:
        print("driver failure in %d scenarios, first:\n%s" % (len(brk), brk[0][1]["broken"]))
        print(json.dumps(brk[0][1]["scn"])[:2000])
        return 3
    return 0


def _compact(e):
    return {k: v for k, v in e.items() if v not in ("", [], 0, False, None) or k == "ev"}


def _short(o):
    s = json.dumps(o, default=str)
    return o if len(s) < 1500 else s[:1500] + "..."
