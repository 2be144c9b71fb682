#!/usr/bin/env python3
"""Driver of the runtime monitors: builds the monitor crate against /repo's working tree, runs the
shards of one property, merges what they observed into evidence/<id>.json and gives the verdict.

    check.py <property> [quick|thorough]        run a check
    check.py --replay <file>                    run the case recorded in a replay file again
    check.py --setup                            build everything once

Exit codes: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 no answer
(the build failed, the harness itself failed, or too much of the workload could not be judged).
"""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
TARGET = os.path.join(VERIF, "target")
BIN = os.path.join(TARGET, "release", "gsmon")
# The same monitors over the library built without its parallel feature
SEQ_TARGET = os.path.join(TARGET, "seq")
SEQ = os.path.join(SEQ_TARGET, "release", "gsmon")
SEQ_SHARDS = 2
SHARDS = 8

ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "")
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", RUST_LIB_BACKTRACE="0",
           CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN"):
    ENV.pop(k, None)

from checks import CHECKS  # noqa: E402


class NoAnswer(Exception):
    pass


def source_hash():
    """Of everything of /repo that gets compiled: cargo goes by time stamps, which a copy may not keep in order."""
    h = hashlib.sha256()
    for top in ("/repo/src", "/repo/python/src", "/repo/Cargo.toml", "/repo/python/Cargo.toml"):
        files = [top] if os.path.isfile(top) else sorted(os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0" + hashlib.sha256(open(f, "rb").read()).digest())
    return h.hexdigest()


def cargo(args, cwd, target, env=None, timeout=800, packages=("globalsearch",)):
    e = dict(ENV)
    e["CARGO_TARGET_DIR"] = target
    e.update(env or {})
    stamp, now = os.path.join(target, ".sources"), source_hash()
    if os.path.isdir(target) and (not os.path.exists(stamp) or open(stamp).read() != now):
        tool = [args[0]] if args[0].startswith("+") else []
        where = [x for a, b in zip(args, args[1:]) if a == "--target" for x in (a, b)]
        subprocess.run(["cargo"] + tool + ["clean", "--offline"] + where + [x for p in packages for x in ("-p", p)], cwd=cwd, env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
        if os.path.exists(stamp):
            os.unlink(stamp)
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    if r.returncode != 0:
        raise NoAnswer("build failed: cargo %s\n%s" % (" ".join(args), r.stdout[-3000:]))
    open(stamp, "w").write(now)


def build():
    args, cwd = ["build", "--release", "--offline", "-q"], os.path.join(VERIF, "mon")
    with ThreadPoolExecutor(2) as ex:
        jobs = [ex.submit(cargo, args, cwd, TARGET),
                ex.submit(cargo, args + ["--no-default-features", "--features", "argmin,checkpointing"], cwd, SEQ_TARGET)]
        for j in jobs:
            j.result()


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.access(d, os.W_OK):
            try:
                if shutil.disk_usage(d).free > 200 << 20:
                    return d
            except OSError:
                pass
    return tempfile.gettempdir()


class Shard:
    """One worker process; restarted behind a case that hangs."""

    def __init__(self, prop, tier, seed, idx, budget, work, cfg, seq=False):
        self.bin, self.seq = (SEQ if seq else BIN), seq
        self.prop, self.tier, self.seed, self.idx, self.work, self.cfg = prop, tier, seed, idx, work, cfg
        self.end = time.time() + budget
        self.start_at = 0
        self.run = 0
        self.done = False
        self.outs, self.hung, self.died = [], [], []
        self.spawn()

    def spawn(self):
        self.out = os.path.join(self.work, f"out{self.idx}_{self.run}.json")
        self.journal = os.path.join(self.work, f"journal{self.idx}")
        self.err = open(os.path.join(self.work, f"err{self.idx}_{self.run}"), "wb")
        left = max(0.5, self.end - time.time())
        cmd = [self.bin, "--prop", self.prop, "--tier", self.tier, "--seed", str(self.seed), "--shard", str(self.idx),
               "--budget", f"{left:.2f}", "--journal", self.journal, "--out", self.out, "--from", str(self.start_at),
               "--scratch", os.path.join(self.work, f"s{self.idx}"), "--self", self.bin]
        if os.path.exists(self.journal):
            os.unlink(self.journal)
        self.t0 = time.time()
        self.p = subprocess.Popen(cmd, env=ENV, stdout=subprocess.DEVNULL, stderr=self.err, start_new_session=True)
        self.run += 1

    def current(self):
        try:
            seed, i = open(self.journal).read().split()
            return seed, int(i), os.path.getmtime(self.journal)
        except (OSError, ValueError):
            return None, None, self.t0

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()

    def poll(self):
        if self.done:
            return
        rc = self.p.poll()
        if rc is None:
            seed, i, t = self.current()
            if time.time() - t > self.cfg.get("hang_s", 45):
                stacks = ""
                self.kill()
                if seed is None:
                    self.died.append((None, "no case was started", 0))
                    self.done = True
                    return
                self.hung.append((seed, stacks))
                self.again(i)
            return
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        if rc == 0 and os.path.exists(self.out):
            self.outs.append(self.out)
            self.done = True
        else:
            seed, i, _ = self.current()
            self.err.flush()
            tail = open(self.err.name, "rb").read()[-600:].decode("utf8", "replace")
            self.died.append((seed, tail, rc))
            if seed is None or len(self.died) > 2:
                self.done = True
            else:
                self.again(i)

    def again(self, i):
        if time.time() < self.end and len(self.hung) < 3:
            self.start_at = i + 1
            self.spawn()
        else:
            self.done = True


def run_shards(prop, tier, seed, budget, cfg, work):
    n = cfg.get("shards", SHARDS)
    shards = [Shard(prop, tier, seed, i, budget, work, cfg, seq=i >= n - SEQ_SHARDS) for i in range(n)]
    while not all(s.done for s in shards):
        for s in shards:
            s.poll()
        time.sleep(0.05)
    return shards


def merge(shards):
    m = dict(evals=0, cases=0, discarded=0, classes=set(), counters=Counter(), distinct={}, samples=[], viols=[],
             harness=[], runaways=[])
    for s in shards:
        for o in s.outs:
            d = json.load(open(o))
            for k in ("evals", "cases", "discarded"):
                m[k] += d[k]
            m["classes"].update(d["classes"])
            m["counters"].update(d["counters"])
            for k, v in d["distinct"].items():
                m["distinct"].setdefault(k, set()).update(v)
            m["samples"] += d["samples"][:1]
            if s.seq:
                m["counters"]["cases_without_the_parallel_feature"] += d["cases"]
            m["viols"] += [dict(v, seq=s.seq) for v in d["viols"]]
            m["harness"] += d["harness"]
            m["runaways"] += d["runaways"]
    return m


def known():
    out = []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        l = l.strip()
        if l.startswith("known:"):
            # known: property=<id> match=<text that the violation's detail must contain> :: description
            head, _, what = l[len("known:"):].partition("::")
            f = dict(x.split("=", 1) for x in head.split() if "=" in x)
            out.append((f["property"], f["match"], what.strip()))
    return out


def write_replay(prop, v, tier, seed):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{v['case']}.json")
    json.dump({"property": prop, "case": v["case"], "kind": v["kind"], "detail": v["detail"], "tier": tier, "seed": seed,
               "parallel_feature": not v.get("seq"),
               "how": f"python3 check.py --replay {os.path.relpath(p, VERIF)}"}, open(p, "w"), indent=1)
    return p


def replay(path):
    d = json.load(open(path))
    prop = d["property"]
    cfg = CHECKS[prop]
    work = tempfile.mkdtemp(prefix="gsv_", dir=scratch_base())
    try:
        if not str(d["case"]).isdigit():
            # Found by the other part of the check: run that part again with the same seed
            if cfg.get("shards", SHARDS):
                build()
            e = cfg["extra"](sys.modules[__name__], prop, d["tier"], d["seed"], work, None)
            hit = [v for v in e.get("viols", []) if v["case"] == d["case"]] or e.get("viols", [])
            for v in hit:
                print(v["kind"], v["detail"])
            if hit:
                print(f"VIOLATION property={prop} replay={path}")
                return 1
            print("the case holds")
            return 0
        build()
        b = BIN if d.get("parallel_feature", True) else SEQ
        r = subprocess.run([b, "--prop", prop, "--case", str(d["case"]), "--scratch", work, "--tier", d["tier"], "--self", b],
                           env=ENV, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=300)
        if r.returncode != 0:
            print(f"worker ended with {r.returncode}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        o = json.loads(r.stdout.strip().splitlines()[-1])
        for v in o["viols"]:
            print(v["kind"], v["detail"])
        if o["viols"]:
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        print("the case holds")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, seed):
    t0 = time.time()
    cfg = CHECKS[prop]
    work = tempfile.mkdtemp(prefix="gsv_", dir=scratch_base())
    try:
        extra = {}
        viols, notes, hung = [], [], []
        m = None
        if cfg.get("shards", SHARDS):
            build()
            budget = cfg["quick"] if tier == "quick" else cfg["thorough"]
            shards = run_shards(prop, tier, seed, budget, cfg, work)
            m = merge(shards)
            viols += m["viols"]
            for s in shards:
                for seed_, tail, rc in s.died:
                    # A worker killed by a signal while monitored code ran: abort, stack overflow, segfault
                    if seed_ is not None and rc is not None and rc < 0 and rc != -signal.SIGKILL:
                        viols.append(dict(case=seed_, kind="process-died", detail=f"signal {-rc}: {tail}", seq=s.seq))
                    else:
                        notes.append(f"worker ended with {rc} in case {seed_}: {tail}")
                for seed_, st in s.hung:
                    if cfg.get("hang_is_violation"):
                        viols.append(dict(case=seed_, kind="hang", detail="the case did not end", seq=s.seq))
                    else:
                        hung.append(seed_)
        # A few cases may hang inside the solver dependency (DESIGN.md); more is no verdict
        if len(hung) > 3:
            notes.append(f"{len(hung)} cases did not end: {hung[:3]}")
        if cfg.get("extra"):
            e = cfg["extra"](sys.modules[__name__], prop, tier, seed, work, m)
            viols += e.get("viols", [])
            notes += e.get("notes", [])
            extra = e.get("coverage", {})
        fresh, listed = [], Counter()
        for v in viols:
            k = next((w for p, mt, w in known() if p == prop and mt in v["kind"] + " " + v["detail"]), None)
            if k:
                listed[k] += 1
            else:
                fresh.append(v)
        cov = dict(rule=cfg["rule"], exhaustive=False)
        if m:
            cov.update(evaluations=m["cases"], distinct_nontrivial=len(m["classes"]), oracle_decisions=m["evals"],
                       discarded=m["discarded"], observed=dict(sorted(m["counters"].items())),
                       distinct_observed={k: len(v) for k, v in sorted(m["distinct"].items())}, samples=m["samples"][:6],
                       runaway_cases=m["runaways"][:10])
        for k, v in extra.items():
            if k in ("evaluations", "distinct_nontrivial") and k in cov:
                cov[k] += v
            elif k == "samples" and k in cov:
                cov[k] += v
            else:
                cov[k] = v
        ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], coverage=cov,
                  assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
        if notes:
            ev["notes"] = notes[:10]
        if hung:
            cov["cases_given_up"] = hung
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        for k, n in listed.items():
            print(f"KNOWN-FINDING: property={prop} {k}")
        if fresh:
            kinds = set()
            for v in fresh:
                if v["kind"] in kinds or len(kinds) >= 5:
                    continue
                kinds.add(v["kind"])
                p = v.get("replay") or write_replay(prop, v, tier, seed)
                print(f"{prop} {v['kind']}{' (without the parallel feature)' if v.get('seq') else ''}: {v['detail'][:600]}")
                print(f"VIOLATION property={prop} replay={p}")
            return 1
        if m and m["harness"]:
            raise NoAnswer(f"the harness failed: {m['harness'][:3]}")
        if notes:
            raise NoAnswer("; ".join(notes[:3]))
        if m and (m["cases"] < cfg.get("min_cases", 8) or m["discarded"] > 0.85 * m["cases"]):
            raise NoAnswer(f"too little was judged: {m['cases']} cases, {m['discarded']} discarded")
        n = cov.get("evaluations", 0)
        print(f"{prop} held: {n} cases, {cov.get('oracle_decisions', 0)} decisions, {ev['wall_s']} s")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build()
        import extras
        for p in ("python_build", "features_build", "stress_build"):
            f = getattr(extras, p, None)
            try:
                if f:
                    f(sys.modules[__name__])
            except NoAnswer as e:
                print("not built in advance:", p, str(e)[-300:])
        print("built")
        return 0
    if a and a[0] == "--replay":
        return replay(a[1])
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1) % (1 << 63)
    return check(prop, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        print("NO ANSWER:", e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("NO ANSWER: timeout", e.cmd[:4])
        sys.exit(2)
