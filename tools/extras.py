"""Parts of the checks that need more than the monitor crate: other builds, system call faults."""
import json, os, re, shutil, signal, subprocess, time

FEATURE_SETS = ["", "argmin", "argmin,rayon", "argmin,rayon,checkpointing", "rayon,progress_bar",
                "argmin,rayon,checkpointing,progress_bar"]


def features_build(d):
    target = os.path.join(d.VERIF, "target", "digest")
    for fs in FEATURE_SETS:
        d.cargo(["build", "--release", "--offline", "-q", "--features", fs], os.path.join(d.VERIF, "digest"), target)


def features(d, prop, tier, seed, work, m):
    """The same runs by builds with different features (C16)."""
    n = 150 if tier == "quick" else 1500
    target = os.path.join(d.VERIF, "target", "digest")
    out, viols, runs = {}, [], 0
    for fs in FEATURE_SETS:
        d.cargo(["build", "--release", "--offline", "-q", "--features", fs], os.path.join(d.VERIF, "digest"), target)
        sc = os.path.join(work, "digest")
        r = subprocess.run([os.path.join(target, "release", "gsdigest"), str(seed), str(n), sc], env=d.ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=200)
        shutil.rmtree(sc, ignore_errors=True)
        if r.returncode != 0:
            return dict(viols=[dict(case=f"features-{fs or 'none'}", kind="features", detail=f"the series of runs ended with {r.returncode} when built with {fs!r}")])
        for l in r.stdout.splitlines():
            i, mode, rest = l.split(" ", 2)
            out.setdefault((int(i), mode), {})[fs] = rest
            runs += 1
    compared = 0
    for (i, mode), by in sorted(out.items()):
        if len(by) < 2:
            continue
        compared += 1
        if len(set(by.values())) > 1:
            viols.append(dict(case=f"features-{seed}-{i}", kind="features", detail=f"run {i} ({mode}) differs between builds: {by}"))
    return dict(viols=viols[:5], coverage=dict(feature_builds=len(FEATURE_SETS), feature_runs=runs, feature_runs_compared=compared,
                                               evaluations=compared, distinct_nontrivial=compared))


# ------------------------------------------------------------------------------------------------ C08
def builds(d, prop, tier, seed, work, m):
    """The same sequential runs by the library with and without its parallel feature (C08)."""
    budget, n = (8 if tier == "quick" else 120), 4
    procs = []
    for k in range(n):
        for b in (d.BIN, d.SEQ):
            f = open(os.path.join(work, f"dig{k}_{b == d.SEQ}"), "w+")
            procs.append((k, f, subprocess.Popen([b, "--prop", "C08", "--child", "digest", "--case", str(seed), "--shard", str(k), "--budget", str(budget),
                                                  "--scratch", os.path.join(work, f"ds{k}_{b == d.SEQ}")], env=d.ENV, stdout=f, stderr=subprocess.DEVNULL)))
    out, viols, notes, same, evals = {}, [], [], 0, 0
    for k, f, p in procs:
        try:
            rc = p.wait(timeout=budget + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            rc = "a stall"
        f.seek(0)
        out.setdefault(k, []).append([x for x in f.read().splitlines() if " | " in x])
        if rc == "a stall":
            pass  # a solver of the dependency that does not end; what was printed before counts
        elif rc != 0:
            viols.append(dict(case=f"builds-{seed}-{k}", kind="builds", detail=f"the series of runs ended with {rc}"))
    for k, (a, b) in sorted(out.items()):
        for x, y in zip(a, b):
            fx, fy = x.split(" | ")[0].split(), y.split(" | ")[0].split()
            if "1" in (fx[1], fy[1]):
                continue
            same += 1
            evals += int(fx[5])
            if x != y and len(viols) < 5:
                viols.append(dict(case=f"builds-{seed}-{fx[0]}", kind="builds", detail=f"with the parallel feature {' '.join(fx[2:])}, without {' '.join(fy[2:])}; {x.split(' | ')[1]}"))
    if same < 20 and not viols:
        notes.append(f"only {same} runs of both builds could be compared")
    return dict(viols=viols, notes=notes, coverage=dict(runs_of_both_builds_compared=same, evaluations_of_both_builds_compared=evals))


# ------------------------------------------------------------------------------------------------ C12
CALLS = ["openat", "open", "creat", "write", "writev", "pwrite64", "rename", "renameat", "renameat2", "unlink", "unlinkat",
         "fsync", "fdatasync", "close", "ftruncate", "link", "linkat", "copy_file_range", "sendfile", "statx", "mkdir"]
FAIL = {"openat": "EACCES", "write": "ENOSPC", "rename": "EIO", "renameat": "EIO", "renameat2": "EIO", "fsync": "EIO",
        "fdatasync": "EIO", "unlink": "EACCES", "ftruncate": "EIO", "copy_file_range": "EIO", "linkat": "EIO"}


def strace_store(d, prop, tier, seed, work, m):
    """A save over an existing checkpoint, killed or failing at every system call it makes (C12)."""
    strace = shutil.which("strace")
    if not strace:
        return dict(coverage=dict(syscall_faults="strace is not there"))
    base = os.path.join(work, "sys")
    gs = lambda *a: [d.BIN, "--prop", "C12", "--scratch", *a]  # noqa: E731

    def sh(cmd, **k):
        return subprocess.run(cmd, env=d.ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60, **k)

    viols, points, kinds = [], 0, {}
    for keep in ("0", "1"):
        src = os.path.join(base, "src" + keep)
        os.makedirs(src)
        r = sh(gs(src, "--child", "save", "--case", "1", "--keep", keep))
        if r.returncode != 0:
            return dict(viols=[dict(case="syscall-first", kind="save-failed", detail=r.stderr[-300:])])

        def fresh():
            t = os.path.join(base, "t")
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(src, t)
            return t

        t = fresh()
        log = os.path.join(base, "log")
        r = sh([strace, "-f", "-o", log, "-e", "trace=" + ",".join("?" + c for c in CALLS)] + gs(t, "--child", "save", "--case", "2", "--keep", keep))
        if r.returncode != 0 or not os.path.exists(log):
            return dict(coverage=dict(syscall_faults="strace cannot trace here: " + r.stderr[-120:]))
        # k-th occurrence of each call, from the first one that touches the directory on
        count, todo, touched = {}, [], False
        for l in open(log):
            mt = re.match(r"\d+\s+(\w+)\(", l)
            if not mt:
                continue
            c = mt.group(1)
            count[c] = count.get(c, 0) + 1
            touched = touched or t in l
            if touched:
                todo.append((c, count[c]))
        cap = 60 if tier == "quick" else 400
        if len(todo) > cap:
            todo = [todo[i * len(todo) // cap] for i in range(cap)]
        jobs = [(c, k, "signal=KILL") for c, k in todo] + [(c, k, "error=" + FAIL[c]) for c, k in todo if c in FAIL]
        for c, k, what in jobs:
            t = fresh()
            r = sh([strace, "-f", "-o", "/dev/null", "-e", "trace=" + c, "-e", f"inject={c}:{what}:when={k}"] +
                   gs(t, "--child", "save", "--case", "2", "--keep", keep))
            points += 1
            kinds[c] = kinds.get(c, 0) + 1
            after = sh(gs(t, "--child", "latest", "--keep", keep)).stdout.strip()
            where = f"{what} at {c} #{k}, keep_all={keep}"
            if after not in ("1 true", "2 true"):
                viols.append(dict(case=f"syscall-{keep}-{c}-{k}", kind="lost-checkpoint", detail=f"after {where}, the latest checkpoint is: {after!r}"))
            elif what.startswith("error") and r.returncode == 0 and after != "2 true":
                viols.append(dict(case=f"syscall-{keep}-{c}-{k}", kind="failure-hidden", detail=f"save reported success with {where}, but the latest checkpoint is {after!r}"))
            elif what.startswith("error") and r.returncode not in (0, 1):
                viols.append(dict(case=f"syscall-{keep}-{c}-{k}", kind="save-crashed", detail=f"save ended with {r.returncode} with {where}: {r.stderr[-200:]}"))
    return dict(viols=viols[:5], coverage=dict(syscall_fault_points=points, syscall_kinds=kinds, evaluations=points, distinct_nontrivial=points))


# ------------------------------------------------------------------------------------------------ C22
def python_build(d):
    target = os.path.join(d.VERIF, "target", "py")
    d.cargo(["build", "--release", "--offline", "-q"], "/repo/python", target, packages=("globalsearch", "pyglobalsearch"))
    return os.path.join(target, "release", "libpyglobalsearch.so")


def python(d, prop, tier, seed, work, m):
    """The Python binding under pycheck.py, in several processes with other pool sizes (C22)."""
    interp = "/opt/vp/venv/bin/python"
    if not os.path.exists(interp):
        raise d.NoAnswer("no interpreter with numpy for the binding")
    d.build()
    lib = python_build(d)
    so = os.path.join(work, "so")
    os.makedirs(so)
    shutil.copy(lib, os.path.join(so, "pyglobalsearch.so"))
    budget = 30 if tier == "quick" else 500
    stall, n = 60, 7
    ws = []
    for i in range(n):
        w = os.path.join(work, f"py{i}")
        os.makedirs(w)
        env = dict(d.ENV, RAYON_NUM_THREADS=str([1, 2, 3, 4, 8, 2, 4][i]), PYTHONDONTWRITEBYTECODE="1")
        out, prog = os.path.join(w, "out.json"), os.path.join(w, "progress")
        open(prog, "w").write("start")
        err = open(os.path.join(w, "err"), "w+")
        p = subprocess.Popen([interp, os.path.join(d.VERIF, "tools", "pycheck.py"), so, d.BIN, w, str(seed * 1000 + i), str(budget), out, prog],
                             env=env, stdout=subprocess.DEVNULL, stderr=err, start_new_session=True)
        ws.append(dict(p=p, out=out, prog=prog, err=err, i=i))
    viols, notes = [], []
    counters, classes, samples = {}, set(), []
    open_ = list(ws)

    def kill(w, sig):
        try:
            os.killpg(w["p"].pid, sig)
        except (ProcessLookupError, PermissionError):
            pass

    def text(w, k):
        w["err"].flush()
        return open(w["err"].name, errors="replace").read()[-k:]

    while open_:
        time.sleep(0.1)
        for w in list(open_):
            rc = w["p"].poll()
            where = open(w["prog"]).read()
            case = f"python-{seed * 1000 + w['i']}-{where.replace(' ', '-')}"
            if rc is None:
                if time.time() - os.path.getmtime(w["prog"]) > stall:
                    try:
                        os.kill(w["p"].pid, signal.SIGUSR1)  # faulthandler writes the stacks
                    except ProcessLookupError:
                        pass
                    time.sleep(1.5)
                    kill(w, signal.SIGKILL)
                    w["p"].wait()
                    open_.remove(w)
                    viols.append(dict(case=case, kind="hang", detail=f"no progress for {stall} s in {where}: {text(w, 1500)}"))
                continue
            open_.remove(w)
            kill(w, signal.SIGKILL)
            if rc == 0 and os.path.exists(w["out"]):
                o = json.load(open(w["out"]))
                for k, v in o["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                classes.update(o["classes"])
                samples += o["samples"][:1]
                viols += [dict(case=f"python-{seed * 1000 + w['i']}-{v.get('group', 0)}", kind=v["kind"], detail=v["detail"]) for v in o["viols"]]
            elif rc < 0 and rc != -signal.SIGKILL:
                viols.append(dict(case=case, kind="interpreter-died", detail=f"signal {-rc} in {where}: {text(w, 700)}"))
            else:
                notes.append(f"worker ended with {rc} in {where}: {text(w, 700)}")
    runs = counters.get("runs_compared", 0)
    if not viols and not notes and runs < 100:
        notes.append(f"only {runs} runs were compared")
    return dict(viols=viols[:10], notes=notes, coverage=dict(
        evaluations=runs, distinct_nontrivial=len(classes), oracle_decisions=runs, observed=dict(sorted(counters.items())), samples=samples[:6],
        processes=n, pool_sizes=[1, 2, 3, 4, 8]))


# ------------------------------------------------------------------------------------------------ C23
HOST = "x86_64-unknown-linux-gnu"
MIRI = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows -Zmiri-permissive-provenance -Zmiri-deterministic-floats"


def stress_build(d):
    crate = os.path.join(d.VERIF, "stress")
    native, tsan, miri = (os.path.join(d.VERIF, "target", t) for t in ("stress", "tsan", "miri"))
    d.cargo(["build", "--release", "--offline", "-q"], crate, native)
    d.cargo(["+nightly", "build", "--release", "--offline", "-q", "-Zbuild-std", "--target", HOST], crate, tsan, env=dict(RUSTFLAGS="-Zsanitizer=thread"))
    # Two runs of the smallest workload build everything Miri needs
    d.cargo(["+nightly", "miri", "run", "--offline", "-q", "--", "none", "1", "0", "/nonexistent"], crate, miri, env=dict(MIRIFLAGS=MIRI))
    return os.path.join(native, "release", "gsstress"), os.path.join(tsan, HOST, "release", "gsstress"), (crate, miri)


def owner(frames):
    """Whose access it is: the innermost frame outside std and the array and random number crates.
    (function, path) from the inside out. Reports about the queues of rayon (whose volatile reads are
    known to ThreadSanitizer as races) are not about this library."""
    for fn, path in frames:
        if "/repo/src/" in path:
            return "ours"
        if re.search(r"rayon|crossbeam|gsstress|/stress/src", path):
            return "other"
    return "none"


def tsan_reports(text):
    out = []
    for rep in re.split(r"={10,}", text):
        if "WARNING: ThreadSanitizer" not in rep and "ERROR: ThreadSanitizer" not in rep:
            continue
        stacks, cur = [], None
        for l in rep.splitlines():
            mt = re.match(r"\s+#\d+\s+(.*?)\s+(/\S+|<null>|\S+:\d+)", l)
            if mt:
                if cur is None:
                    cur = []
                    stacks.append(cur)
                cur.append((mt.group(1), mt.group(2)))
            else:
                cur = None
        # the first two stacks are the accesses, the others where threads and memory come from
        who = [owner(s) for s in stacks[:2]]
        mine = ("ours" in who and "other" not in who) if "data race" in rep else "/repo/src/" in rep
        out.append((mine, rep.strip()[:1500]))
    return out


def miri_reports(text):
    out = []
    for rep in re.split(r"\n(?=error)", text):
        if not rep.startswith("error") or "aborting due to" in rep[:40]:
            continue
        frames = re.findall(r"(?:-->|at|inside .*? at) (/\S+?:\d+)", rep)
        frames += re.findall(r"\d+: .*?\n\s+at (/\S+?:\d+)", rep)
        out.append((owner([("", f) for f in frames]) == "ours", rep.strip()[:1500]))
    return out


def stress(d, prop, tier, seed, work, m):
    """The stress workload natively, under ThreadSanitizer and under Miri (C23)."""
    native, tsan, (crate, miri) = stress_build(d)
    quick = tier == "quick"
    viols, notes, outside = [], [], []
    cov, classes, samples = {}, set(), []

    def batch(tag, jobs, limit):
        """Runs the commands at the same time: (seed, command, environment, sanitizer log)."""
        ps = []
        for s, cmd, env, log, cwd in jobs:
            o = open(os.path.join(work, f"{tag}{s}.out"), "w")
            e = open(os.path.join(work, f"{tag}{s}.err"), "w")
            ps.append((s, subprocess.Popen(cmd, env=env, cwd=cwd, stdout=o, stderr=e, start_new_session=True), log, o.name, e.name))
        end = time.time() + limit
        for s, p, log, o, e in ps:
            case = f"{tag}-{s}"
            try:
                rc = p.wait(max(1.0, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = None
            text, err = open(o, errors="replace").read(), open(e, errors="replace").read()
            san = "".join(open(os.path.join(work, f), errors="replace").read() for f in sorted(os.listdir(work)) if log and f.startswith(log))
            reports = tsan_reports(san) if tag == "tsan" else (miri_reports(err) if tag == "miri" else [])
            for mine, rep in reports:
                (viols.append(dict(case=case, kind=tag + "-report", detail=rep)) if mine else outside.append(rep))
            done = "DONE" in text
            for l in text.splitlines():
                if l.startswith("BAD "):
                    kind, _, rest = l[4:].partition(": ")
                    viols.append(dict(case=case, kind=kind, detail=f"[{tag}] {rest}"))
                elif l.startswith("COUNT "):
                    w = l.split()[1:]
                    for k, v in zip(w[::2], w[1::2]):
                        cov[f"{tag}_{k}"] = cov.get(f"{tag}_{k}", 0) + int(v)
                    cov[f"{tag}_processes"] = cov.get(f"{tag}_processes", 0) + 1
                elif l.startswith("CLASS "):
                    classes.add(l)
            if rc is None and tag != "miri":
                viols.append(dict(case=case, kind="hang", detail=f"[{tag}] the workload did not end; {err[-300:]}"))
            elif rc is None:
                cov["miri_gave_up"] = cov.get("miri_gave_up", 0) + 1
            elif rc < 0 and rc != -signal.SIGKILL:
                viols.append(dict(case=case, kind="process-died", detail=f"[{tag}] signal {-rc}: {err[-600:]}"))
            elif not done and not any(mine for mine, _ in reports):
                (outside.append(err[-300:]) if reports else notes.append(f"{case} ended with {rc}: {err[-500:]}"))

    sc = lambda t, s: os.path.join(work, f"{t}s{s}")  # noqa: E731
    seeds = [seed * 100 + i for i in range(8)]
    env = dict(d.ENV)
    b = 10 if quick else 200
    batch("native", [(s, [native, "full", str(s), str(b), sc("n", s)], env, None, None) for s in seeds[:4]], b + 90)
    b = 20 if quick else 300
    batch("tsan", [(s, [tsan, "full", str(s), str(b), sc("t", s)], dict(env, TSAN_OPTIONS=f"halt_on_error=0 exitcode=0 log_path={work}/tsanlog{s}."), f"tsanlog{s}.", None)
                   for s in seeds], b + 120)
    menv = lambda s: dict(env, MIRIFLAGS=f"{MIRI} -Zmiri-seed={s}", CARGO_TARGET_DIR=miri)  # noqa: E731
    for k in range(1 if quick else 3):
        ms = [seed * 1000 + k * 10 + i for i in range(7)]
        batch("miri", [(s, ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--", "tiny", str(s), "0" if quick else "60", sc("m", s)], menv(s), None, crate)
                       for s in ms], 330 if quick else 500)
    runs = sum(cov.get(f"{t}_runs", 0) for t in ("native", "tsan", "miri"))
    if not viols and not notes and (not cov.get("tsan_runs_on_several_threads") or not cov.get("native_runs_on_several_threads")):
        notes.append("the workload did not run on several threads")
    return dict(viols=viols[:10], notes=notes, coverage=dict(
        evaluations=runs, distinct_nontrivial=len(classes), oracle_decisions=runs, observed=dict(sorted(cov.items())),
        reports_outside_this_library=len(outside), samples=sorted(classes)[:3] + outside[:2]))
