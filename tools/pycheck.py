"""Workload of C22, run by the interpreter the binding was built for: calls the extension module as
users do (single calls, reused problems, several threads, failing and nested calls) and compares with
what the Rust library answers for the same case (gsmon --child pyoracle).

    pycheck.py <dir with pyglobalsearch.so> <gsmon> <work dir> <seed> <budget s> <out.json> <progress file>
"""
import faulthandler, json, math, os, random, struct, subprocess, sys, threading, time

SO, GSMON, WORK, SEED, BUDGET, OUT, PROG = sys.argv[1:8]
faulthandler.dump_traceback_later(10 ** 6)
faulthandler.register(10, all_threads=True)  # SIGUSR1
sys.path.insert(0, SO)
import numpy as np  # noqa: E402
import pyglobalsearch as gs  # noqa: E402

os.makedirs(WORK, exist_ok=True)
rng = random.Random(int(SEED))
viols, counters, classes, samples, now = [], {}, set(), [], [0]


def n(k, v=1):
    counters[k] = counters.get(k, 0) + v


def beat():
    """A sign of life for the watchdog."""
    try:
        os.utime(PROG)
    except OSError:
        pass


def hx(v):
    return "nan" if v != v else "%016x" % struct.unpack("<Q", struct.pack("<d", v))[0]


def hxs(v):
    return " ".join(hx(float(x)) for x in v)


def fail(kind, detail):
    if len(viols) < 20:
        viols.append(dict(kind=kind, detail=str(detail)[:900], group=now[0]))


# ---------------------------------------------------------------------------------------- the functions
def value(kind, s, x):
    v = 0.0
    if kind == 0:
        for i in range(len(x)):
            d = x[i] - s[i]
            v = v + (i + 1.0) * d * d
    elif kind == 1:
        for i in range(len(x)):
            d = x[i] * x[i] - 1.0
            v = v + d * d + 0.1 * s[i] * x[i]
    elif kind == 2:
        for i in range(len(x)):
            v = v + abs(x[i] - s[i]) * (i + 0.5)
    elif kind == 3:
        for i in range(len(x)):
            t = x[i] - (math.floor(x[i]) if math.isfinite(x[i]) else x[i])
            v = v + t * (1.0 - t) * (s[i] + 3.0) + 0.05 * x[i] * x[i]
    elif kind == 4:
        for i in range(len(x)):
            d = x[i] - s[i]
            v = v + math.sqrt(1.0 + d * d)
        v = v + 0.25 * x[0] * x[-1]
    else:
        for i in range(len(x)):
            a = x[i] - s[i]
            b = x[i] + s[i]
            p, q = a * a, b * b
            v = v + (p if p < q else q)
    return v


def grad(kind, s, x):
    g = []
    for i in range(len(x)):
        if kind == 0:
            g.append(2.0 * (i + 1.0) * (x[i] - s[i]))
        elif kind == 1:
            g.append(4.0 * (x[i] * x[i] - 1.0) * x[i] + 0.1 * s[i])
        elif kind == 2:
            g.append((i + 0.5) if x[i] > s[i] else -(i + 0.5))
        elif kind == 3:
            t = x[i] - (math.floor(x[i]) if math.isfinite(x[i]) else x[i])
            g.append((1.0 - 2.0 * t) * (s[i] + 3.0) + 0.1 * x[i])
        elif kind == 4:
            d = x[i] - s[i]
            g.append(d / math.sqrt(1.0 + d * d))
        else:
            a = x[i] - s[i]
            b = x[i] + s[i]
            g.append(2.0 * a if a * a < b * b else 2.0 * b)
    if kind == 4:
        g[0] = g[0] + 0.25 * x[-1]
        g[-1] = g[-1] + 0.25 * x[0]
    return g


def hess(kind, s, x):
    m = len(x)
    h = [[0.0] * m for _ in range(m)]
    for i in range(m):
        if kind == 0:
            h[i][i] = 2.0 * (i + 1.0)
        elif kind == 1:
            h[i][i] = 12.0 * x[i] * x[i] - 4.0
        elif kind == 4:
            d = x[i] - s[i]
            q = 1.0 + d * d
            h[i][i] = 1.0 / (q * math.sqrt(q))
        else:
            h[i][i] = 2.0
    if m > 1:
        h[0][1] = 0.0625
        h[1][0] = 0.0625
    return h


CONS = [
    lambda x: x[0] + 0.5,
    lambda x: 0.75 - x[0],
    lambda x: 4.0 - x[0] * x[0] - x[-1] * x[-1],
    lambda x: x[0] * x[0] - 0.25,
    lambda x: x[0] + x[-1] + 1.0,
    lambda x: 1.5 - abs(x[0] - 0.25),
    lambda x: -0.5 - x[0],
    lambda x: x[-1] - x[0] + 0.25,
]

EPS = 2.220446049250313e-16
SQ = math.sqrt(EPS)
SOLVERS = ["COBYLA", "COBYLA", "NelderMead", "LBFGS", "TrustRegion", "SteepestDescent", "NewtonCG"]
NAMES = {"COBYLA": ["COBYLA", "cobyla", "Cobyla"], "NelderMead": ["NelderMead", "neldermead"], "LBFGS": ["LBFGS", "lbfgs"],
         "TrustRegion": ["TrustRegion", "trustregion"], "SteepestDescent": ["SteepestDescent", "steepestdescent"],
         "NewtonCG": ["NewtonCG", "newtoncg"]}


def logu(r, a, b):
    return math.exp(r.uniform(math.log(a), math.log(b)))


def gen_ls(r):
    """A line search: (text for the oracle, maker of the Python object)."""
    B = gs.builders
    if r.random() < 0.75:
        full = dict(c1=1e-4, c2=0.9, width_tolerance=1e-10, bounds=[SQ, math.inf])
        new = dict(c1=logu(r, 1e-5, 0.2), c2=r.uniform(0.3, 0.95), width_tolerance=logu(r, 1e-12, 1e-3),
                   bounds=[logu(r, 1e-9, 1e-4), r.choice([math.inf, 10.0, 1.5])])
        cls, fn, tag, order = B.MoreThuente, B.morethuente, "mt", ["c1", "c2", "width_tolerance"]
    else:
        full = dict(delta=0.1, sigma=0.9, epsilon=1e-6, theta=0.5, gamma=0.66, eta=0.01, bounds=[SQ, math.inf])
        new = dict(delta=r.uniform(0.02, 0.4), sigma=r.uniform(0.45, 0.95), epsilon=logu(r, 1e-9, 1e-3), theta=r.uniform(0.2, 0.8),
                   gamma=r.uniform(0.4, 0.9), eta=r.uniform(0.005, 0.3), bounds=[logu(r, 1e-8, 1e-4), r.choice([1e5, 10.0, 1.5])])
        cls, fn, tag, order = B.HagerZhang, B.hagerzhang, "hz", ["delta", "sigma", "epsilon", "theta", "gamma", "eta"]
    val, how = mix(r, full, new)
    if tag == "hz" and val["bounds"][1] == math.inf:
        val["bounds"] = list(new["bounds"])
        how["given"]["bounds"] = list(new["bounds"])
        how["set"].pop("bounds", None)
    wrap = r.randrange(3)

    def make():
        o = construct(cls, fn, how, val)
        if wrap == 0:
            return B.PyLineSearchParams(o)
        return B.PyLineSearchParams.morethuente(o) if tag == "mt" else B.PyLineSearchParams.hagerzhang(o)

    return f"{tag} {hxs([val[k] for k in order])} {hxs(val['bounds'])}", make, lambda: construct(cls, fn, how, val)


def mix(r, full, new):
    """Some values given, some assigned afterwards, the others left at their defaults."""
    style = r.randrange(4)
    val, given, later = dict(full), {}, {}
    for k in new:
        u = r.random()
        if style == 0 or u < 0.4:
            given[k] = val[k] = new[k]
        elif u < 0.6:
            later[k] = val[k] = new[k]
    return val, dict(style=style, given=given, set=later)


def construct(cls, fn, how, val, all_required=True):
    if how["style"] == 0 or (how["style"] == 1 and not how["set"]):
        o = fn(**val)
    else:
        o = cls(**how["given"])
    for k, v in how["set"].items():
        setattr(o, k, v)
    for k, v in val.items():
        got = getattr(o, k)
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            ok = got == v
        elif isinstance(v, list):
            ok = list(got) == list(v)
        else:
            continue
        n("builder_values")
        if not ok:
            fail("builder-value", f"{cls.__name__}.{k} is {got!r}, given {v!r}")
    return o


def gen_cfg(r, solver, dim):
    B = gs.builders
    if r.random() < 0.25:
        return "default", lambda: None
    mi = r.randrange(1, 40)
    if solver == "COBYLA":
        full = dict(max_iter=300, step_size=1.0, ftol_rel=None, ftol_abs=None, xtol_rel=None, xtol_abs=None)
        new = dict(max_iter=r.randrange(3, 120), step_size=logu(r, 0.02, 2.0), ftol_rel=logu(r, 1e-9, 1e-2), ftol_abs=logu(r, 1e-10, 1e-2),
                   xtol_rel=logu(r, 1e-9, 1e-2), xtol_abs=[logu(r, 1e-9, 1e-2) for _ in range(dim)])
        val, how = mix(r, full, new)
        o = lambda v: "none" if v is None else hx(v)  # noqa: E731
        xa = "none" if val["xtol_abs"] is None else hxs(val["xtol_abs"])
        text = f"cobyla {val['max_iter']} {hx(val['step_size'])} {o(val['ftol_rel'])} {o(val['ftol_abs'])} {o(val['xtol_rel'])} {xa}"
        return text, lambda: construct(B.COBYLA, B.cobyla, how, val)
    if solver == "NelderMead":
        full = dict(simplex_delta=0.1, sd_tolerance=EPS, max_iter=300, alpha=1.0, gamma=2.0, rho=0.5, sigma=0.5)
        new = dict(simplex_delta=logu(r, 0.01, 1.0), sd_tolerance=logu(r, 1e-12, 1e-2), max_iter=mi, alpha=r.uniform(0.5, 1.3), gamma=r.uniform(1.4, 3.0),
                   rho=r.uniform(0.2, 0.5), sigma=r.uniform(0.3, 0.9))
        val, how = mix(r, full, new)
        text = f"nm {hx(val['simplex_delta'])} {hx(val['sd_tolerance'])} {val['max_iter']} {hxs([val[k] for k in ('alpha', 'gamma', 'rho', 'sigma')])}"
        return text, lambda: construct(B.NelderMead, B.neldermead, how, val)
    if solver == "TrustRegion":
        full = dict(max_iter=300, radius=1.0, max_radius=100.0, eta=0.125)
        new = dict(max_iter=mi, radius=logu(r, 0.1, 5.0), max_radius=r.uniform(6.0, 80.0), eta=r.uniform(0.01, 0.24))
        val, how = mix(r, full, new)
        m = r.choice(["cauchy", "steihaug"])
        text = f"trust {m} {val['max_iter']} {hxs([val[k] for k in ('radius', 'max_radius', 'eta')])}"
        T = B.TrustRegionRadiusMethod

        def make():
            mt = getattr(T, m)()
            if how["style"] == 0:
                return B.trustregion(trust_region_radius_method=mt, **val)
            o = B.TrustRegion(trust_region_radius_method=mt, **how["given"])
            for k, v in how["set"].items():
                setattr(o, k, v)
            return o

        return text, make
    ls_text, ls_params, ls_raw = gen_ls(r)
    default_ls = r.random() < 0.2
    if default_ls:
        ls_text = f"mt {hxs([1e-4, 0.9, 1e-10])} {hxs([SQ, math.inf])}"
    raw = r.random() < 0.4
    if solver == "LBFGS":
        full = dict(max_iter=300, tolerance_grad=SQ, tolerance_cost=EPS, history_size=10, l1_coefficient=None)
        new = dict(max_iter=mi, tolerance_grad=logu(r, 1e-9, 1e-1), tolerance_cost=logu(r, 1e-15, 1e-2), history_size=r.randrange(1, 12),
                   l1_coefficient=logu(r, 1e-3, 0.5))
        if r.random() < 0.7:
            new.pop("l1_coefficient")
        val, how = mix(r, full, new)
        l1 = "none" if val["l1_coefficient"] is None else hx(val["l1_coefficient"])
        text = f"lbfgs {val['max_iter']} {hx(val['tolerance_grad'])} {hx(val['tolerance_cost'])} {val['history_size']} {l1} {ls_text}"
        cls, fn = B.LBFGS, B.lbfgs
    elif solver == "SteepestDescent":
        full, new = dict(max_iter=300), dict(max_iter=mi)
        val, how = mix(r, full, new)
        text = f"steepest {val['max_iter']} {ls_text}"
        cls, fn = B.SteepestDescent, B.steepestdescent
    else:
        full = dict(max_iter=300, curvature_threshold=0.0, tolerance=EPS)
        new = dict(max_iter=mi, curvature_threshold=r.choice([0.0, logu(r, 1e-6, 1.0)]), tolerance=logu(r, 1e-12, 1e-2))
        val, how = mix(r, full, new)
        text = f"newton {val['max_iter']} {hx(val['curvature_threshold'])} {hx(val['tolerance'])} {ls_text}"
        cls, fn = B.NewtonCG, B.newtoncg

    def make():
        if how["style"] == 0:
            if default_ls:
                return fn(line_search_params=B.PyLineSearchParams(B.MoreThuente()), **val)
            return fn(line_search_params=ls_raw() if raw else ls_params(), **val)
        kw = dict(how["given"])
        if not default_ls:
            kw["line_search_params"] = ls_params()
        o = cls(**kw)
        for k, v in how["set"].items():
            setattr(o, k, v)
        return o

    return text, make


class Case:
    """One optimization: text for the oracle, and the means to run it in Python."""

    def __init__(self, r, cheap=False, cons=None, parallel=None, solver=None, plain=False):
        self.r = random.Random(r.random())
        r = self.r
        self.dim = r.choice([1, 2, 2, 3])
        self.kind = r.randrange(6)
        self.shift = [round(r.uniform(-1.5, 1.5), 3) for _ in range(self.dim)]
        b = []
        for _ in range(self.dim):
            lo = r.choice([-2.0, -3.0, -2.5, -1.0])
            b.append([lo, r.choice([1.0, 2.0, 3.0, 1.25])])
        self.bounds = b
        self.seed = r.choice([0, 1, r.randrange(1 << 32), r.randrange(1 << 64)])
        self.cons = []
        if cons if cons is not None else r.random() < 0.45:
            self.cons = [r.randrange(8) for _ in range(r.choice([1, 1, 2, 3]))]
            if cheap and r.random() < 0.04:
                # Every constraint has its own slot in the binding; the last ones are special
                self.cons = [r.randrange(8)] * r.choice([15, 32, 64, 100]) + self.cons
        self.solver = solver or ("COBYLA" if self.cons and r.random() < 0.8 else r.choice(SOLVERS))
        if self.solver == "TrustRegion" and self.kind not in (0, 1, 4):
            self.kind = r.choice([0, 1, 4])
        if self.solver == "NewtonCG":
            self.kind = r.choice([0, 4])
        pop = r.choice([4, 5, 8, 10]) if cheap else r.choice([4, 6, 10, 16, 25, 40])
        it = r.randrange(1, (4 if cheap else pop) + 1)
        self.p = (it, pop, r.choice([1, 2, 3, 15]))
        self.pf = (r.choice([0.2, 1.0, logu(r, 0.01, 20.0)]), r.choice([0.0, 0.75, r.uniform(0.0, 1.0)]), r.choice([1e-8, 0.0, logu(r, 1e-9, 0.5)]),
                   r.choice([1e-6, 0.0, logu(r, 1e-9, 0.5)]))
        self.cfg_text, self.make_cfg = gen_cfg(r, self.solver, self.dim)
        self.parallel = (r.random() < 0.4) if parallel is None else parallel
        self.target = r.choice([None] * 5 + [r.uniform(-2.0, 4.0), -1e9])
        self.maxtime = r.choice([None] * 6 + [1e9, -1.0])
        self.exclude = r.random() < 0.3
        self.points = None
        if r.random() < 0.3:
            self.points = [[r.uniform(*q) for q in b] for _ in range(r.choice([1, 2, 7]))]
        self.fail = {}
        self.nograd = self.nohess = False
        self.obs = None
        if not plain:
            if r.random() < 0.15:
                self.fail[r.choice(["obj", "obj", "grad", "hess"])] = r.choice([r.uniform(-1.0, 1.5), 0.9, 1.9])
            self.nograd = r.random() < 0.07
            self.nohess = r.random() < 0.07
            if r.random() < 0.4:
                self.obs = ["s1"] * (r.random() < 0.8) + ["s2"] * (r.random() < 0.8) + ["time"] * (r.random() < 0.5) + ["cb"] * (r.random() < 0.7)
                self.obs += ["unique"] * (r.random() < 0.2)
                self.obs += r.choice([[], [], ["f1"], ["f2"], ["f3"]]) + r.choice([[], [], ["m1"], ["m2"], ["mb"]])
                self.obs = self.obs or ["s2"]
        self.ans = None

    def text(self):
        t = [f"kind {self.kind}", "bounds " + hxs(v for b in self.bounds for v in b), "shift " + hxs(self.shift), f"seed {self.seed}",
             "p " + " ".join(map(str, self.p)), "pf " + hxs(self.pf), f"solver {self.solver}", "cfg " + self.cfg_text]
        if self.cons:
            t.append("cons " + " ".join(map(str, self.cons)))
        if self.fail:
            t.append("fail " + " ".join(f"{k} {hx(v)}" for k, v in self.fail.items()))
        for k, on in (("nograd", self.nograd), ("nohess", self.nohess), ("parallel", self.parallel), ("exclude", self.exclude)):
            if on:
                t.append(k)
        if self.target is not None:
            t.append("target " + hx(self.target))
        if self.maxtime is not None:
            t.append("maxtime " + hx(self.maxtime))
        if self.points is not None:
            t.append("points " + hxs(v for p in self.points for v in p))
        if self.obs is not None:
            t.append("obs " + " ".join(self.obs))
        return "\n".join(t) + "\nrun\n"

    def brief(self):
        return self.text().replace("\n", "; ")

    def cls(self):
        return (self.kind, self.dim, self.solver, self.cfg_text.split()[0], self.parallel, bool(self.cons), self.exclude, self.target is not None,
                self.maxtime, self.points is not None, tuple(self.fail), tuple(self.obs or []))


def ask(cases):
    """The Rust library's answers, None where it did not end."""
    path = os.path.join(WORK, "cases.txt")
    todo = list(cases)
    while todo:
        beat()
        open(path, "w").write("".join(c.text() for c in todo))
        try:
            r = subprocess.run([GSMON, "--prop", "C22", "--scratch", os.path.join(WORK, "o"), "--child", "pyoracle", "--cases", path],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=8)
            out, dead = r.stdout, r.returncode != 0
        except subprocess.TimeoutExpired as e:
            out, dead = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or ""), True
        blocks = out.split("\nend\n") if out else []
        whole = blocks[:-1]
        for c, b in zip(todo, whole):
            c.ans = parse(b)
        todo = todo[len(whole):]
        if todo and dead:
            n("oracle_gave_up")
            todo = todo[1:]  # the case that did not end
        elif todo:
            raise SystemExit("oracle answered %d of %d" % (len(whole), len(whole) + len(todo)))
    return [c for c in cases if c.ans and c.ans["out"][0] in ("ok", "err")]


def parse(b):
    a = dict(out=None, sols=[], snaps=[], obs=None, fin=None, log={})
    for l in b.split("\n"):
        k, _, rest = l.partition(" ")
        if k == "sol":
            a["sols"].append(rest)
        elif k == "snap":
            a["snaps"].append(rest)
        elif k == "obs":
            a["obs"] = rest
        elif k == "fin":
            a["fin"] = rest
        elif k == "log":
            i, _, v = rest.partition(" ")
            a["log"][int(i)] = v.split()
        elif k in ("ok", "err", "panic", "cap"):
            a["out"] = (k, rest)
    return a


def s1(o):
    if o is None:
        return "none"
    bp = o.best_point
    return f"{o.reference_set_size} {hx(o.best_objective)} {o.current_substage.replace(' ', '_')} {o.function_evaluations} {o.trial_points_generated} [{'none' if bp is None else hxs(bp)}]"


def s2(o):
    if o is None:
        return "none"
    f = lambda p: "none" if p is None else hxs(p)  # noqa: E731
    return (f"{hx(o.best_objective)} {o.solution_set_size} {o.current_iteration} {hx(o.threshold_value)} {o.local_solver_calls} "
            f"{o.improved_local_calls} {o.function_evaluations} {o.unchanged_cycles} [{f(o.best_point)}] [{f(o.last_added_point)}]")


class Run:
    """The Python side of a case: its functions, its logs."""

    def __init__(self, case, inner=None, where=None):
        self.c = case
        self.log = {0: [], 1: [], 2: [], 3: []}
        self.inner, self.where, self.calls = inner, where, 0
        self.shape = case.r.randrange(4)
        self.delay = 0.0
        self.boom_con = None
        self.boom_exc = ValueError

    def maybe_inner(self, where):
        if self.inner and self.where == where:
            self.calls += 1
            if self.calls in (1, 3, 12, 40):
                for c in self.inner:
                    n("nested_calls")
                    compare(c, execute(c), f"nested in {where} of {self.c.brief()}")

    def obj(self, x):
        if self.delay:
            time.sleep(self.delay)
        self.log[0].extend(x)
        self.maybe_inner("objective")
        f = self.c.fail.get("obj")
        if f is not None and x[0] > f:
            raise ValueError("boom obj")
        v = value(self.c.kind, self.c.shift, x)
        return np.float64(v) if self.shape == 1 else v

    def grad(self, x):
        self.log[1].extend(x)
        self.maybe_inner("gradient")
        f = self.c.fail.get("grad")
        if f is not None and x[0] > f:
            raise ValueError("boom grad")
        g = grad(self.c.kind, self.c.shift, x)
        return np.array(g) if self.shape == 1 else (tuple(g) if self.shape == 2 else g)

    def hess(self, x):
        self.log[2].extend(x)
        f = self.c.fail.get("hess")
        if f is not None and x[0] > f:
            raise ValueError("boom hess")
        h = hess(self.c.kind, self.c.shift, x)
        return np.array(h) if self.shape == 1 else h

    def bounds(self):
        b = self.c.bounds
        if self.shape == 1:
            return np.array(b)
        if self.shape == 2:
            return tuple(tuple(q) for q in b)
        return [[int(v) if v == int(v) else v for v in q] for q in b] if self.shape == 3 else b

    def con(self, i):
        f = CONS[i]

        def g(x):
            self.log[3].append(float(i))
            self.log[3].extend(x)
            self.maybe_inner("constraint")
            if self.boom_con is not None and len(self.log[3]) > self.boom_con:
                raise self.boom_exc("boom con")
            v = f(x)
            return np.float64(v) if self.shape == 1 else v

        return g

    def constraints(self):
        if not self.c.cons:
            return None if self.shape != 2 else []
        v = [self.con(i) for i in self.c.cons]
        if len(v) == 1 and self.shape == 3:
            return v[0]
        return tuple(v) if self.shape == 2 else v

    def problem(self, old=None):
        c = self.c
        g, h = None if c.nograd else self.grad, None if c.nohess else self.hess
        if old is None:
            return gs.PyProblem(self.obj, self.bounds, gradient=g, hessian=h, constraints=self.constraints())
        old.objective, old.variable_bounds, old.gradient, old.hessian, old.constraints = self.obj, self.bounds, g, h, self.constraints()
        return old


def observer(case, snaps, run=None):
    if case.obs is None:
        return None
    o = gs.observers.Observer()
    M = gs.observers.ObserverMode
    for k in case.obs:
        if k == "s1":
            o.with_stage1_tracking()
        elif k == "s2":
            o.with_stage2_tracking()
        elif k == "time":
            o.with_timing()
        elif k == "unique":
            o.unique_updates()
        elif k[0] == "f":
            o.with_callback_frequency(int(k[1]))
        elif k == "m1":
            o.with_mode(M.Stage1Only)
        elif k == "m2":
            o.with_mode(M.Stage2Only)
        elif k == "mb":
            o.with_mode(M.Both)
        elif k == "cb":
            bad = case.r.random() < 0.2

            def cb(a, b):
                snaps.append(f"{s1(a)} | {s2(b)}")
                if run:
                    run.maybe_inner("callback")
                if bad:
                    raise RuntimeError("ignored")

            o.with_callback(cb)
    return o


def execute(case, run=None, problem=None):
    """Run a case in Python. Returns what compare() needs."""
    beat()
    run = run or Run(case)
    snaps = []
    obs = observer(case, snaps, run)
    r = case.r
    if r.random() < 0.3:
        q = gs.PyOQNLPParams()
        (q.iterations, q.population_size, q.wait_cycle) = case.p
        (q.threshold_factor, q.distance_factor, q.abs_tol, q.rel_tol) = case.pf
    else:
        q = gs.PyOQNLPParams(case.p[0], case.p[1], case.p[2], *case.pf)
    for name, want in zip(("iterations", "population_size", "wait_cycle", "threshold_factor", "distance_factor", "abs_tol", "rel_tol"), case.p + case.pf):
        if getattr(q, name) != want:
            fail("params", f"{name} is {getattr(q, name)}, given {want}")
    kw = {}
    if obs is not None:
        kw["observer"] = obs
    if case.seed != 0 or r.random() < 0.5:
        kw["seed"] = case.seed
    if case.target is not None:
        kw["target_objective"] = case.target
    if case.maxtime is not None:
        kw["max_time"] = case.maxtime
    if case.exclude or r.random() < 0.3:
        kw["exclude_out_of_bounds"] = case.exclude
    if case.parallel or r.random() < 0.5:
        kw["parallel"] = case.parallel
    if r.random() < 0.1:
        kw["verbose"] = r.random() < 0.5
    if case.points is not None:
        kw["with_points"] = case.points if r.random() < 0.6 else np.array(case.points)
    if case.solver != "COBYLA" or r.random() < 0.5:
        kw["local_solver"] = r.choice(NAMES[case.solver])
    cfg = case.make_cfg()
    if cfg is not None:
        kw["local_solver_config"] = cfg
    try:
        res = gs.optimize(problem or run.problem(), q, **kw)
        return ("ok", res, run, snaps, obs)
    except BaseException as e:  # noqa: B036
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        return ("err", e, run, snaps, obs)


def groups_of(v, k):
    return sorted(tuple(v[i:i + k]) for i in range(0, len(v), k))


def compare(case, got, what=""):
    out, res, run, snaps, obs = got
    a = case.ans
    what = f"{what} [{case.brief()}]"
    n("runs_compared")
    classes.add(repr(case.cls()))
    if out == "err":
        n("runs_with_errors")
        if a["out"][0] != "err":
            return fail("error", f"raised {type(res).__name__}: {res}; the library gives {a['out']} {what}")
        if not isinstance(res, ValueError) or str(res).replace("\n", "\\n") != a["out"][1]:
            return fail("error-differs", f"{type(res).__name__}: {res} instead of {a['out'][1]} {what}")
    else:
        if a["out"][0] != "ok":
            return fail("no-error", f"{len(res)} solutions; the library gives {a['out']} {what}")
        sols = [f"{hx(s.objective)} {hxs(s.point)}" for s in res.solutions]
        n("solutions", len(sols))
        if sols != a["sols"]:
            return fail("solutions", f"{[(s.objective, s.point) for s in res.solutions][:4]} instead of {a['sols'][:4]} {what}")
        api(res, what)
        if obs is not None:
            n("observers")
            o = f"{s1(obs.stage1())} | {s2(obs.stage2())}"
            if o != a["obs"]:
                fail("observer", f"{o} instead of {a['obs']} {what}")
            f = obs.stage1_final()
            fin = "none" if f is None else f"{f.reference_set_size} {f.function_evaluations} {f.trial_points_generated}"
            if fin != a["fin"]:
                fail("observer-final", f"{fin} instead of {a['fin']} {what}")
    if snaps != a["snaps"]:
        k = next((i for i, (x, y) in enumerate(zip(snaps, a["snaps"])) if x != y), min(len(snaps), len(a["snaps"])))
        fail("callbacks", f"{len(snaps)} callbacks, {len(a['snaps'])} in the library, first difference at {k}: {snaps[k:k + 1]} instead of {a['snaps'][k:k + 1]} {what}")
    n("callbacks", len(snaps))
    err_in_parallel = out == "err" and case.parallel
    for i, name in enumerate(("objective", "gradient", "hessian", "constraint")):
        mine, want = [hx(float(v)) for v in run.log[i]], a["log"][i]
        k = case.dim + (i == 3)
        if err_in_parallel:
            continue  # how much of a batch ran before the error is not determined
        if i == 3:
            # how often a constraint is evaluated at a point is left to the binding: all points the library
            # looks at have to be looked at, and no others
            m, w = groups_of(mine, k), groups_of(want, k)
            same = set(w) <= set(m) and {g[1:] for g in w} == {g[1:] for g in m}
        elif case.parallel:
            same = groups_of(mine, k) == groups_of(want, k)
        else:
            same = mine == want
        n(name + "_calls", len(mine) // k)
        if not same:
            fail(name + "-calls", f"{len(mine) // k} {name} evaluations, {len(want) // k} in the library, or other points {what}")
    if len(samples) < 3:
        samples.append(f"{case.brief()} -> {out} {len(res) if out == 'ok' else res}, {len(run.log[0]) // case.dim} evaluations, {len(snaps)} callbacks")


def api(res, what):
    m = len(res)
    ok = m == len(res.solutions) and res.is_empty() == (m == 0)
    it = list(res)
    ok = ok and [s.point for s in it] == [res[i].point for i in range(m)] == [s.point for s in res.solutions]
    ok = ok and [s.objective for s in it] == [res[i].objective for i in range(m)]
    ok = ok and all(s.x() == s.point and s.fun() == s.objective for s in it)
    b = res.best_solution()
    ok = ok and (b is None if m == 0 else b.objective == min(s.objective for s in it) and any(b.point == s.point for s in it))
    try:
        res[m]
        ok = False
    except IndexError:
        pass
    if not ok:
        fail("result-api", f"{res!r} {what}")


# ---------------------------------------------------------------------------------------- the workload
def group_single(r):
    for c in ask([Case(r) for _ in range(6)]):
        compare(c, execute(c), "single")


def group_reuse(r):
    """One problem object over several runs, its attributes reassigned in between."""
    cs = ask([Case(r, cheap=True) for _ in range(3)])
    if not cs:
        return
    problem, runs = None, []
    for c in cs + [cs[0]]:
        run = Run(c)
        problem = run.problem(problem)
        runs.append(run)
        compare(c, execute(c, run, problem), "reused problem")
        n("reused_problems")
        run2 = Run(c)
        run2.log = run.log
        for k in run.log:
            run.log[k].clear()
        compare(c, execute(c, run, problem), "same problem again")


def in_threads(jobs):
    """Run the jobs at the same time; each is a function, returns after all."""
    gate = threading.Barrier(len(jobs))

    def go(j):
        gate.wait()
        j()

    t = [threading.Thread(target=go, args=(j,)) for j in jobs]
    for x in t:
        x.start()
    for x in t:
        x.join()


def group_threads(r):
    k = r.choice([2, 3, 4, 6])
    style = r.randrange(3)
    cs = ask([Case(r, cheap=True, parallel=[None, True, i % 2 == 0][style], cons=True if r.random() < 0.7 else None) for i in range(k)])
    if len(cs) < 2:
        return
    res = {}
    delay = r.choice([0.0, 0.0, 0.0002])

    def job(i, c):
        def f():
            for rep in range(2):
                run = Run(c)
                run.delay = delay
                res[(i, rep)] = execute(c, run)
        return f

    old = sys.getswitchinterval()
    sys.setswitchinterval(r.choice([old, 1e-5, 1e-4]))
    in_threads([job(i, c) for i, c in enumerate(cs)])
    sys.setswitchinterval(old)
    for (i, rep), got in res.items():
        n("concurrent_runs")
        compare(cs[i], got, f"one of {len(cs)} concurrent runs")


def poisoned(r):
    """A case whose constraint raises; only its error is looked at."""
    c = Case(r, cheap=True, cons=True, solver="COBYLA", plain=True)
    run = Run(c)
    run.boom_con = r.choice([0, 0, 30, 200])
    run.boom_exc = r.choice([ValueError, RuntimeError, ZeroDivisionError])
    return c, run


def group_poison(r):
    cs = ask([Case(r, cheap=True, cons=True) for _ in range(2)])
    bad = [poisoned(r) for _ in range(2)]
    conc = r.random() < 0.5
    got = {}

    def bad_job(c, run):
        def f():
            out = execute(c, run)
            n("poisoned_runs")
            if len(run.log[3]) > run.boom_con and out[0] != "err":
                # a raising constraint may not be taken for a satisfied one
                fail("constraint-error-hidden", f"{len(run.log[3])} values, raised from {run.boom_con} on; {c.brief()}")
        return f

    def good_job(i, c):
        def f():
            got[i] = execute(c)
        return f

    if conc and cs:
        in_threads([bad_job(*b) for b in bad] + [good_job(i, c) for i, c in enumerate(cs)])
    else:
        for b in bad:
            bad_job(*b)()
        for i, c in enumerate(cs):
            good_job(i, c)()
    for i, g in got.items():
        compare(cs[i], g, "beside a failing call")


def group_nested(r):
    po = r.random() < 0.5
    outer = ask([Case(r, cheap=True, parallel=po)])
    inner = ask([Case(r, cheap=True, parallel=r.random() < 0.5, cons=r.random() < 0.7) for _ in range(r.choice([1, 2]))])
    if not outer or not inner:
        return
    where = r.choice(["objective", "objective", "gradient", "constraint", "callback"])
    c = outer[0]
    run = Run(c, inner=inner, where=where)
    n("nested_outer")
    compare(c, execute(c, run), f"outer of calls nested in its {where}")


def group_misuse(r):
    """Wrong arguments are errors, and leave later calls alone."""
    c = Case(r, cheap=True, plain=True)
    run = Run(c)
    q = gs.PyOQNLPParams(c.p[0], c.p[1], c.p[2], *c.pf)
    B = gs.builders
    wrong = {"COBYLA": B.NelderMead(), "NelderMead": B.COBYLA(), "LBFGS": B.SteepestDescent(), "TrustRegion": B.NewtonCG(), "SteepestDescent": B.LBFGS(),
             "NewtonCG": 5}
    bad = [
        dict(local_solver="nosuch"),
        dict(local_solver=c.solver, local_solver_config=wrong[c.solver]),
        dict(with_points=[[99.0] * c.dim]),
        dict(with_points=[[0.0] * (c.dim + 1)]),
        dict(with_points=[[0.0] * c.dim, [0.0] * (c.dim + 1)]),
    ]
    for kw in bad:
        try:
            gs.optimize(run.problem(), q, **kw)
            fail("misuse-accepted", f"{kw} {c.brief()}")
        except ValueError:
            n("misuse_rejected")
        except BaseException as e:  # noqa: B036
            fail("misuse-error", f"{kw}: {type(e).__name__} {e}")
    for p in (gs.PyOQNLPParams(iterations=3, population_size=3), gs.PyOQNLPParams(iterations=9, population_size=8),
              gs.PyOQNLPParams(iterations=3, population_size=8, threshold_factor=-1.0), gs.PyOQNLPParams(iterations=3, population_size=8, distance_factor=-1.0)):
        try:
            gs.optimize(run.problem(), p)
            fail("misuse-accepted", f"{p.iterations} {p.population_size} {p.threshold_factor} {p.distance_factor}")
        except ValueError:
            n("misuse_rejected")
        except BaseException as e:  # noqa: B036
            fail("misuse-error", f"{type(e).__name__} {e}")
    for c in ask([Case(r, cheap=True)]):
        compare(c, execute(c), "after misuse")


GROUPS = [group_single, group_single, group_reuse, group_threads, group_threads, group_poison, group_nested, group_misuse]


def main():
    end = time.time() + float(BUDGET)
    i = 0
    while time.time() < end and len(viols) < 5:
        g = GROUPS[i % len(GROUPS)]
        now[0] = i
        open(PROG, "w").write(f"{i} {g.__name__}")
        g(random.Random(f"{SEED}/{i}"))
        n("groups")
        i += 1
    json.dump(dict(viols=viols, counters=counters, classes=sorted(classes), samples=samples), open(OUT, "w"))


main()
os._exit(0)
