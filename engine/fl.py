"""C29: accuracy of the floating-point execution, decided by z3.

The recorded symbolic execution of the real code is given a second reading in which every addition,
multiplication, division and root is off by an unknown relative rounding of at most u (the standard
model; u = 2^-24 is the largest in use, so smaller ones are covered).  Each computed value is kept as
  exact polynomial  +  error,   |error| <= u * sum over monomials m of E_m |m|,
with E exact up to upward rounding.  Divisors and roots of sums are units of their own, admitted
where z3 shows their relative error bounded (sums without cancellation).  The obligation
  sum E_m |m|  <=  k sum |terms of the textbook formula|
is decided by z3 over all values of the |m| (nonnegative unknowns, related by the units' defining
sums), and the exact polynomial must be that of the terms."""
import glob, json, os, random, shutil, tempfile, time
from fractions import Fraction
from concurrent.futures import ThreadPoolExecutor
from multiprocessing import Pool
import z3
import common

U = 2.0 ** -24
UP = 1 + 1e-9


class Cannot(Exception):
    pass


def mono_mul(a, b):
    d = dict(a)
    for v, e in b:
        e2 = d.get(v, 0) + e
        if e2 == 0:
            d.pop(v, None)
        else:
            d[v] = e2
    return tuple(sorted(d.items()))


class Value:
    """coefficients c[m] (exact) and error weights e[m] (upper bounds, in units of u)"""
    __slots__ = ("c", "e")

    def __init__(self, c, e):
        self.c, self.e = c, e


def limit(d):
    if len(d) > 20000:
        raise Cannot("polynomial too large")


class Reading:
    def __init__(self, data):
        self.nodes = data["nodes"]
        self.stats = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, obligations=0, proved=0, paths=0, infeasible=0)
        self.units = {}      # key -> (name, {mono: coef})
        self.unit_poly = {}  # name -> {mono: coef}

    def ask(self, cons):
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*cons)
        t = time.time()
        r = s.check()
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        self.stats[str(r)] += 1
        return r

    def start(self, path):
        self.memo = {}
        self.alias, self.zero, self.sign = {}, set(), {}
        for e in path["events"]:
            if e[0] == "L":
                self.alias[e[2]] = self.nodes[e[1]][1]
            elif e[0] == "A" and e[1] in ("lt", "le") and e[2] == 0 and self.nodes[e[3]][0] == "v":
                self.sign[self.nodes[e[3]][1]] = 1
            elif e[0] == "C" and e[1] == "eq" and e[4]:
                for a, b in ((e[2], e[3]), (e[3], e[2])):
                    if a == 0 and self.nodes[b][0] == "v":
                        self.zero.add(self.nodes[b][1])

    # ---- sums without cancellation ----
    def positive(self, m):
        """|m| = m"""
        return all(v.startswith("%") or self.sign.get(v) or (e.denominator == 1 and e % 2 == 0) for v, e in m)

    def definite(self, c):
        """the common sign of all monomials, or 0"""
        if not c or not all(self.positive(m) for m in c):
            return 0
        s = {x > 0 for x in c.values()}
        return 0 if len(s) > 1 else (1 if True in s else -1)

    def relative(self, v):
        """bound of the relative error of v, in units of u"""
        if len(v.c) == 1 and set(v.e) <= set(v.c):
            (m, c), = v.c.items()
            return v.e.get(m, 0.0) / abs(float(c)) * UP
        if not self.definite(v.c):
            raise Cannot("a divisor or root whose terms may cancel")
        r = max([v.e.get(m, 0.0) / abs(float(c)) for m, c in v.c.items()]) * UP
        ys = {}
        lhs = [self.y(m, ys) * z3.RealVal(repr(x)) for m, x in v.e.items()]
        rhs = [self.y(m, ys) * z3.RealVal(str(abs(c))) for m, c in v.c.items()]
        got = self.ask([y >= 0 for y in ys.values()] + [z3.Sum(lhs or [z3.RealVal(0)]) > z3.RealVal(repr(r)) * z3.Sum(rhs)])
        if got != z3.unsat:
            raise Cannot("a divisor's or root's error is not bounded by its own terms")
        return r

    def y(self, m, ys):
        if m not in ys:
            ys[m] = z3.Real("y%d" % len(ys)) if m else z3.RealVal(1)
        return ys[m]

    def power(self, c, ex):
        """(poly c)^ex as monomials with exact coefficients"""
        if len(c) == 1:
            (m, k), = c.items()
            if ex.denominator != 1:
                n, d = abs(k.numerator), k.denominator
                import math
                if k < 0 or math.isqrt(n) ** 2 != n or math.isqrt(d) ** 2 != d or ex != Fraction(1, 2):
                    raise Cannot("root of a constant")
                k2 = Fraction(math.isqrt(n), math.isqrt(d))
                if not all(v.startswith("%") or self.sign.get(v) for v, e in m):
                    # sqrt(x) with x > 0 on this path: the root's existence says so
                    for v, e in m:
                        if len(m) == 1 and e == 1:
                            self.sign[v] = 1
                        elif not (v.startswith("%") or self.sign.get(v)):
                            raise Cannot("root of a monomial of unknown sign")
            else:
                k2 = k ** int(ex)
            return {tuple((v, e * ex) for v, e in m): k2}
        lead = max(c)
        k = c[lead]
        key = json.dumps(sorted((str(m), str(x / k)) for m, x in c.items()))
        if ex.denominator != 1 and k != 1:
            key, k = json.dumps(sorted((str(m), str(x)) for m, x in c.items())), Fraction(1)
        if key not in self.units:
            name = "%%%d" % len(self.units)
            self.units[key] = name
            self.unit_poly[name] = {m: x / k for m, x in c.items()}
            if self.definite(self.unit_poly[name]) < 0:
                raise Cannot("negative unit")
        return {((self.units[key], ex),): (k ** int(ex)) if ex.denominator == 1 else Fraction(1)}

    def expand(self, v):
        """units with exponent >= 1 back into their sums"""
        for _ in range(8):
            todo = [m for m in set(v.c) | set(v.e) for a, e in m if a.startswith("%") and e >= 1]
            if not todo:
                return v
            c, er = {}, {}
            for src, out, absolute in ((v.c, c, False), (v.e, er, True)):
                for m, x in src.items():
                    hit = next(((a, e) for a, e in m if a.startswith("%") and e >= 1), None)
                    if not hit:
                        out[m] = out.get(m, 0) + x
                        continue
                    rest = mono_mul(m, ((hit[0], Fraction(-1)),))
                    for pm, pc in self.unit_poly[hit[0]].items():
                        mm = mono_mul(rest, pm)
                        out[mm] = out.get(mm, 0) + (float(abs(pc)) * x * UP if absolute else pc * x)
            v = Value({m: x for m, x in c.items() if x}, {m: x for m, x in er.items() if x})
            limit(v.c), limit(v.e)
        return v

    # ---- operations ----
    def rounding(self, v):
        e = dict(v.e)
        for m in set(v.c) | set(v.e):
            e[m] = (e.get(m, 0.0) * (1 + U) + abs(float(v.c.get(m, 0)))) * UP
        return Value(v.c, e)

    def add(self, a, b, s):
        c, e = dict(a.c), dict(a.e)
        for m, x in b.c.items():
            y = c.get(m, 0) + s * x
            if y:
                c[m] = y
            else:
                c.pop(m, None)
        for m, x in b.e.items():
            e[m] = (e.get(m, 0.0) + x) * UP
        limit(c), limit(e)
        return Value(c, e)

    def mul(self, a, b):
        if (len(a.c) + len(a.e)) * (len(b.c) + len(b.e)) > 400000:
            raise Cannot("polynomial too large")
        c, e = {}, {}
        for m, x in a.c.items():
            for n, y in b.c.items():
                k = mono_mul(m, n)
                z = c.get(k, 0) + x * y
                if z:
                    c[k] = z
                else:
                    c.pop(k, None)
        A, B = [(m, abs(float(x))) for m, x in a.c.items()], [(m, abs(float(x))) for m, x in b.c.items()]
        for P, Q, f in ((A, list(b.e.items()), 1), (list(a.e.items()), B, 1), (list(a.e.items()), list(b.e.items()), U)):
            for m, x in P:
                for n, y in Q:
                    k = mono_mul(m, n)
                    e[k] = (e.get(k, 0.0) + x * y * f) * UP
        return self.expand(Value(c, e))

    @staticmethod
    def const(v):
        if v.e or len(v.c) > 1:
            return None
        if not v.c:
            return Fraction(0)
        (m, x), = v.c.items()
        return x if not m else None

    @staticmethod
    def power_of_two(x):
        n, d = abs(x.numerator), x.denominator
        return n and n & (n - 1) == 0 and d & (d - 1) == 0

    def inverse(self, v):
        if not v.c:
            raise Cannot("division by zero")
        r = self.relative(v)
        if r * U > 0.01:
            raise Cannot("relative error too large")
        c = self.power(v.c, Fraction(-1))
        r = r / (1 - r * U) * UP
        return Value(c, {m: abs(float(x)) * r for m, x in c.items()} if r else {})

    def op(self, n):
        k = n[0]
        if k == "c":
            x = Fraction(int(n[1]), int(n[2]))
            return Value({(): x} if x else {}, {})
        if k == "v":
            return Value({} if n[1] in self.zero else {((n[1], Fraction(1)),): Fraction(1)}, {})
        a = [self.memo[x] for x in n[1:]]
        if k == "n":
            return Value({m: -x for m, x in a[0].c.items()}, a[0].e)
        if k in "+-":
            if k == "-" and n[1] == n[2]:
                return Value({}, {})
            if self.const(a[1]) == 0:
                return a[0]
            if self.const(a[0]) == 0:
                return a[1] if k == "+" else Value({m: -x for m, x in a[1].c.items()}, a[1].e)
            return self.rounding(self.add(a[0], a[1], 1 if k == "+" else -1))
        if k == "*":
            k0, k1 = self.const(a[0]), self.const(a[1])
            if k0 == 0 or k1 == 0:
                return Value({}, {})
            v = self.mul(a[0], a[1])
            return v if (k0 and self.power_of_two(k0)) or (k1 and self.power_of_two(k1)) else self.rounding(v)
        if k == "/":
            k1 = self.const(a[1])
            if self.const(a[0]) == 0:
                return Value({}, {})
            v = self.mul(a[0], self.inverse(a[1]))
            return v if k1 and self.power_of_two(k1) else self.rounding(v)
        if k == "s":
            if not a[0].c and not a[0].e:
                return Value({}, {})
            r = self.relative(a[0])
            if r * U > 0.01:
                raise Cannot("relative error too large")
            c = self.power(a[0].c, Fraction(1, 2))
            r = 0.5 * r * (1 + r * U) * UP
            return self.rounding(Value(c, {m: abs(float(x)) * r for m, x in c.items()} if r else {}))
        raise Cannot(k)

    def need(self, root):
        """post-order evaluation of everything below root"""
        st = [root]
        while st:
            i = st[-1]
            if i in self.memo:
                st.pop()
                continue
            if i in self.alias:
                self.memo[i] = self.computed(i)
                continue
            n = self.nodes[i]
            todo = [] if n[0] in "cv" else [x for x in n[1:] if x not in self.memo]
            if todo:
                st += todo
                continue
            self.memo[i] = self.op(n)
        return self.memo[root]

    def computed(self, i):
        return Value({((self.alias[i], Fraction(1)),): Fraction(1)}, {})

    # ---- obligations ----
    def exactly(self, c):
        """does the polynomial with units vanish identically?"""
        c = {m: x for m, x in c.items() if x}
        for _ in range(60):
            if not c:
                return True
            names = {a for m in c for a, e in m if a.startswith("%")}
            if not names:
                return False
            a = max(names, key=lambda s: int(s[1:]))
            low = min(dict(m).get(a, Fraction(0)) for m in c)
            out = {}
            for m, x in c.items():
                ex = dict(m).get(a, Fraction(0)) - low
                if ex.denominator != 1:
                    raise Cannot("odd roots of a sum")
                rest = tuple((v, e) for v, e in m if v != a)
                part = {rest: x}
                for _ in range(int(ex)):
                    nxt = {}
                    for m1, x1 in part.items():
                        for m2, x2 in self.unit_poly[a].items():
                            k = mono_mul(m1, m2)
                            nxt[k] = nxt.get(k, 0) + x1 * x2
                    limit(nxt)
                    part = nxt
                for k, y in part.items():
                    out[k] = out.get(k, 0) + y
            c = {m: x for m, x in out.items() if x}
        raise Cannot("expansion")

    def bounded(self, err, terms, k):
        """sum err_m |m| <= k sum |terms|, by z3"""
        ys = {}
        cons = []
        lhs = [self.y(m, ys) * z3.RealVal(repr(x)) for m, x in err.items() if x]
        rhs = []
        for t in terms:
            if len(t) > 1:
                raise Cannot("a term of the formula is a sum")
            rhs += [self.y(m, ys) * z3.RealVal(str(abs(x))) for m, x in t.items()]
        # unit = its sum of nonnegative terms, times any monomial
        for m in list(ys):
            for a, e in m:
                if a.startswith("%") and e < 0 and self.definite(self.unit_poly[a]):
                    up = mono_mul(m, ((a, Fraction(1)),))
                    cons.append(self.y(up, ys) == z3.Sum([self.y(mono_mul(m, p), ys) * z3.RealVal(str(abs(x))) for p, x in self.unit_poly[a].items()]))
        cons += [y >= 0 for y in ys.values()]
        return self.ask(cons + [z3.Sum(lhs or [z3.RealVal(0)]) > k * z3.Sum(rhs or [z3.RealVal(0)])])


def one_path(rd, p, res):
    rd.start(p)
    if p["panic"] is not None:
        res["undecided"].append("panic: " + p["panic"])
        return
    # a comparison with zero of a sum that cannot cancel is settled
    for e in p["events"]:
        if e[0] == "C" and 0 in (e[2], e[3]) and e[2] != e[3]:
            other = e[3] if e[2] == 0 else e[2]
            try:
                v = rd.need(other)
                s = rd.definite(v.c)
                if not s or rd.relative(v) * U > 0.01:
                    continue
                # nonzero unless all its parts are; with a part that is never zero
                if not any(all(strict(p, rd, a) for a, _ in m) for m in v.c):
                    continue
            except Cannot:
                continue
            x, y = (0, s) if e[2] == 0 else (s, 0)
            holds = {"lt": x < y, "le": x <= y, "eq": x == y}[e[1]]
            if holds != e[4]:
                rd.stats["infeasible"] += 1
                return
    for e in p["events"]:
        if e[0] == "F" and not e[1]:
            res["failures"].append(dict(what=e[2], solver="decided by the run"))
        if e[0] not in "TE":
            continue
        rd.stats["obligations"] += 1
        what, k, terms = e[-1], e[-2], e[-3]
        try:
            ts = [rd.need(t) for t in terms]
            ts = [t.c for t in ts]
            if e[0] == "T":
                got = rd.need(e[1])
                c, err = dict(got.c), got.e
            else:
                c, err = residual(rd, e[1], e[2])
            want = {}
            for t in ts:
                for m, x in t.items():
                    want[m] = want.get(m, 0) + x
            for m, x in want.items():
                c[m] = c.get(m, 0) - x
            if not rd.exactly(c):
                res["failures"].append(dict(what=what + ": not the textbook formula", solver="normal form"))
                continue
            r = rd.bounded(err, ts, k)
        except Cannot as ex:
            res["unclear"].append(f"{what}: {ex}")
            continue
        if r == z3.unsat:
            rd.stats["proved"] += 1
        else:
            res["failures"].append(dict(what=what, solver=str(r)))


def strict(p, rd, name):
    """known to differ from zero"""
    if name.startswith("%"):
        return True
    for e in p["events"]:
        if e[0] == "A" and e[1] == "lt" and e[2] == 0 and rd.nodes[e[3]] == ["v", name]:
            return True
    return False


def residual(rd, got, pivot):
    """pivot * entry, or the pivot squared, minus what was divided or rooted: (exact, error)"""
    n = rd.nodes[got]
    rd.memo.pop(got, None)
    if n[0] not in "cv":
        for x in n[1:]:
            rd.need(x)
    vg = ((rd.alias[got], Fraction(1)),)
    vp = ((rd.alias[pivot], Fraction(1)),)
    if got == pivot:
        if n[0] != "s":
            raise Cannot("a pivot that is no root")
        inner = rd.memo[n[1]]
        err = dict(inner.e)
        sq = mono_mul(vg, vg)
        err[sq] = err.get(sq, 0.0) + 2.01
        c = {m: -x for m, x in inner.c.items()}
        c[sq] = c.get(sq, 0) + 1
        rd.memo[got] = rd.computed(got)
        return c, err
    v = rd.op(n)
    rd.memo[got] = rd.computed(got)
    v = rd.mul(v, Value({vp: Fraction(1)}, {}))
    c = {m: -x for m, x in v.c.items()}
    m = mono_mul(vg, vp)
    c[m] = c.get(m, 0) + 1
    return c, dict(v.e)


def solve_scenario(path):
    data = json.load(open(path))
    rd = Reading(data)
    res = dict(name=data["name"], core=data["core"], failures=[], undecided=[], unclear=[], stats=rd.stats, complete=data["complete"],
               vars=[n[1] for n in data["nodes"] if n[0] == "v" and not n[1].startswith("computed ")], nodes=len(data["nodes"]), ops=data["ops"])
    t0 = time.time()
    for p in data["paths"]:
        rd.stats["paths"] += 1
        try:
            one_path(rd, p, res)
        except Cannot as ex:
            res["unclear"].append(str(ex))
        if len(res["failures"]) > 6:
            break
        if time.time() - t0 > 400:
            res["undecided"].append("time limit")
            break
    res["wall"] = round(time.time() - t0, 2)
    return res


# ---- concretisation ----
def candidates(names, seed, n):
    rnd = random.Random(seed)
    out = []
    for i in range(n):
        style = i % 4
        c = {}
        wide = rnd.choice([1, 4, 10, 16])
        for v in names:
            k = v[v.find("[") + 1:v.find("]")].split(",") if "[" in v else []
            x = 2.0 ** rnd.uniform(-wide, wide) * rnd.choice([1, -1])
            if style == 1 and rnd.random() < 0.4:
                x = rnd.choice([0.0, 1.0, -1.0])
            if style == 2:
                x = rnd.uniform(-1, 1)
            if style == 3 and len(k) == 2 and k[0] != k[1]:
                x *= 2.0 ** -wide
            if len(k) == 2 and k[0] == k[1] and rnd.random() < 0.8:
                x = abs(x) * rnd.choice([1, 4, 16])
            if v[:1] in "RL" or v == "lambda":
                x = abs(x) or 1.0
            c[v] = x
        out.append(c)
    return out


def check(rep, tier):
    from symex_check import build, dump_all, replay, functions_encoded
    from fx import search
    thorough = tier == "thorough"
    cfgs = ["std-dev", "libm-release"] + (["noassert-unsafe-dev", "asserting-release"] if thorough else [])
    t = time.time()
    bins = {c: build(c, "c29" + ("-thorough" if thorough else "")) for c in cfgs}
    build_s = time.time() - t
    work = tempfile.mkdtemp(prefix="dump-", dir=common.OUT)
    try:
        files, cf = {}, {}
        dump_all(bins, cfgs, work, 300, 64, 3000 if thorough else 300)
        for c in cfgs:
            d = os.path.join(work, c)
            for f in sorted(glob.glob(os.path.join(d, "*.json"))):
                b = open(f, "rb").read()
                files.setdefault(b, f)
                cf.setdefault(b, []).append(c)
        with Pool(8) as pool:
            results = pool.map(solve_scenario, files.values(), chunksize=1)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    def native(rc):
        r, cl = rc
        bad = r["failures"] or r["unclear"] or r["undecided"]
        if bad and first and time.time() - first[0] > 10:
            return None, (None, None)       # violations were reproduced already
        cands = candidates(r["vars"], common.SEED, 12000 if bad else 1500)
        got = search(bins[cl[0]], r["name"], cands)
        if bad and got[0] is not None:
            first.append(time.time())
        return cands, got
    first = []
    with ThreadPoolExecutor(8) as ex:
        runs = list(ex.map(native, zip(results, cf.values())))
    tot, decided, nd, validated, vac = {}, [], [], 0, []
    for r, cl, (cands, (k, used)) in zip(results, cf.values(), runs):
        for s, v in r["stats"].items():
            tot[s] = tot.get(s, 0) + v
        label = f"{r['name']} [{','.join(cl)}]"
        open_ends = [f"{f['what']}: {f['solver']}" for f in r["failures"]] + r["unclear"] + r["undecided"] + ([] if r["complete"] else ["not all paths"])
        if open_ends and k is not None:
            rc, out = replay(bins[cl[0]], r["name"], cands[k])
            rep.violation(f"{r['name']}: {open_ends[0]}", dict(scenario=r["name"], config=cl[0], obligation=open_ends[0], values=cands[k],
                          native=out.strip().splitlines()[:10]), key=r["name"])
            continue
        if open_ends and cands is None:
            continue
        if open_ends:
            nd.append((label, open_ends[:3]))
            if r["core"]:
                rep.undecided.append(f"core instance {label} not decided: {open_ends[:2]}")
            continue
        decided.append(label)
        if k is not None:
            rep.undecided.append(f"{label}: proved, yet the native run fails on candidate {k}")
        else:
            validated += used
            if not used:
                vac.append(label)
    if not decided and not rep.violations:
        rep.errors.append("no scenario could be decided")
    rep.cov.update(dict(
        scenarios=decided, scenarios_decided=len(decided), not_decided=nd, scenarios_without_native_sample=vac,
        states=sum(r["nodes"] for r in results), transitions=sum(r["ops"] for r in results),
        symbolic_paths=tot.get("paths"), obligations=tot.get("obligations"), discharged=tot.get("proved"),
        traces_validated_against_impl=validated, queries=tot.get("queries"), unsat=tot.get("unsat"), sat=tot.get("sat"), unknown=tot.get("unknown"),
        solver_s=round(tot.get("solver_s", 0), 2), build_s=round(build_s, 1), configs=cfgs,
        slowest_scenarios_s=sorted(((r["wall"], r["name"]) for r in results), reverse=True)[:5],
        functions_encoded=functions_encoded(bins[cfgs[0]]), solver="z3 " + z3.get_version_string(),
    ))
    rep.assumptions += [
        "every addition, subtraction, multiplication, division and square root is off by a relative error of at most u <= 2^-24 (IEEE single precision or better); no overflow or underflow",
        "negation, zero operands and factors that are powers of two are exact",
        "innovation covariances are sums of nonnegative terms (nonnegative H and P entries, positive R)",
    ]
