"""C24: rounding-error and overflow analysis of the fixed-point execution, decided by z3.

The recorded symbolic execution of the real code is given a second reading in which every product,
quotient and square root carries an unknown rounding of less than one unit in the last place
(2^-16) and sums are exact, as in 16.16 fixed-point arithmetic.  Values are polynomials in the
inputs and the rounding unknowns (quotients and roots are unknowns with their defining
inequalities).  Obligations: no value reaches 2^15 in magnitude; computed - exact stays within the
stated tolerance; arguments of roots/quotients are in the domain."""
import json, math, os, random, subprocess, tempfile, time
from fractions import Fraction
from concurrent.futures import ThreadPoolExecutor
from multiprocessing import Pool
import z3
import common

U = Fraction(1, 65536)
TOP = 1 << 15


class TooBig(Exception):
    pass


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        c2 = r.get(m, 0) + s * c
        if c2 == 0:
            r.pop(m, None)
        else:
            r[m] = c2
    return r


def pmul(a, b):
    if len(a) * len(b) > 60000:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    return r


def const(c):
    return {(): Fraction(c)} if c else {}


def is_const(p):
    return not p or (len(p) == 1 and () in p)


class Fx:
    def __init__(self, data):
        self.d = data
        self.nodes = data["nodes"]
        self.stats = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, obligations=0, proved=0, paths=0, infeasible=0)

    # ---- the two readings ----
    def start_path(self, path):
        self.ex, self.ro = {}, {}
        self.defs = []          # nonlinear definitions: functions of the term builder
        self.errs = 0
        self.cuts = {}
        self.hard = 0
        self.abs_of = {}        # abs atom -> polynomial
        self.domain = []        # (what, kind, poly)
        self.ops = []           # (node, poly) of the rounded reading, for overflow
        self.alias = {}
        for e in path["events"]:
            if e[0] == "L":
                self.alias[e[1]] = e[2]
            elif e[0] == "B":
                self.abs_of["b:%d" % e[1]] = e[2]
        self.absvars = {int(k[2:]) for k in self.abs_of}

    def cut(self, i):
        """the rounded value of a node as an unknown of its own (no expansion into products)"""
        p = self.ro[i]
        if len(p) <= 1:
            return p
        if i not in self.cuts:
            self.cuts[i] = "d:%d" % i
            self.defs.append(("let", self.cuts[i], p, None, True))
        return {(self.cuts[i],): Fraction(1)}

    def exact(self, i):
        return self.walk(i, self.ex, False)

    def rounded(self, i):
        return self.walk(i, self.ro, True)

    def walk(self, root, memo, rnd):
        st = [root]
        while st:
            i = st[-1]
            if i in memo:
                st.pop()
                continue
            n = self.nodes[i]
            k = n[0]
            if i in self.alias:
                self.rounded(self.alias[i])
                memo[i] = self.cut(self.alias[i])
                continue
            if k == "c":
                memo[i] = const(Fraction(int(n[1]), int(n[2])))
                continue
            if k == "v":
                memo[i] = {("b:%d" % i if i in self.absvars else "x:" + n[1],): Fraction(1)}
                continue
            args = [a for a in n[1:]]
            todo = [a for a in args if a not in memo]
            if todo:
                st += todo
                continue
            a = [memo[x] for x in args]
            if k == "+":
                r = padd(a[0], a[1])
            elif k == "-":
                r = padd(a[0], a[1], -1)
            elif k == "n":
                r = padd({}, a[0], -1)
            elif k == "*":
                if rnd and any(x[0] in "hd" for q in a for m in q for x in m):
                    a = [self.cut(x) for x in args]
                r = pmul(a[0], a[1])
                whole = any(is_const(p) and all(c.denominator == 1 for c in p.values()) for p in a)
                if rnd and not whole:
                    self.errs += 1
                    r = padd(r, {("e:%d" % self.errs,): Fraction(1)})
            elif k == "/":
                self.hard += 1
                v = "h:%d" % self.hard
                self.defs.append(("div", v, a[0], a[1], rnd))
                if rnd:
                    self.domain.append(("division by zero", "nonzero", a[1]))
                r = {(v,): Fraction(1)}
            elif k == "s":
                self.hard += 1
                v = "h:%d" % self.hard
                self.defs.append(("sqrt", v, a[0], None, rnd))
                if rnd:
                    self.domain.append(("root of a negative number", "nonneg", a[0]))
                r = {(v,): Fraction(1)}
            memo[i] = r
            if rnd:
                self.ops.append((i, r))
        return memo[root]


class Terms:
    """polynomials -> z3; linear: every product is a fresh bounded variable"""

    def __init__(self, fx, linear, hybrid=False):
        self.fx, self.linear, self.hybrid = fx, linear, hybrid
        self.vars, self.mono, self.absm, self.side = {}, {}, {}, []

    def atom(self, a):
        if a not in self.vars:
            if a[0] == "b":
                p = self.fx.exact(self.fx.abs_of[a])
                t = self.poly(p)
                # |c x| of a single monomial in the linear reading
                self.vars[a] = z3.If(t >= 0, t, -t)
            else:
                v = z3.Real(a)
                self.vars[a] = v
                if a[0] == "x":
                    self.side += [v <= TOP, v >= -TOP]
                elif a[0] == "e":
                    self.side += [v <= z3.Q(1, 65536), v >= z3.Q(-1, 65536)]
        return self.vars[a]

    def canon(self, m):
        """monomial with |x| atoms replaced by x when the atom is the modulus of a plain input"""
        out = []
        for a in m:
            if a[0] == "b":
                p = self.fx.exact(self.fx.abs_of[a])
                if len(p) == 1:
                    (mm, c), = p.items()
                    if c in (1, -1):
                        out += list(mm)
                        continue
                return None
            out.append(a)
        return tuple(sorted(out))

    def absmono(self, m):
        """|product of the inputs m| (linear reading)"""
        if not m:
            return z3.RealVal(1)
        if m not in self.absm:
            t = self.monomial(m)
            self.absm[m] = z3.If(t >= 0, t, -t)
        return self.absm[m]

    def monomial(self, m):
        if not m:
            return z3.RealVal(1)
        if len(m) == 1:
            return self.atom(m[0])
        if not self.linear:
            if m not in self.mono:
                t = self.atom(m[0])
                for a in m[1:]:
                    t = t * self.atom(a)
                self.mono[m] = t
            return self.mono[m]
        if m not in self.mono:
            plain = self.canon(m) if all(a[0] == "b" for a in m) else None
            if plain is not None and not any(a[0] in "hd" for a in plain):
                self.mono[m] = self.absmono(plain)
            elif any(a[0] in "bhd" for a in m):
                if not self.hybrid:
                    raise TooBig()
                t = self.monomial(tuple(a for a in m if a[0] not in "bhd"))
                for a in m:
                    if a[0] in "bhd":
                        t = t * self.atom(a)
                self.mono[m] = t
            else:
                v = z3.Real("m:" + "*".join(m))
                self.mono[m] = v
                es = [a for a in m if a[0] == "e"]
                if es:
                    xs = tuple(a for a in m if a[0] != "e")
                    b = self.absmono(xs) * z3.Q(1, 65536 ** len(es))
                    self.side += [v <= b, v >= -b]
                elif len(m) == 2 and m[0] == m[1]:
                    self.side.append(v >= 0)
        return self.mono[m]

    def poly(self, p):
        t = [z3.RealVal(str(c)) * self.monomial(m) if m else z3.RealVal(str(c)) for m, c in p.items()]
        return z3.Sum(t) if t else z3.RealVal(0)


def solve_scenario(args):
    path, seed, budget, thorough = args
    data = json.load(open(path))
    fx = Fx(data)
    res = dict(name=data["name"], core=data["core"], failures=[], undecided=[], stats=fx.stats, complete=data["complete"],
               vars=[n[1] for n in data["nodes"] if n[0] == "v" and not n[1].startswith(("computed ", "|"))], nodes=len(data["nodes"]), ops=data["ops"], mode=None)
    t0 = time.time()
    for p in data["paths"]:
        fx.stats["paths"] += 1
        try:
            one_path(fx, p, res, t0, budget)
        except TooBig:
            res["undecided"].append("polynomial too large")
        if res["failures"] and len(res["failures"]) > 6:
            break
    res["wall"] = round(time.time() - t0, 2)
    return res


def ask(fx, cons, neg, timeout, nl):
    s = z3.SolverFor("QF_NRA") if nl else z3.Solver()
    s.set("timeout", int(timeout * 1000))
    s.add(*cons)
    s.add(neg)
    t = time.time()
    r = s.check()
    fx.stats["solver_s"] += time.time() - t
    fx.stats["queries"] += 1
    fx.stats[str(r)] += 1
    return r, s


def one_path(fx, p, res, t0, budget):
    fx.start_path(p)
    for e in p["events"]:           # rounded cones first, so that all definitions exist
        if e[0] in "WR":
            fx.rounded(e[1])
        elif e[0] == "C":
            fx.rounded(e[2]), fx.rounded(e[3])
        elif e[0] == "L":
            fx.rounded(e[2])
    for e in p["events"]:
        if e[0] == "G":
            fx.exact(e[2])
        elif e[0] == "W":
            fx.exact(e[2]), fx.exact(e[3])
        elif e[0] == "S":
            fx.exact(e[1]), fx.exact(e[2])
        elif e[0] == "B":
            fx.exact(e[2])
    nl = fx.hard > 0
    res["mode"] = "nonlinear" if nl else "linear"
    modes = []
    lem = lemmas(fx, p) if nl else {}
    if nl:
        try:
            modes.append(encode(fx, p, True, False, lem, coarse=True))
        except TooBig:
            pass
    for linear, hybrid in ([(True, False)] if not nl else []) + [(True, True), (False, False)]:
        try:
            modes.append(encode(fx, p, linear, hybrid, lem))
        except TooBig:
            pass
    if not modes:
        raise TooBig()
    todo0 = modes[0][2]
    fx.stats["obligations"] += len(todo0)
    if not todo0:
        return
    if not nl:
        T, cons, todo = modes[0]
        r, s = ask(fx, cons, z3.Or([n for _, n in todo]), 60, False)
        if r == z3.unsat:
            fx.stats["proved"] += len(todo)
            return
    known = [[] for _ in modes]
    for j, (what, _) in enumerate(todo0):
        verdict, vals = None, {}
        for mi, (T, cons, todo) in enumerate(modes):
            left = budget - (time.time() - t0)
            if left < 1:
                res["undecided"].append("time limit")
                return
            last = mi == len(modes) - 1
            r, s = ask(fx, cons + known[mi], todo[j][1], min(left, 30 if last else 15), (nl or mi > 0) and not isinstance(T, Monomials))
            if r == z3.unsat:
                verdict = "unsat"
                break
            if r == z3.sat:
                verdict = "sat" if last else "sat (relaxation)"
                m = s.model()
                for a, v in T.vars.items():
                    if a[0] == "x":
                        x = m.eval(v, model_completion=True)
                        try:
                            if z3.is_algebraic_value(x):
                                x = x.approx(12)
                            vals[a[2:]] = float(x.as_fraction())
                        except Exception:
                            pass
        if verdict == "unsat":
            fx.stats["proved"] += 1
            if nl:
                for k, (_, _, todo) in enumerate(modes):
                    known[k].append(z3.Not(todo[j][1]))
            continue
        if verdict != "sat":
            res["undecided"].append(f"{what}: solver time limit")
        res["failures"].append(dict(what=what, values=vals, solver=verdict or "unknown"))
        if len(res["failures"]) > 6:
            return


def intervals(fx, p):
    """guessed bounds of every atom by interval arithmetic; used only as lemmas that z3 confirms"""
    iv = {}
    for e in p["events"]:
        if e[0] == "G":
            q = fx.exact(e[2])
            if len(q) == 1:
                (m, c), = q.items()
                if len(m) == 1 and m[0][0] == "x" and c == 1:
                    lo, hi = iv.get(m[0], (Fraction(-TOP), Fraction(TOP)))
                    b = Fraction(e[3], e[4])
                    iv[m[0]] = (max(lo, -b), min(hi, b)) if e[1] == "abs" else (max(lo, b), hi)

    def atom(a):
        if a not in iv:
            iv[a] = {"x": (Fraction(-TOP), Fraction(TOP)), "e": (-U, U)}.get(a[0], (None, None))
        return iv[a]

    def mul(a, b):
        if None in a or None in b:
            return (None, None)
        c = [x * y for x in a for y in b]
        return (min(c), max(c))

    def poly(q):
        lo = hi = Fraction(0)
        for m, c in q.items():
            t = (Fraction(1), Fraction(1))
            for a in m:
                t = mul(t, atom(a))
            if len(m) == 2 and m[0] == m[1] and t[0] is not None:
                t = (max(t[0], Fraction(0)), t[1])
            t = mul(t, (c, c))
            if t[0] is None:
                return (None, None)
            lo, hi = lo + t[0], hi + t[1]
        return lo, hi

    for k, v, a, b, rnd in fx.defs:
        ia = poly(a)
        if k == "let":
            iv[v] = ia
        elif k == "div":
            ib = poly(b)
            if None in ia or None in ib or ib[0] <= 0 <= ib[1]:
                iv[v] = (None, None)
            else:
                q = [x / y for x in ia for y in ib]
                w = U if rnd else 0
                iv[v] = (min(q) - w, max(q) + w)
        elif ia[0] is None:
            iv[v] = (None, None)
        else:
            lo, hi = max(ia[0], Fraction(0)), max(ia[1], Fraction(0))
            iv[v] = (max(Fraction(0), Fraction(math.isqrt(int(lo * 10 ** 12)), 10 ** 6) - U), Fraction(math.isqrt(int(hi * 10 ** 12)) + 1, 10 ** 6))
    return iv


def lemmas(fx, p):
    """bounds of the definitions' values, each shown by z3 from its own definition and its operands' bounds"""
    iv = intervals(fx, p)
    out = {}
    def bounds(T, names):
        r = []
        for n in names:
            b = iv.get(n, (None, None)) if n[0] in "xe" else out.get(n, (None, None))
            if b[0] is not None:
                v = T.atom(n)
                r += [v >= z3.Q(b[0].numerator, b[0].denominator), v <= z3.Q(b[1].numerator, b[1].denominator)]
        return r
    for d in fx.defs:
        b = iv.get(d[1], (None, None))
        if b[0] is None or b[1] > TOP * TOP:
            continue
        T = Terms(fx, False)
        try:
            c = definition(T, d)
            names = {a for q in d[2:4] if q for m in q for a in m}
            if any(n[0] == "b" for n in names):
                continue
            c += bounds(T, names)
        except TooBig:
            continue
        v = T.atom(d[1])
        r, _ = ask(fx, c + T.side, z3.Or(v < z3.Q(b[0].numerator, b[0].denominator), v > z3.Q(b[1].numerator, b[1].denominator)), 2, True)
        if r == z3.unsat:
            out[d[1]] = b
    return out


class Monomials(Terms):
    """the coarsest reading: definitions expanded, rounded quotients as the exact one plus a rounding,
    and every monomial an unknown within the product of its atoms' shown bounds"""

    def __init__(self, fx, p, lem):
        Terms.__init__(self, fx, True)
        self.lem = lem
        self.iv = {n: b for n, b in intervals(fx, p).items() if n[0] == "x"}
        self.lets, self.twin = {}, {}
        exact = {}
        for k, v, a, b, rnd in fx.defs:
            if k == "div" and not rnd:
                exact[key(a), key(b)] = v
        for k, v, a, b, rnd in fx.defs:
            if k == "let":
                self.lets[v] = a
            elif k == "div" and rnd and (key(a), key(b)) in exact:
                # |rounded - exact| < 2^-16: both satisfy the same inequality
                self.lets[v] = {(exact[key(a), key(b)],): Fraction(1), ("e:q" + v[2:],): Fraction(1)}

    def expand(self, q):
        while True:
            hit = next((a for m in q for a in m if a in self.lets), None)
            if hit is None:
                return q
            r = {}
            for m, c in q.items():
                t = {(): c}
                for a in m:
                    t = pmul(t, self.lets[a] if a == hit else {(a,): Fraction(1)})
                r = padd(r, t)
            if len(r) > 3000:
                raise TooBig()
            q = r

    def monomial(self, m):
        if not m:
            return z3.RealVal(1)
        if m not in self.mono:
            v = z3.Real("m:" + "*".join(m))
            self.mono[m] = v
            lo = hi = Fraction(1)
            for a in m:
                if a[0] == "b":
                    raise TooBig()
                b = (-U, U) if a[0] == "e" else self.iv.get(a) or self.lem.get(a)
                if a[0] == "x" and b is None:
                    b = (Fraction(-TOP), Fraction(TOP))
                if b is None:
                    return v
                c = [x * y for x in (lo, hi) for y in b]
                lo, hi = min(c), max(c)
            if len(m) == 2 and m[0] == m[1]:
                lo = max(lo, Fraction(0))
            self.side += [v >= z3.Q(lo.numerator, lo.denominator), v <= z3.Q(hi.numerator, hi.denominator)]
        return self.mono[m]

    def poly(self, q):
        return Terms.poly(self, self.expand(q))


def key(q):
    return json.dumps(sorted((m, str(c)) for m, c in q.items()))


def definition(T, d):
    k, v, a, b, rnd = d
    u = z3.Q(1, 65536)
    x, ta = T.atom(v), T.poly(a)
    if k == "let":
        return [x == ta]
    if k == "div":
        tb = T.poly(b)
        if rnd:
            r = x * tb - ta
            m = z3.If(tb >= 0, tb, -tb) * u
            return [r <= m, r >= -m]
        return [x * tb == ta, tb != 0]
    if rnd:
        return [x >= 0, x * x <= ta, (x + u) * (x + u) > ta]
    return [x >= 0, x * x == ta]


def encode(fx, p, linear, hybrid, lem, coarse=False):
    """-> (terms, constraints, [(what, negated obligation)])"""
    T = Monomials(fx, p, lem) if coarse else Terms(fx, linear, hybrid)
    cons = []
    for v, (lo, hi) in lem.items() if not coarse else []:
        cons += [T.atom(v) >= z3.Q(lo.numerator, lo.denominator), T.atom(v) <= z3.Q(hi.numerator, hi.denominator)]
    for e in p["events"] if not coarse else []:
        if e[0] == "G":
            t = T.poly(fx.exact(e[2]))
            q = z3.Q(e[3], e[4])
            cons += [t <= q, t >= -q] if e[1] == "abs" else [t >= q]
        elif e[0] == "A":
            a, b = T.poly(fx.exact(e[2])), T.poly(fx.exact(e[3]))
            cons.append({"lt": a < b, "le": a <= b, "eq": a == b, "ne": a != b}[e[1]])
        elif e[0] == "C":
            a, b = T.poly(fx.rounded(e[2])), T.poly(fx.rounded(e[3]))
            c = {"lt": a < b, "le": a <= b, "eq": a == b}[e[1]]
            cons.append(c if e[4] else z3.Not(c))
    for d in fx.defs if not coarse else []:
        cons += definition(T, d)
    obl = []
    for i, q in fx.ops:
        if fx.nodes[i][0] == "n":
            continue
        t = T.poly(q)
        obl.append(("overflow", z3.Or(t >= TOP, t < -TOP), q))
    for what, kind, q in fx.domain:
        t = T.poly(q)
        obl.append((what, t == 0 if kind == "nonzero" else t < 0, q))
    for e in p["events"]:
        if e[0] == "W":
            d = padd(fx.rounded(e[1]), fx.exact(e[2]), -1)
            t, tol = T.poly(d), T.poly(fx.exact(e[3]))
            obl.append((e[4], z3.Or(t > tol, t < -tol), d))
        elif e[0] == "S":
            t, tol = T.poly(fx.exact(e[1])), T.poly(fx.exact(e[2]))
            obl.append((e[3], z3.Or(t > tol, t < -tol), None))
        elif e[0] == "F" and not e[1]:
            obl.append((e[2], z3.BoolVal(True), None))
    if p["panic"] is not None:
        obl.append(("panic: " + p["panic"], z3.BoolVal(True), None))
    seen = set()
    todo = []
    for what, neg, q in obl:
        if what == "overflow":
            if is_const(q):
                continue
            k = key(q)
            if k in seen:
                continue
            seen.add(k)
        todo.append((what, neg))
    return T, cons + T.side, todo


# ---- concretisation of a solver verdict on the grid ----
def grid(x):
    return max(-32768.0, min(32767.0, round(x * 65536) / 65536))


def candidates(names, values, seed, n):
    rnd = random.Random(seed)
    out = []
    if values:
        out.append({k: grid(v) for k, v in values.items()})
        for _ in range(n // 4):
            out.append({k: grid(v * (1 + rnd.choice([0, 0, 1e-3, -1e-3, 0.1, -0.1]) * rnd.random()) + rnd.choice([0, 0, 1, -1, 7]) / 65536) for k, v in values.items()})
    mags = [2.0 ** k for k in range(-8, 14)]
    while len(out) < n:
        style = rnd.random()
        c = {}
        base = rnd.choice(mags)
        for k in names:
            if style < 0.3:
                v = rnd.choice([0.0, 1.0, base, 1 / base if base else 0])
            elif style < 0.6:
                v = rnd.choice(mags) * rnd.uniform(0.5, 1)
            else:
                v = base * rnd.uniform(0, 1)
            c[k] = grid(rnd.choice([1, -1]) * v)
        out.append(c)
    # diagonal-heavy: off-diagonal inputs near zero
    for _ in range(n // 4):
        c = {}
        for k in names:
            i = k[k.find("[") + 1:k.find("]")].split(",") if "[" in k else []
            c[k] = grid(rnd.choice(mags)) if len(i) == 2 and i[0] == i[1] else grid(rnd.choice([0, 0, 1 / 65536, 0.5, -0.5, 1]))
        out.append(c)
    return out


def search(binary, name, cands):
    """-> (index of a failing candidate or None, number of candidates meeting the assumptions)"""
    fd, p = tempfile.mkstemp(dir=common.OUT, suffix=".vals")
    os.close(fd)
    try:
        with open(p, "w") as f:
            f.write("---\n".join("".join(f"{k} {v!r}\n" for k, v in c.items()) for c in cands))
        r = subprocess.run([binary, "search", name, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        t = r.stdout.strip().split()
        if t and t[0].isdigit():
            return int(t[0]), None
        return None, int(t[1]) if len(t) > 1 else 0
    finally:
        os.unlink(p)


def check(rep, tier):
    import glob, shutil
    from symex_check import build, dump_all, replay
    thorough = tier == "thorough"
    cfgs = ["std-dev", "libm-release"] if not thorough else ["std-dev", "libm-release", "noassert-release"]
    t = time.time()
    bins = {c: build(c, "c24" + ("-thorough" if thorough else "")) for c in cfgs}
    build_s = time.time() - t
    work = tempfile.mkdtemp(prefix="dump-", dir=common.OUT)
    try:
        files, cf = {}, {}
        dump_all(bins, cfgs, work, 300, 64, 3000 if thorough else 300)
        for c in cfgs:
            d = os.path.join(work, c)
            for f in sorted(glob.glob(os.path.join(d, "*.json"))):
                b = open(f, "rb").read()
                files.setdefault(b, f)
                cf.setdefault(b, []).append(c)
        tasks = [(f, common.SEED, 900 if thorough else 150, thorough) for f in files.values()]
        with Pool(8) as pool:
            results = pool.map(solve_scenario, tasks, chunksize=1)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    tot = {}
    decided, nd, validated, vac = [], [], 0, []
    # the encoding against the native arithmetic
    with ThreadPoolExecutor(8) as ex:
        samples = list(ex.map(lambda rc: None if rc[0]["failures"] or rc[0]["undecided"] else search(bins[rc[1][0]], rc[0]["name"], candidates(rc[0]["vars"], {}, common.SEED, 1500)),
                              list(zip(results, cf.values()))))
    for r, cl, sample in zip(results, cf.values(), samples):
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
        label = f"{r['name']} [{','.join(cl)}]"
        b = bins[cl[0]]
        hit = None
        for f in r["failures"][:8]:
            cands = candidates(r["vars"], f["values"], common.SEED, 6000)
            k, _ = search(b, r["name"], cands)
            if k is not None:
                hit = (f, cands[k])
                break
        if hit:
            rc, out = replay(b, r["name"], hit[1])
            rep.violation(f"{r['name']}: {hit[0]['what']}", dict(scenario=r["name"], config=cl[0], obligation=hit[0]["what"], solver=hit[0]["solver"], values=hit[1],
                          native=out.strip().splitlines()[:10]), key=r["name"])
            continue
        if r["failures"] or r["undecided"] or not r["complete"]:
            why = r["undecided"][:3] + [f"{f['what']}: {f['solver']}, no concrete operands found" for f in r["failures"][:3]]
            nd.append((label, why))
            if r["core"]:
                rep.undecided.append(f"core instance {label} not decided: {why[:2]}")
            continue
        decided.append(label)
        k, used = sample
        if k is not None:
            rep.undecided.append(f"{label}: proved, yet the native run fails on candidate {k}")
        else:
            validated += used
            if not used:
                vac.append(label)
    if not decided and not rep.violations:
        rep.errors.append("no scenario could be decided")
    rep.cov.update(dict(
        scenarios=decided, scenarios_decided=len(decided), not_decided=nd, scenarios_without_native_sample=vac,
        states=sum(r["nodes"] for r in results), transitions=sum(r["ops"] for r in results),
        symbolic_paths=tot.get("paths"), obligations=tot.get("obligations"), discharged=tot.get("proved"),
        traces_validated_against_impl=validated, queries=tot.get("queries"), unsat=tot.get("unsat"), sat=tot.get("sat"), unknown=tot.get("unknown"),
        solver_s=round(tot.get("solver_s", 0), 2), build_s=round(build_s, 1), configs=cfgs, modes={r["name"]: r["mode"] for r in results},
        slowest_scenarios_s=sorted(((r["wall"], r["name"]) for r in results), reverse=True)[:5],
        functions_encoded=__import__("symex_check").functions_encoded(bins[cfgs[0]]), solver="z3 " + z3.get_version_string(),
    ))
    rep.assumptions += [
        "16.16 multiplication, division and square root err by less than 2^-16, addition and subtraction are exact (as in the fixed crate)",
        "operands, and every product of the textbook formula, bounded as the scenario states",
        "operands range over the reals in the bounds, a superset of the grid",
    ]
