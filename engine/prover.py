"""Decides the obligations of one dumped scenario with z3 (see DESIGN.md).

A scenario dump is an expression DAG plus a set of paths, each a list of events
(assumptions, fork outcomes, obligations).  Every equality is decided by z3:

  * nodes get z3 terms bottom-up; divisions and square roots become constants
    with their defining axioms once z3 has shown them to be defined;
  * "sweeping": nodes that agree numerically at random points are candidate
    equals; each candidate is proved by a small z3 query and then merged, which
    turns the big obligations into small ones (the numeric evaluation only
    selects which queries to ask, it decides nothing);
  * an obligation z3 refutes yields concrete inputs, to be replayed natively.
"""
import json, random, time, hashlib
from decimal import Decimal, getcontext, InvalidOperation, DivisionByZero
from fractions import Fraction
import z3

getcontext().prec = 60
getcontext().Emax = 10**9
getcontext().Emin = -10**9


class Budget(Exception):
    pass


def rnd_points(seed, names, kinds, count):
    """count assignments of small dyadic rationals to the variables"""
    pts = []
    for k in range(count):
        r = random.Random(f"{seed}/{k}")
        d = {}
        for n in names:
            kd = kinds.get(n)
            if kd == "pos":
                v = Fraction(r.randint(4, 24), 8)
            elif kd == "nonpos":
                v = -Fraction(r.randint(0 if k % 3 == 1 else 1, 24), 8)
            else:
                v = Fraction(r.choice([-1, 1]) * r.randint(1, 24), 8)
            d[n] = v
        pts.append(d)
    return pts


class Scenario:
    def __init__(self, data, seed, budget_s=60.0, qtimeout_ms=4000):
        self.d = data
        self.name = data["name"]
        self.core = data["core"]
        self.nodes = data["nodes"]
        self.seed = seed
        self.t0 = time.time()
        self.budget = budget_s
        self.qt = qtimeout_ms
        self.stats = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, merges=0, merge_fail=0,
                          paths=len(data["paths"]), infeasible=0, obligations=0, proved=0, rewritten=0)
        self.kinds = {}
        for p in data["paths"]:
            for ev in p["events"]:
                if ev[0] == "A":
                    _, op, a, b = ev
                    if op == "lt" and a == 0 and self.nodes[b][0] == "v":
                        self.kinds[self.nodes[b][1]] = "pos"
                    elif op == "le" and b == 0 and self.nodes[a][0] == "v":
                        self.kinds[self.nodes[a][1]] = "nonpos"
                    elif op == "ne" and b == 0 and self.nodes[a][0] == "v":
                        self.kinds[self.nodes[a][1]] = "ne"
        self.varnames = [n[1] for n in self.nodes if n[0] == "v"]
        self.var_index = {n[1]: i for i, n in enumerate(self.nodes) if n[0] == "v"}

    # ---------- numeric evaluation -------------------------------------
    def evaluate(self, point):
        vals = []
        for n in self.nodes:
            op = n[0]
            try:
                if op == "c":
                    v = Decimal(n[1]) / Decimal(n[2])
                elif op == "v":
                    f = point[n[1]]
                    v = Decimal(f.numerator) / Decimal(f.denominator)
                else:
                    a = vals[n[1]]
                    if a is None:
                        v = None
                    elif op == "n":
                        v = -a
                    elif op == "s":
                        if a < 0 and a > Decimal("-1e-40"):
                            a = Decimal(0)
                        v = a.sqrt() if a >= 0 else None
                    else:
                        b = vals[n[2]]
                        if b is None:
                            v = None
                        elif op == "+":
                            v = a + b
                        elif op == "-":
                            v = a - b
                        elif op == "*":
                            v = a * b
                        else:
                            v = None if abs(b) < Decimal("1e-40") else a / b
            except (InvalidOperation, DivisionByZero, OverflowError):
                v = None
            vals.append(v)
        return vals

    EPS = Decimal("1e-30")

    def rel_holds(self, op, a, b, truth=True):
        if a is None or b is None:
            return False
        d = a - b
        z = abs(d) <= self.EPS * (1 + abs(a) + abs(b))
        r = {"lt": (d < 0 and not z), "le": (d < 0 or z), "eq": z, "ne": not z}[op]
        return r == truth

    def path_holds(self, p, vals, upto=None):
        for ev in p["events"][:upto]:
            if ev[0] == "A" and not self.rel_holds(ev[1], vals[ev[2]], vals[ev[3]]):
                return False
            if ev[0] == "C" and not self.rel_holds(ev[1], vals[ev[2]], vals[ev[3]], ev[4]):
                return False
        return True

    # ---------- z3 ---------------------------------------------------------
    def check(self, solver, timeout=None):
        if time.time() - self.t0 > self.budget:
            raise Budget()
        solver.set("timeout", int(timeout or self.qt))
        t = time.time()
        r = solver.check()
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        self.stats[str(r)] += 1
        return r

    def run(self):
        """-> dict(status, failures=[...], undecided=[...], stats)"""
        self.failures, self.undecided = [], []
        # sample points
        pts = rnd_points(self.seed, self.varnames, self.kinds, 12)
        self.points = [(p, self.evaluate(p)) for p in pts[:3]]
        self.more_points = pts[3:]
        self.witnessed = 0
        self.witness_point = None
        try:
            for pi, p in enumerate(self.d["paths"]):
                self.run_path(pi, p)
        except Budget:
            self.undecided.append("time budget exhausted")
        self.stats["witnessed"] = self.witnessed
        return dict(name=self.name, core=self.core, failures=self.failures, undecided=self.undecided,
                    stats=self.stats, complete=self.d["complete"], witness=self.witness_point,
                    nodes=len(self.nodes), ops=self.d["ops"], varcount=len(self.varnames), wall=round(time.time() - self.t0, 2))

    def cone(self, roots):
        seen = set()
        st = list(roots)
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            n = self.nodes[i]
            if n[0] not in "cv":
                st.extend(n[1:])
        return sorted(seen)

    def run_path(self, pi, p):
        evs = p["events"]
        assumes = [(e[1], e[2], e[3], True) for e in evs if e[0] == "A"]
        conds = [(e[1], e[2], e[3], e[4]) for e in evs if e[0] == "C"]
        obl = [e for e in evs if e[0] == "O"]
        facts = [e for e in evs if e[0] == "F"]
        wit = None
        for (pt, vals) in self.points:
            if self.path_holds(p, vals):
                wit = (pt, vals)
                break
        if wit is None and conds:
            for pt in self.more_points:
                vals = self.evaluate(pt)
                if self.path_holds(p, vals):
                    wit = (pt, vals)
                    break
        if wit:
            self.witnessed += 1
            if self.witness_point is None and not p["panic"]:
                self.witness_point = {k: [v.numerator, v.denominator] for k, v in wit[0].items()}
                self.witness_path = pi
        bad = ([("panic: " + p["panic"])] if p["panic"] else []) + [f[2] + " does not hold" for f in facts if not f[1]]
        if not bad and all(o[1] in ("eq", "le") and o[2] == o[3] for o in obl):
            # both sides are the same computation: provable with every operation uninterpreted,
            # whatever the path conditions are
            s = z3.Solver()
            s.add(z3.Or([z3.Real(f"n!{o[2]}") != z3.Real(f"n!{o[3]}") for o in obl] + [z3.BoolVal(False)]))
            if self.check(s) == z3.unsat:
                self.stats["obligations"] += len(facts) + len(obl)
                self.stats["proved"] += len(facts) + len(obl)
                return
        ctx = Ctx(self, assumes, conds, [v for (_, v) in self.points], wit is not None)
        ctx.build(self.cone([x for c in conds for x in c[1:3]] + [x for o in obl for x in o[2:4]]))
        feas = None
        if wit is None and (conds or bad):
            feas = ctx.feasible()
            if feas == "unsat":
                self.stats["infeasible"] += 1
                return
        self.stats["obligations"] += len(facts) + len(obl)
        self.stats["proved"] += len(facts) - sum(1 for f in facts if not f[1])
        if bad:
            # every input of this path is a violation
            if wit:
                self.fail(pi, bad[0], wit[0], ctx)
            else:
                m = ctx.model([])
                if m is None:
                    self.undecided.append(f"path {pi}: {bad[0]}: feasibility unknown")
                else:
                    self.fail(pi, bad[0], m, ctx)
            return
        # obligations
        same, rest = [], []
        for o in obl:
            (same if (o[1] in ("eq", "le") and ctx.same(o[2], o[3])) else rest).append(o)
        if same:
            s = z3.Solver()
            s.add(z3.Or([ctx.e[o[2]] != ctx.e[o[3]] for o in same]))
            if self.check(s) == z3.unsat:
                self.stats["proved"] += len(same)
            else:
                self.undecided.append("trivial batch not discharged")
        nbad = 0
        for o in rest:
            r = ctx.prove(o[1], o[2], o[3])
            if r:
                self.stats["proved"] += 1
                continue
            # refute
            m = None
            cands = ([wit] if wit else []) + self.points
            for (pt, vals) in cands:
                if self.path_holds(p, vals) and not self.rel_holds(o[1], vals[o[2]], vals[o[3]]):
                    m = pt
                    break
            if m is None:
                for pt in self.more_points:
                    vals = self.evaluate(pt)
                    if self.path_holds(p, vals) and not self.rel_holds(o[1], vals[o[2]], vals[o[3]]):
                        m = pt
                        break
            if m is None and not (wit and o[1] == "eq" and ctx.sig_equal(o[2], o[3])):
                m = ctx.model([(o[1], o[2], o[3], False)])
            if m is None and wit and o[1] == "eq" and ctx.sig_equal(o[2], o[3]):
                m = ctx.model([(o[1], o[2], o[3], False)], quick=True)
            if m is None:
                self.undecided.append(f"path {pi}: {o[4]}")
            else:
                self.fail(pi, o[4], m, ctx, o)
                nbad += 1
                if nbad >= 2:
                    return

    def fail(self, pi, what, point, ctx, o=None):
        # confirm the concrete point with the solver before reporting it
        ok = ctx.confirm(point, o)
        self.failures.append(dict(path=pi, what=what, confirmed=ok,
                                  values={k: float(v) for k, v in point.items()},
                                  exact={k: str(v) for k, v in point.items()}))


class Ctx:
    """z3 terms for one path"""

    def __init__(self, sc, assumes, conds, valsets, onpath):
        self.sc = sc
        self.onpath = onpath
        self.e = {}
        self.assumes = assumes
        self.conds = conds
        self.valsets = valsets
        self.bysig = {}
        self.inv = {}     # ast id -> (inv const, base)
        self.sq = {}      # ast id -> (const, base)
        self.axioms = {}  # const name -> list of z3 facts
        self.deps = {}    # const name -> base term
        self.keep = []
        self.undef = set()
        self.condfacts_done = 0
        self.condfacts = []

    # --- helpers
    def var(self, name):
        return z3.Real(name)

    def kindfact(self, name):
        k = self.sc.kinds.get(name)
        v = z3.Real(name)
        return {"pos": v > 0, "nonpos": v <= 0, "ne": v != 0}.get(k)

    def consts_of(self, *ts):
        seen, out, st = set(), {}, list(ts)
        while st:
            t = st.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[t.decl().name()] = t
            else:
                st.extend(t.children())
        return out

    def facts_for(self, *ts):
        """axioms of every auxiliary constant reachable from the terms"""
        done, todo, out = set(), list(self.consts_of(*ts)), []
        while todo:
            n = todo.pop()
            if n in done:
                continue
            done.add(n)
            k = self.kindfact(n)
            if k is not None:
                out.append(k)
            for a in self.axioms.get(n, []):
                out.append(a)
            if n in self.deps:
                todo.extend(self.consts_of(self.deps[n]))
        return out

    def rel(self, op, a, b, truth=True):
        r = {"lt": a < b, "le": a <= b, "eq": a == b, "ne": a != b}[op]
        return r if truth else z3.Not(r)

    def cond_terms(self):
        out = []
        for (op, a, b, t) in self.assumes + self.conds:
            if a in self.e and b in self.e:
                out.append(self.rel(op, self.e[a], self.e[b], t))
        return out

    def sig(self, n):
        if not self.valsets:
            return None
        out = []
        for v in self.valsets:
            x = v[n]
            if x is None:
                return None
            try:
                out.append(str((x if abs(x) > Decimal("1e-30") else Decimal(0)).normalize().__round__(25) + 0))
            except InvalidOperation:
                return None
        return tuple(out)

    def sig_equal(self, a, b):
        s = self.sig(a)
        return s is not None and s == self.sig(b)

    def same(self, a, b):
        return self.e[a].eq(self.e[b])

    def size(self, t):
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if len(seen) > 400:
                return 401
            st.extend(x.children())
        return len(seen)

    def simp(self, t):
        return z3.simplify(t, som=False)

    def inverse(self, b):
        if z3.is_rational_value(b):
            f = b.as_fraction()
            return z3.RealVal(str(1 / f)) if f != 0 else None
        if z3.is_mul(b):
            parts = [self.inverse(c) for c in b.children()]
            if any(p is None for p in parts):
                return None
            r = parts[0]
            for p in parts[1:]:
                r = r * p
            return self.simp(r)
        if z3.is_const(b) and b.decl().name().startswith("sqrt!"):
            # 1/sqrt(a) = sqrt(a)/a
            iv = self.inverse(self.deps[b.decl().name()])
            return None if iv is None else self.simp(b * iv)
        k = b.get_id()
        if k in self.inv:
            return self.inv[k][0]
        if not self.defined(b != 0, b):
            return None
        nm = f"inv!{len(self.inv)}"
        c = z3.Real(nm)
        self.inv[k] = (c, b)
        self.keep.append(b)
        self.axioms[nm] = [c * b == 1]
        self.deps[nm] = b
        return c

    def defined(self, fact, t):
        """does the path imply `fact`?  (asked of z3)"""
        s = z3.Solver()
        s.add(self.facts_for(t))
        s.add(z3.Not(fact))
        if self.sc.check(s, 1500) == z3.unsat:
            return True
        if self.conds:
            ct = self.cond_terms()
            s = z3.Solver()
            s.add(ct)
            s.add(self.facts_for(t, *ct))
            s.add(z3.Not(fact))
            if self.sc.check(s, 1500) == z3.unsat:
                return True
        return False

    def build(self, cone):
        for n in cone:
            nd = self.sc.nodes[n]
            op = nd[0]
            if op == "c":
                t = z3.RealVal(f"{nd[1]}/{nd[2]}")
            elif op == "v":
                t = self.var(nd[1])
            else:
                a = self.e[nd[1]]
                if op == "n":
                    t = self.simp(-a)
                elif op == "s":
                    t = self.sqrt(a, n)
                else:
                    b = self.e[nd[2]]
                    if op == "+":
                        t = self.simp(a + b)
                    elif op == "-":
                        t = self.simp(a - b)
                    elif op == "*":
                        t = self.simp(a * b)
                    else:
                        iv = self.inverse(b)
                        if iv is None:
                            t = z3.Real(f"undef!{n}")
                            self.undef.add(n)
                        else:
                            t = self.simp(a * iv)
            if op not in "cv":
                t = self.merge(n, t)
            else:
                s = self.sig(n)
                if s is not None:
                    self.bysig.setdefault(s, []).append(t)
            self.e[n] = t

    def sqrt(self, a, n):
        if z3.is_rational_value(a):
            f = a.as_fraction()
            if f >= 0:
                import math
                p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if p * p == f.numerator and q * q == f.denominator:
                    return z3.RealVal(f"{p}/{q}")
        k = a.get_id()
        if k in self.sq:
            return self.sq[k][0]
        if not self.defined(a >= 0, a):
            self.undef.add(n)
            return z3.Real(f"undef!{n}")
        nm = f"sqrt!{len(self.sq)}"
        c = z3.Real(nm)
        self.sq[k] = (c, a)
        self.keep.append(a)
        self.axioms[nm] = [c >= 0, c * c == a]
        self.deps[nm] = a
        return c

    def constant(self, n):
        """the rational number the node seems to be equal to everywhere, if any"""
        vs = [v[n] for v in self.valsets]
        if len(vs) < 2 or any(x != vs[0] and abs(x - vs[0]) > Decimal("1e-30") * (1 + abs(vs[0])) for x in vs):
            return None
        x = Fraction(vs[0])
        q = x.limit_denominator(10 ** 14)
        if abs(x - q) > Fraction(1, 10 ** 32) * (1 + abs(x)):
            return None
        return z3.RealVal(f"{q.numerator}/{q.denominator}")

    def merge(self, n, t):
        s = self.sig(n)
        if s is None:
            return t
        lst = self.bysig.setdefault(s, [])
        for r in lst:
            if r.eq(t):
                return t
        if not lst and not z3.is_rational_value(t):
            q = self.constant(n)
            if q is not None and self.prove_eq(q, t):
                lst.append(q)
                return q
        for r in lst[:3]:
            if self.prove_eq(r, t):
                self.sc.stats["merges"] += 1
                if self.size(t) < self.size(r):
                    lst.remove(r)
                    lst.insert(0, t)
                    # keep the smaller term as the representative
                    return t
                return r
            self.sc.stats["merge_fail"] += 1
        lst.append(t)
        return t

    def prove_eq(self, a, b, timeout=None):
        d = a - b
        from poly import reduce_certificate, som_poly, linear, mono_var
        cert = reduce_certificate(self, a, b)
        if cert is not None:
            # cert: instances of the axioms (times monomials) under which a-b vanishes linearly
            s = z3.SolverFor("QF_LRA")
            s.add([mono_var(m) == linear(new) for m, new in cert])
            s.add(linear(som_poly(d)) != 0)
            if self.sc.check(s, timeout) == z3.unsat:
                return True
        if cert is None and self.size(d) < 60:
            s = z3.SolverFor("QF_NRA")
            s.add(self.facts_for(a, b))
            s.add(a != b)
            return self.sc.check(s, timeout or 1500) == z3.unsat
        return False

    def prove(self, op, a, b):
        ta, tb = self.e[a], self.e[b]
        if op == "eq":
            if self.prove_eq(ta, tb):
                return True
            if self.onpath and self.sig(a) is not None and not self.sig_equal(a, b):
                return False
        ct = self.cond_terms()
        s = z3.SolverFor("QF_NRA")
        s.add(ct)
        s.add(self.facts_for(ta, tb, *ct))
        s.add(z3.Not(self.rel(op, ta, tb)))
        return self.sc.check(s) == z3.unsat

    def feasible(self):
        ct = self.cond_terms()
        # cheap: a single condition contradicts the facts
        for (c, raw) in zip(ct, self.assumes + self.conds):
            s = z3.Solver()
            s.add(c)
            s.add(self.facts_for(c))
            if self.sc.check(s, 800) == z3.unsat:
                return "unsat"
        s = z3.SolverFor("QF_NRA")
        s.add(ct)
        s.add(self.facts_for(*ct))
        return str(self.sc.check(s))

    # --- models ---------------------------------------------------------
    def direct_terms(self, roots):
        """plain encoding without merging (used to search for models)"""
        e, ax = {}, []
        for n in self.sc.cone(roots):
            nd = self.sc.nodes[n]
            op = nd[0]
            if op == "c":
                e[n] = z3.RealVal(f"{nd[1]}/{nd[2]}")
            elif op == "v":
                e[n] = z3.Real(nd[1])
            elif op == "n":
                e[n] = -e[nd[1]]
            elif op == "s":
                c = z3.Real(f"s!{n}")
                ax += [c >= 0, c * c == e[nd[1]]]
                e[n] = c
            elif op == "/":
                if z3.is_rational_value(e[nd[2]]):
                    e[n] = e[nd[1]] / e[nd[2]]
                else:
                    c = z3.Real(f"q!{n}")
                    ax += [c * e[nd[2]] == e[nd[1]], e[nd[2]] != 0]
                    e[n] = c
            else:
                x, y = e[nd[1]], e[nd[2]]
                e[n] = x + y if op == "+" else x - y if op == "-" else x * y
        return e, ax

    def model(self, extra, quick=False):
        rels = self.assumes + self.conds + extra
        roots = [r for c in rels for r in c[1:3]]
        e, ax = self.direct_terms(roots)
        names = set(self.consts_of(*e.values())) & set(self.sc.varnames)
        condroots = [r for c in self.conds for r in c[1:3]]
        support = set(self.sc.nodes[i][1] for i in self.sc.cone(condroots) if self.sc.nodes[i][0] == "v")
        base = [self.rel(op, e[a], e[b], t) for (op, a, b, t) in rels]
        tries = []
        # pin every input that the path conditions do not mention
        tries.append({n for n in names if n not in support})
        rr = random.Random(self.sc.seed)
        sup = sorted(support & names)
        for k in range(1, 4):
            free = set(rr.sample(sup, min(len(sup), k))) if sup else set()
            tries.append({n for n in names if n not in free})
        tries.append(set())
        if quick:
            tries = tries[:2]
        for ti, pins in enumerate(tries):
            pt = rnd_points(f"{self.sc.seed}/m{ti}", self.sc.varnames, self.sc.kinds, 1)[0]
            s = z3.Solver()
            s.add(base)
            s.add(ax)
            for n in pins:
                s.add(z3.Real(n) == z3.RealVal(str(pt[n])))
            if self.sc.check(s, 2000) == z3.sat:
                m = s.model()
                out = dict(pt)
                for n in self.sc.varnames:
                    v = m.eval(z3.Real(n), model_completion=False)
                    if z3.is_rational_value(v):
                        out[n] = v.as_fraction()
                    elif z3.is_algebraic_value(v):
                        out[n] = Fraction(v.approx(30).as_fraction())
                return out
        return None

    def confirm(self, point, o):
        rels = self.assumes + self.conds + ([(o[1], o[2], o[3], False)] if o else [])
        roots = [r for c in rels for r in c[1:3]]
        e, ax = self.direct_terms(roots)
        s = z3.Solver()
        s.add([self.rel(op, e[a], e[b], t) for (op, a, b, t) in rels])
        s.add(ax)
        for n in set(self.consts_of(*e.values())) & set(self.sc.varnames):
            s.add(z3.Real(n) == z3.RealVal(str(point[n])))
        try:
            return str(self.sc.check(s, 5000))
        except Budget:
            return "not asked"


def solve_file(args):
    path, seed, budget, qt = args
    with open(path) as f:
        data = json.load(f)
    try:
        if data.get("fp"):
            import fpclass
            return fpclass.solve(data, seed, budget)
        return Scenario(data, seed, budget, qt).run()
    except Exception as ex:
        import traceback
        return dict(name=data["name"], core=data["core"], failures=[], undecided=[f"engine error: {ex}: {traceback.format_exc()[-800:]}"],
                    stats={}, complete=data["complete"], witness=None, nodes=len(data["nodes"]), ops=data["ops"], varcount=0)
