"""Floating-point scenarios: which IEEE classes can every value take?

Each DAG node gets one of eight classes (NaN, infinities, zero, and finite values
of either sign, of moderate or any magnitude).  The relations below over-approximate IEEE-754 binary
arithmetic of any width and rounding mode (overflow and underflow included), so
an obligation z3 shows over them holds for every finite input.  A refuted
obligation only counts as a violation once a concrete input with the classes of
the model fails natively.
"""
import itertools, math, random, time
import z3
from fractions import Fraction

NAN, NI, NF, NM, Z, PM, PF, PI = range(8)
K = 8
FINITE = (NF, NM, Z, PM, PF)
SGN = {NI: -1, NF: -1, NM: -1, PM: 1, PF: 1, PI: 1}
# PM / NM: moderate magnitude, closed under 1/x and containing every square root of a
# positive finite value ([2^-75, 2^75] in single, [2^-538, 2^538] in double precision)


def fin(s, under=True):
    """nonzero result of sign s that may overflow (and underflow)"""
    return ({PM, PF, PI} if s > 0 else {NM, NF, NI}) | ({Z} if under else set())


def neg(x):
    return {NAN: NAN, NI: PI, NF: PF, NM: PM, Z: Z, PM: NM, PF: NF, PI: NI}[x]


def add(x, y):
    if NAN in (x, y) or {x, y} == {NI, PI}:
        return {NAN}
    for i in (NI, PI):
        if i in (x, y):
            return {i}
    if x == Z:
        return {y}
    if y == Z:
        return {x}
    if SGN[x] == SGN[y]:
        if x in (PM, NM) and y in (PM, NM):
            return fin(SGN[x], False) - {PI, NI}
        return fin(SGN[x], False)
    return set(FINITE)


def mul(x, y):
    if NAN in (x, y):
        return {NAN}
    inf = x in (NI, PI) or y in (NI, PI)
    if Z in (x, y):
        return {NAN} if inf else {Z}
    s = SGN[x] * SGN[y]
    return ({PI} if s > 0 else {NI}) if inf else fin(s)


def div(x, y, one=False):
    if NAN in (x, y):
        return {NAN}
    xi, yi = x in (NI, PI), y in (NI, PI)
    if xi and yi or (x == Z and y == Z):
        return {NAN}
    if yi:
        return {Z}
    if y == Z:
        return {NI, PI}
    if x == Z:
        return {Z}
    s = SGN[x] * SGN[y]
    if one and y in (PM, NM):
        return {PM} if s > 0 else {NM}
    return ({PI} if s > 0 else {NI}) if xi else fin(s)


def sqrt(x):
    if x in (NAN, NI, NF, NM):
        return {NAN}
    return {PM} if x == PF else {x}


def rels(x, y):
    """possible relations: 1 '<', 2 '=', 4 '>', 8 unordered"""
    if NAN in (x, y):
        return 8
    if {x, y} <= {PM, PF} or {x, y} <= {NM, NF}:
        return 7
    if x != y:
        return 1 if x < y else 4
    return 2


class FpScenario:
    def __init__(self, data, seed, budget_s):
        self.d = data
        self.nodes = data["nodes"]
        self.seed = seed
        self.t0 = time.time()
        self.budget = budget_s
        self.stats = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, merges=0, paths=len(data["paths"]),
                          infeasible=0, obligations=0, proved=0, witnessed=1)
        self.failures, self.undecided, self.models = [], [], []

    def check(self, s):
        s.set("timeout", 20000)
        t = time.time()
        r = s.check()
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        self.stats[str(r)] += 1
        return r

    def v(self, i, c):
        return z3.Bool(f"n{i}c{c}")

    def rel1(self, out, i, f):
        for x in range(K):
            out.append(z3.Implies(self.v(i[0], x), z3.Or([self.v(i[1], r) for r in f(x)])))

    def encode(self):
        out = []
        for i, n in enumerate(self.nodes):
            cs = [self.v(i, c) for c in range(K)]
            out.append(z3.PbEq([(c, 1) for c in cs], 1))
            op = n[0]
            if op == "c":
                a = int(n[1])
                out.append(cs[PM if a > 0 else NM if a < 0 else Z] if abs(Fraction(a, int(n[2]))) < 2**60 and (a == 0 or abs(Fraction(int(n[2]), a)) < 2**60) else z3.BoolVal(True))
            elif op == "v":
                if not n[1].startswith("any:"):
                    out.append(z3.Or([cs[c] for c in FINITE]))
            elif op == "n":
                self.rel1(out, (n[1], i), lambda x: {neg(x)})
            elif op == "s":
                self.rel1(out, (n[1], i), sqrt)
            else:
                a, b = n[1], n[2]
                one = self.nodes[a][0] == "c" and abs(int(self.nodes[a][1])) == 1 and int(self.nodes[a][2]) == 1
                f = {"+": add, "-": lambda x, y: add(x, neg(y)), "*": mul, "/": lambda x, y: div(x, y, one)}[op]
                if a == b:
                    same = {"+": lambda x: add(x, x), "*": lambda x: mul(x, x),
                            "-": lambda x: {Z} if x in FINITE else {NAN},
                            "/": lambda x: {PM} if x in FINITE and x != Z else {NAN}}[op]
                    self.rel1(out, (a, i), same)
                else:
                    for x, y in itertools.product(range(K), range(K)):
                        out.append(z3.Implies(z3.And(self.v(a, x), self.v(b, y)), z3.Or([self.v(i, r) for r in f(x, y)])))
        return out

    def classes(self, m):
        return {n[1]: [c for c in range(K) if z3.is_true(m.eval(self.v(i, c), model_completion=True))][0]
                for i, n in enumerate(self.nodes) if n[0] == "v"}

    def run(self, search):
        # graphs no obligation talks about need not be encoded
        small = len(self.nodes) <= 300
        base = None
        for pi, p in enumerate(self.d["paths"]):
            cons, obl, bad = [], [], []
            if p["panic"]:
                bad.append("panic: " + p["panic"])
            for e in p["events"]:
                if e[0] == "A":
                    a, b = e[2], e[3]
                    m = {"lt": 1, "le": 3, "ne": 5, "eq": 2}[e[1]]
                elif e[0] == "R":
                    a, b, m = e[1], e[2], e[3]
                else:
                    if e[0] == "O":
                        obl.append(e)
                    elif e[0] == "F" and not e[1]:
                        bad.append(e[2])
                    continue
                for x, y in itertools.product(range(K), range(K)):
                    if rels(x, y) & m == 0:
                        cons.append(z3.Not(z3.And(self.v(a, x), self.v(b, y))))
                    elif a == b and x == y and m == 8 and x != NAN:
                        cons.append(z3.Not(self.v(a, x)))
            self.stats["obligations"] += len(obl)
            facts = sum(1 for e in p["events"] if e[0] == "F" and e[2] not in bad) + (not p["panic"])
            self.stats["obligations"] += facts
            self.stats["proved"] += facts
            if not (obl or bad or small):
                continue
            if base is None:
                base = self.encode()
            s = z3.Solver()
            s.add(base)
            s.add(cons)
            if not (obl or bad):
                # is the path feasible at all? (says that the run means something)
                r = self.check(s)
                if r == z3.unsat:
                    self.stats["infeasible"] += 1
                elif r == z3.sat and len(self.models) < 3:
                    self.models.append(self.classes(s.model()))
                continue
            goals = [(o[4], z3.Not(z3.Or([self.v(o[2], c) for c in FINITE]))) for o in obl] + [(b, z3.BoolVal(True)) for b in bad]
            for name, g in goals:
                if time.time() - self.t0 > self.budget:
                    self.undecided.append("time budget exhausted")
                    return
                s.push()
                s.add(g)
                r = self.check(s)
                if r == z3.unsat:
                    self.stats["proved"] += 1
                elif r == z3.sat:
                    m = s.model()
                    cls = self.classes(m)
                    self.failures.append((f"path {pi}: {name}", cls))
                    return
                else:
                    self.undecided.append(f"path {pi}: {name}")
                s.pop()


MAGS = [1e-308, 1e-154, 1.0, 1e154, 1e308]


def candidates(cls, seed, limit=20000):
    names = sorted(cls)
    special = {Z: 0.0, NAN: math.nan, PI: math.inf, NI: -math.inf}
    choice = [[special[cls[n]]] if cls[n] in special else [m if cls[n] in (PF, PM) else -m for m in MAGS] for n in names]
    total = 1
    for c in choice:
        total *= len(c)
    if total <= limit:
        for c in itertools.product(*choice):
            yield dict(zip(names, c))
    else:
        r = random.Random(seed)
        for _ in range(limit):
            yield {n: r.choice(c) for n, c in zip(names, choice)}


def solve(data, seed, budget):
    sc = FpScenario(data, seed, budget)
    sc.run(None)
    return dict(name=data["name"], core=data["core"], failures=[], fp_failures=sc.failures, fp_models=sc.models, undecided=sc.undecided, stats=sc.stats,
                complete=data["complete"], witness=None, nodes=len(sc.nodes), ops=data["ops"],
                varcount=sum(1 for n in sc.nodes if n[0] == "v"), wall=round(time.time() - sc.t0, 2))
