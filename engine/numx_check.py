"""C22: reciprocal and square root of the number types, on the LLVM IR of the real implementations."""
import glob, math, os, shutil, struct, time
from fractions import Fraction
from multiprocessing import Process, Queue
import queue
import z3
import common, llvmsym
from common import BUILD, VERIF, CheckError
from llvmsym import Exec, Module, State, Unsupported, RNE

CRATE = os.path.join(VERIF, "numx")
CFGS = {"std": "std,fixed", "libm": "libm,fixed"}
FLAGS = "-Awarnings --emit=llvm-ir,link -C opt-level=1 -C overflow-checks=on -C debug-assertions=on -C codegen-units=1 -C no-vectorize-loops -C no-vectorize-slp -C debuginfo=0"
FUNCS = {
    "vp_f32_recip": ("float", 32, "recip"), "vp_f32_sqrt": ("float", 32, "sqrt"),
    "vp_f64_recip": ("float", 64, "recip"), "vp_f64_sqrt": ("float", 64, "sqrt"),
    "vp_i16f16_recip": ("fixed", 32, "recip"), "vp_i16f16_sqrt": ("fixed", 32, "sqrt"),
    "vp_i32f32_recip": ("fixed", 64, "recip"), "vp_i32f32_sqrt": ("fixed", 64, "sqrt"),
}


def build(cfg):
    td = os.path.join(BUILD, "numx-" + cfg)
    # stale IR of earlier builds of the same crates must not be picked up
    for f in glob.glob(os.path.join(td, "release", "deps", "*minikalman*")) + glob.glob(os.path.join(td, "release", "deps", "*numx*")):
        os.unlink(f)
    for d in glob.glob(os.path.join(td, "release", ".fingerprint", "minikalman-*")) + glob.glob(os.path.join(td, "release", ".fingerprint", "numx-*")):
        shutil.rmtree(d)
    e = common.env()
    e["RUSTFLAGS"] = FLAGS
    common.run(["cargo", "build", "--release", "--offline", "-q", "--no-default-features", "--features", CFGS[cfg], "--target-dir", td], cwd=CRATE, envv=e, timeout=600)
    lls = sorted(glob.glob(os.path.join(td, "release", "deps", "*.ll")))
    return lls, os.path.join(td, "release", "numx")


def native(binary, fn, bits):
    return common.run([binary, fn, "%x" % bits], timeout=20).stdout.strip()


# ---- exact oracle on one operand: is the native answer acceptable? ----
def f_of(bits, w):
    return struct.unpack(">f" if w == 32 else ">d", bits.to_bytes(w // 8, "big"))[0]


def b_of(x, w):
    if w == 64:
        return int.from_bytes(struct.pack(">d", x), "big")
    try:
        return int.from_bytes(struct.pack(">f", x), "big")
    except OverflowError:
        return 0x7F800000 if x > 0 else 0xFF800000


def acceptable(fn, bits, ans):
    kind, w, op = FUNCS[fn]
    if kind == "float":
        if ans == "PANIC":
            return False
        got = int(ans, 16)
        x = f_of(bits, w)
        if math.isnan(x) or (op == "sqrt" and x < 0):
            return math.isnan(f_of(got, w))
        if op == "recip":
            if x == 0:
                want = math.copysign(math.inf, x)
            elif math.isinf(x):
                want = math.copysign(0.0, x)
            else:
                want = 1.0 / x  # f32: double rounding is innocuous for division
        else:
            want = math.sqrt(x)
        return got == b_of(want, w)
    x = bits - (1 << w) if bits >> (w - 1) else bits
    v = None
    if ans != "PANIC":
        v = int(ans, 16)
        v = v - (1 << w) if v >> (w - 1) else v
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    if op == "sqrt":
        if x < 0:
            return True
        if v is None or v < 0:
            return False
        X = x << (w // 2)
        r = math.isqrt(X)
        return abs(v - r) <= 1 and (v - 1 <= 0 or (v - 1) ** 2 < X or v * v <= X) and (v + 1) ** 2 > X
    if x == 0:
        return True
    q = Fraction(1 << w, x)
    fl, ce = math.floor(q), math.ceil(q)
    if fl < lo or ce > hi:
        return True
    return v is not None and v in (fl, ce)


def same_float(a, b):
    return z3.Or(z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b)), a == b)


def specs(fn, x, paths, ex):
    """-> [(name, [constraints violated...])] : sat of the conjunction = violation"""
    kind, w, op = FUNCS[fn]
    out = []
    one = z3.FPVal(1.0, z3.Float32() if w == 32 else z3.Float64())
    for i, (st, k, v) in enumerate(paths):
        pc = list(st.pc)
        if kind == "float":
            want = z3.fpDiv(RNE, one, x) if op == "recip" else z3.fpSqrt(RNE, x)
            if k == "ret":
                out.append((f"path {i}: correctly rounded", pc, [z3.Not(same_float(v, want))], None))
            else:
                out.append((f"path {i}: no panic", pc, [], None))
            continue
        W = 2 * w + 4
        X = z3.SignExt(W - w, x)
        N = z3.BitVecVal(1 << w, W)
        if op == "recip":
            lim = z3.BitVecVal((1 << (w - 1)) - 1, w + 1)
            ax = z3.If(x < 0, -z3.SignExt(1, x), z3.SignExt(1, x))
            # |2^w / x| <= 2^(w-1) - 1 unless |x| <= 2; exactly: |x| >= 3 is sufficient and necessary for w = 32, 64
            rep = [z3.UGE(ax, z3.BitVecVal(3, w + 1))]
            # |x| = 2 with a negative sign: quotient -2^(w-1), representable
            if k == "ret":
                V = z3.SignExt(W - w, v)
                q = z3.Extract(w - 1, 0, z3.BitVecVal(1 << w, 2 * w) / z3.SignExt(w, x))
                d = V * X - N
                absd = z3.If(d < 0, -d, d)
                absx = z3.If(X < 0, -X, X)
                exact = [z3.Not(z3.ULT(absd, absx))]
                out.append((f"path {i}: exact quotient rounded to the grid", pc + rep, exact, [v != q]))
            else:
                out.append((f"path {i}: no panic for a representable reciprocal", pc + rep, [], None))
        else:
            rep = [x >= 0]
            if k == "ret":
                W = 2 * w + 4
                X = z3.ZeroExt(W - w, x) << (w // 2)
                V = z3.SignExt(W - w, v)
                bad = z3.Or(V < 0, z3.Not(z3.ULT(X, (V + 1) * (V + 1))), z3.And(V > 1, z3.Not(z3.ULE((V - 1) * (V - 1), X))))
                # with r = floor(sqrt(x << f)) from the dependency, r and r + 1 are within one unit
                alt = None
                for a, k2, r in ex.roots:
                    if k2 == w // 2:
                        alt = [z3.Or(a != x, z3.And(v != r, v != r + 1))]
                out.append((f"path {i}: within one unit in the last place", pc + rep, [bad], alt))
            else:
                out.append((f"path {i}: no panic for an operand >= 0", pc + rep, [], None))
    return out


def candidates(fn):
    kind, w, op = FUNCS[fn]
    if kind == "float":
        xs = [0.0, -0.0, 1.0, -1.0, 2.0, 3.0, -3.0, 0.1, 1e-3, 7.0, 1e10, 1e-10, 1e30, 1e-30, -1e-30, 123456.789, math.pi, 1 / 3, float("inf"), float("-inf"), float("nan"), 1e-44, -1e-44, 3e38, 1e-38, 16777217.0]
        if w == 64:
            xs += [1e300, 1e-300, 5e-324, 1e-308, 4503599627370497.0, 1e40, 1e-50]
        return [b_of(x, w) for x in xs]
    base = [0, 1, 2, 3, 5, 7, 100, 1000, 99999, (1 << (w // 2)) - 1, 1 << (w // 2), (1 << (w // 2)) + 1, 3 << (w // 2), 10 << (w // 2), (1 << (w - 1)) - 1, (1 << (w - 2)) + 12345, 1 << (w // 2 - 3), (1 << (w - 1)) // 3]
    return base + [(-b) & ((1 << w) - 1) for b in base]


def solve(pc, neg, timeout, stats, fixed=None, x=None):
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    s.add(*pc)
    s.add(*neg)
    if fixed is not None:
        s.add(fixed)
    t = time.time()
    r = s.check()
    stats["solver_s"] += time.time() - t
    stats["queries"] += 1
    stats[str(r)] += 1
    return r, s


def admitted(pc, x, kind, w, stats):
    """a few operands satisfying the path condition, spread over the magnitudes"""
    out = []
    ranges = [None]
    if kind == "fixed":
        ranges += [z3.And(x >= (1 << k), x < (1 << (k + 1))) for k in range(2, w - 1, 3)]
    for rg in ranges:
        r, s = solve(pc, [rg] if rg is not None else [], 2, stats)
        if r == z3.sat:
            v = s.model().eval(x, model_completion=True)
            out.append(v.as_long() if kind == "fixed" else z3.simplify(z3.fpToIEEEBV(v)).as_long())
            if kind == "fixed" and rg is not None:
                out.append(((1 << (v.as_long().bit_length() - 1)) * 5 // 4) | 1)
    return out


def job(args, q):
    q.put(decide(args))


def decide_all(jobs, limit):
    """every job in a process of its own, ended at the time limit (z3 does not always honour its own)"""
    out = []
    procs = []
    for a in jobs:
        q = Queue()
        p = Process(target=job, args=(a, q), daemon=True)
        procs.append((a, q, p))
    todo, running = list(procs), []
    while todo or running:
        while todo and len(running) < 8:
            a, q, p = todo.pop(0)
            p.start()
            running.append((a, q, p, time.time()))
        still = []
        for a, q, p, t0 in running:
            got = None
            try:
                got = q.get(timeout=0.02)
            except queue.Empty:
                if time.time() - t0 > limit or not p.is_alive():
                    try:
                        got = q.get(timeout=0.5)
                    except queue.Empty:
                        got = dict(cfg=a[0], fn=a[1], stats=dict(queries=0, sat=0, unsat=0, unknown=1, solver_s=time.time() - t0), proved=[], undecided=["time limit of the whole function"], bad=None, encoded=[], summaries=[])
            if got is None:
                still.append((a, q, p, t0))
            else:
                p.kill()
                p.join()
                out.append(got)
        running = still
    return out


def decide(args):
    cfg, fn, lls, binary, tier = args
    stats = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0)
    res = dict(cfg=cfg, fn=fn, stats=stats, proved=[], undecided=[], bad=None, encoded=[], summaries=[])
    kind, w, op = FUNCS[fn]
    try:
        mod = Module(lls)
        ex = Exec(mod)
        if kind == "float":
            x = z3.FP("x", z3.Float32() if w == 32 else z3.Float64())
        else:
            x = z3.BitVec("x", w)
        paths = ex.call(fn, [x], State({}, {}, [], {}))
        res["encoded"], res["summaries"] = sorted(ex.encoded), sorted(ex.summaries)
        stats["queries"] += ex.queries
        stats["solver_s"] += ex.solver_s
        res["paths"] = len(paths)
        for p in paths:
            if p[1] == "unreachable":
                raise Unsupported("unreachable reached")

        def bits_of(model):
            v = model.eval(x, model_completion=True)
            if kind == "fixed":
                return v.as_long()
            b = model.eval(z3.fpToIEEEBV(v), model_completion=True)
            return z3.simplify(b).as_long()

        def replay(model):
            b = bits_of(model)
            a = native(binary, fn, b)
            if not acceptable(fn, b, a):
                res["bad"] = dict(operand_bits="%x" % b, native=a)
                return True
            res["undecided"].append(f"model {b:x} does not reproduce natively ({a})")
            return False

        budget = 240 if tier == "quick" else 2700
        t0 = time.time()
        sp = specs(fn, x, paths, ex)
        rest = []
        # a stronger, structurally easy form first
        for name, pc, neg, alt in sp:
            if alt is not None:
                r, s = solve(pc, alt, 20 if len(sp) < 4 else 5, stats)
                if r == z3.unsat:
                    res["proved"].append(name)
                    continue
            rest.append((name, pc, neg))
        # then the property itself, briefly
        hard, rest = rest, []
        for name, pc, neg in hard:
            r, s = solve(pc, neg, max(2, 20 / len(hard)), stats)
            if r == z3.unsat:
                res["proved"].append(name)
            elif r == z3.sat and replay(s.model()):
                return res
            elif r == z3.unknown:
                rest.append((name, pc, neg))
        # undecided so far: single operands, the usual suspects and some that each path condition admits
        for name, pc, neg in rest:
            both = z3.And(*pc, *neg) if pc or neg else z3.BoolVal(True)
            t1 = time.time()
            for c in candidates(fn) + admitted(pc, x, kind, w, stats):
                if time.time() - t1 > budget / 3 / len(rest):
                    break
                val = z3.BitVecVal(c, w) if kind == "fixed" else z3.simplify(z3.fpBVToFP(z3.BitVecVal(c, w), x.sort()))
                e = z3.simplify(z3.substitute(both, (x, val)))
                if z3.is_false(e):
                    continue
                r, s = solve([e], [], 5, stats, fixed=x == val)
                if r == z3.sat and replay(s.model()):
                    return res
        # the time that is left for what is left
        for i, (name, pc, neg) in enumerate(rest):
            r, s = solve(pc, neg, max(1, (budget - (time.time() - t0)) / (len(rest) - i)), stats)
            if r == z3.unsat:
                res["proved"].append(name)
            elif r == z3.sat:
                if replay(s.model()):
                    return res
            else:
                res["undecided"].append(name + ": solver time limit")
        # encoding against the native run
        n = 0
        for c in candidates(fn):
            a = native(binary, fn, c)
            if not acceptable(fn, c, a):
                res["undecided"].append(f"encoding and native run disagree at {c:x}: {a}") if not res["undecided"] else None
            n += 1
        res["validated"] = n
    except Unsupported as e:
        res["undecided"].append("not encodable: " + str(e))
        # still use the solver-independent replay of nothing: no verdict
    return res


def check(rep, tier):
    t = time.time()
    built = {c: build(c) for c in CFGS}
    build_s = time.time() - t
    jobs = [(c, f, built[c][0], built[c][1], tier) for c in CFGS for f in FUNCS]
    results = decide_all(jobs, 300 if tier == "quick" else 3000)
    tot = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0)
    decided, enc, summ, nd, val = [], set(), set(), [], 0
    for r in results:
        for k in tot:
            tot[k] += r["stats"][k]
        enc |= set(r["encoded"])
        summ |= set(r["summaries"])
        label = f"{r['fn']} [{r['cfg']}]"
        val += r.get("validated", 0)
        if r["bad"]:
            rep.violation(f"{label}: wrong result for operand {r['bad']['operand_bits']}: {r['bad']['native']}",
                          dict(function=r["fn"], config=r["cfg"], **r["bad"], how=f"{os.path.relpath(built[r['cfg']][1], VERIF)} {r['fn']} {r['bad']['operand_bits']}"), key=r["fn"])
        elif r["undecided"]:
            nd.append((label, r["undecided"][:3]))
            rep.undecided.append(f"{label}: {r['undecided'][:2]}")
        else:
            decided.append(label)
    if not decided and not rep.violations:
        rep.errors.append("no function could be decided")
    rep.cov.update(dict(
        functions=decided, not_decided=nd, functions_encoded=sorted(enc), summaries=sorted(summ),
        obligations=sum(len(r["proved"]) for r in results), discharged=sum(len(r["proved"]) for r in results),
        symbolic_paths=sum(r.get("paths", 0) for r in results), traces_validated_against_impl=val,
        queries=tot["queries"], unsat=tot["unsat"], sat=tot["sat"], unknown=tot["unknown"], solver_s=round(tot["solver_s"], 2),
        build_s=round(build_s, 1), solver="z3 " + z3.get_version_string(), configs=list(CFGS),
        bound="none on the operand: all 2^32 / 2^64 bit patterns; paths of the optimised IR enumerated completely",
        states=max(1, sum(r.get("paths", 0) for r in results)), transitions=tot["queries"],
    ))
    rep.assumptions += [
        "LLVM IR as rustc emits it at opt-level 1 with overflow checks; z3's IEEE semantics; NaN payloads are not compared",
        "the dependency's integer square root (fixed::sqrt) returns the floor of the exact root",
        "micromath is outside: documented as approximate",
    ]
