"""Finds axiom instances under which a polynomial difference vanishes.

The terms are polynomials over constants; constants inv!k satisfy inv!k*b = 1
and sqrt!k satisfy sqrt!k^2 = a.  The difference is expanded and reduced with
those axioms; every reduction step used is returned as an equation between two
monomial expressions (an instance of the axiom times a monomial).  z3 then
checks that these instances entail the equality, so a mistake here can only
make a proof fail.  The instances themselves are consequences of the axioms by
multiplication."""
from fractions import Fraction
import z3

LIMIT = 6000


class TooBig(Exception):
    pass


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > 40 * LIMIT:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def to_poly(t, cache):
    k = t.get_id()
    if k in cache:
        return cache[k][1]
    if z3.is_rational_value(t):
        f = t.as_fraction()
        r = {(): f} if f else {}
    elif z3.is_const(t):
        r = {((t.decl().name(), 1),): Fraction(1)}
    elif z3.is_add(t):
        r = {}
        for c in t.children():
            r = padd(r, to_poly(c, cache))
    elif z3.is_sub(t):
        ch = t.children()
        r = to_poly(ch[0], cache)
        for c in ch[1:]:
            r = padd(r, to_poly(c, cache), -1)
    elif z3.is_mul(t):
        r = {(): Fraction(1)}
        for c in t.children():
            r = pmul(r, to_poly(c, cache))
    elif t.decl().kind() == z3.Z3_OP_UMINUS:
        r = {m: -c for m, c in to_poly(t.children()[0], cache).items()}
    elif t.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(t.children()[1]):
        n = int(str(t.children()[1]))
        b = to_poly(t.children()[0], cache)
        r = {(): Fraction(1)}
        for _ in range(n):
            r = pmul(r, b)
    else:
        raise TooBig()
    if len(r) > LIMIT:
        raise TooBig()
    cache[k] = (t, r)
    return r


def mono_var(m):
    """a monomial as an opaque constant: what is shown for every value of the
    monomials holds in particular for the products they stand for"""
    if not m:
        return z3.RealVal(1)
    return z3.Real("m!" + "*".join(f"{n}^{e}" for n, e in m))


def linear(p):
    ts = [z3.RealVal(str(c)) * mono_var(m) for m, c in p.items()]
    return z3.Sum(ts) if ts else z3.RealVal(0)


def som_poly(d):
    """z3's own sum-of-monomials normal form, read back"""
    t = z3.simplify(d, som=True, som_blowup=1000000)
    out = {}
    for a in (t.children() if z3.is_add(t) else [t]):
        out = padd(out, to_poly(a, {}))
    return out


def reduce_certificate(ctx, a, b):
    """None: not shown.  Otherwise a list of equations (monomial, polynomial), maybe empty."""
    if not hasattr(ctx, "polycache"):
        ctx.polycache = {}
    try:
        p = padd(to_poly(a, ctx.polycache), to_poly(b, ctx.polycache), -1)
        if not p:
            return []
        eqs = []
        steps = 0
        names = set(n for m in p for n, _ in m)
        # rules: leading monomial -> polynomial
        rules = []
        seen = set()
        todo = [n for n in names]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if n in ctx.deps:
                base = to_poly(ctx.deps[n], ctx.polycache)
                todo.extend(x for m in base for x, _ in m)
                if n.startswith("sqrt!"):
                    rules.append((((n, 2),), base))
                elif n.startswith("inv!"):
                    # inv * base = 1 : pick a monomial of base to eliminate
                    if len(base) == 1:
                        (m, c), = base.items()
                        rules.append((mmul(m, ((n, 1),)), {(): 1 / c}))
                    else:
                        # leading: the largest monomial
                        lead = max(base, key=lambda m: (sum(e for _, e in m), m))
                        rest = {m: -c / base[lead] for m, c in base.items() if m != lead}
                        rr = pmul(rest, {((n, 1),): Fraction(1)})
                        rr = padd(rr, {(): 1 / base[lead]})
                        rules.append((mmul(lead, ((n, 1),)), rr))
        if not rules:
            return None
        work = dict(p)
        progress = True
        while work and progress:
            progress = False
            for m in list(work):
                if m not in work:
                    continue
                dm = dict(m)
                for lead, rep in rules:
                    if all(dm.get(n, 0) >= e for n, e in lead):
                        rest = dict(dm)
                        for n, e in lead:
                            rest[n] -= e
                            if not rest[n]:
                                del rest[n]
                        rm = tuple(sorted(rest.items()))
                        c = work.pop(m)
                        new = {mmul(rm, k): v for k, v in rep.items()}
                        eqs.append((m, new))
                        work = padd(work, {k: v * c for k, v in new.items()})
                        steps += 1
                        progress = True
                        if steps > 4000 or len(work) > LIMIT:
                            raise TooBig()
                        break
        return eqs if not work else None
    except TooBig:
        return None
