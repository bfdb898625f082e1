"""Path-wise symbolic execution of LLVM IR (as emitted by rustc) over z3 terms.

Integers are bit vectors, floats are IEEE terms, pointers are (region, constant offset). Anything
not modelled raises Unsupported: the caller reports the function as not decided."""
import re, struct, time
import z3

RNE = z3.RNE()


class Unsupported(Exception):
    pass


class Ptr:
    def __init__(self, region, off=0):
        self.region, self.off = region, off


class Agg:
    def __init__(self, items):
        self.items = list(items)


POISON = object()


def split_top(s, sep=","):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if q:
            cur += ch
            if ch == '"':
                q = False
            continue
        if ch == '"':
            q = True
        if ch in "([{<":
            depth += 1
        if ch in ")]}>":
            depth -= 1
        if ch == sep and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


TYPE_RE = re.compile(r"^(void|ptr|float|double|half|i\d+|\{[^{}]*\}|\[[^\[\]]*\]|<[^<>]*>)")


class Module:
    """all functions of a set of .ll files, indexed by symbol"""

    def __init__(self, files):
        self.funcs = {}
        self.names = {}
        for f in files:
            name, body, header, comment = None, [], None, ""
            for line in open(f, errors="replace"):
                line = line.rstrip("\n")
                if name is None:
                    if line.startswith("define "):
                        m = re.search(r'@("[^"]*"|[\w.$]+)\(', line)
                        name = m.group(1).strip('"')
                        header, body = line, []
                        if comment:
                            self.names[name] = comment
                        comment = ""
                    elif line.startswith("; ") and not line.startswith("; Function Attrs"):
                        comment = line[2:]
                    elif not line.strip():
                        comment = ""
                elif line == "}":
                    self.funcs.setdefault(name, (header, body))
                    name = None
                else:
                    body.append(line)
        self.parsed = {}

    def get(self, name):
        if name in self.parsed:
            return self.parsed[name]
        header, body = self.funcs[name]
        i = header.index("@")
        j = header.index("(", i)
        depth = 0
        for k in range(j, len(header)):
            depth += header[k] == "("
            depth -= header[k] == ")"
            if depth == 0:
                break
        params = []
        for p in split_top(header[j + 1:k]):
            toks = p.split()
            params.append((toks[0], toks[-1].lstrip("%")))
        ret = re.findall(r"(void|ptr|float|double|i\d+|\{[^{}]*\})\s*$", header[:i].strip())
        blocks, order, cur = {}, [], None
        for line in body:
            l = line.strip()
            if not l or l.startswith(";"):
                continue
            m = re.match(r'^("[^"]*"|[\w.$-]+):', line)
            if m:
                cur = m.group(1).strip('"')
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = "0"
                blocks[cur] = []
                order.append(cur)
            blocks[cur].append(l)
        # join multi-line switches
        for b in blocks:
            out, acc = [], None
            for l in blocks[b]:
                if acc is not None:
                    acc += " " + l
                    if l.startswith("]"):
                        out.append(acc)
                        acc = None
                elif l.startswith("switch") and "]" not in l:
                    acc = l
                else:
                    out.append(l)
            blocks[b] = out
        self.parsed[name] = (params, ret[0] if ret else None, blocks, order[0])
        return self.parsed[name]


def fsort(t):
    return z3.Float32() if t == "float" else z3.Float64()


def const(t, s):
    if s in ("poison", "undef"):
        return POISON
    if t in ("float", "double"):
        if s.startswith("0x"):
            bits = int(s[2:], 16)
            d = z3.fpBVToFP(z3.BitVecVal(bits, 64), z3.Float64())
            return d if t == "double" else z3.simplify(z3.fpFPToFP(RNE, d, z3.Float32()))
        if s == "zeroinitializer":
            return z3.FPVal(0.0, fsort(t))
        if s.startswith("f0x"):
            w = 32 if t == "float" else 64
            return z3.fpBVToFP(z3.BitVecVal(int(s[3:], 16), w), fsort(t))
        return z3.FPVal(float(s), fsort(t))
    if t.startswith("i"):
        w = int(t[1:])
        if s == "true":
            return z3.BitVecVal(1, 1)
        if s == "false":
            return z3.BitVecVal(0, 1)
        if s == "zeroinitializer":
            return z3.BitVecVal(0, w)
        return z3.BitVecVal(int(s), w)
    if t == "ptr":
        return Ptr("const:" + s)
    if t.startswith("{"):
        return Agg([POISON] * len(split_top(t[1:-1])))
    raise Unsupported(f"constant {t} {s}")


FLAGS = {"nuw", "nsw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg", "samesign", "noundef", "inbounds", "tail", "musttail", "notail", "volatile"}
BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "sdiv": lambda a, b: a / b, "udiv": z3.UDiv,
       "srem": z3.SRem, "urem": z3.URem, "shl": lambda a, b: a << b, "lshr": z3.LShR, "ashr": lambda a, b: a >> b,
       "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b}
FBIN = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}
ICMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b, "sgt": lambda a, b: a > b,
        "sge": lambda a, b: a >= b, "ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE}


def b2v(c):
    return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


def fcmp(op, a, b):
    un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
    base = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}
    if op == "ord":
        return z3.Not(un)
    if op == "uno":
        return un
    if op == "one":
        return z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))
    if op == "une":
        return z3.Or(un, z3.Not(z3.fpEQ(a, b)))
    if op == "true":
        return z3.BoolVal(True)
    if op == "false":
        return z3.BoolVal(False)
    if op[0] == "o":
        return base[op[1:]](a, b)
    return z3.Or(un, base[op[1:]](a, b))


class State:
    __slots__ = ("env", "mem", "pc", "visits")

    def __init__(self, env, mem, pc, visits):
        self.env, self.mem, self.pc, self.visits = env, mem, pc, visits

    def fork(self, extra):
        return State(dict(self.env), {k: dict(v) for k, v in self.mem.items()}, self.pc + extra, dict(self.visits))


class Exec:
    def __init__(self, module, max_paths=400, max_visits=80, max_depth=30, budget=120):
        self.m = module
        self.max_paths, self.max_visits, self.max_depth = max_paths, max_visits, max_depth
        self.encoded = set()
        self.summaries = set()
        self.fresh = 0
        self.queries = 0
        self.solver_s = 0.0
        self.deadline = time.time() + budget
        self.roots = []
        self.havoc = False

    def feasible(self, pc):
        # IEEE conditions are left to the final query; only pure bit-vector conditions are pruned
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*pc)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        return r != z3.unsat

    def size(self, t):
        if t == "float":
            return 4
        if t in ("double", "ptr"):
            return 8
        if t.startswith("i"):
            return (int(t[1:]) + 7) // 8
        raise Unsupported("size of " + t)

    def val(self, st, t, s):
        s = s.strip()
        if s.startswith("%"):
            v = st.env[s[1:].strip('"')]
            return v
        if s.startswith("@"):
            return Ptr("global:" + s[1:])
        return const(t, s)

    def need(self, v):
        if v is POISON:
            raise Unsupported("poison value used")
        return v

    def operand(self, st, text):
        """`type [attrs] value` -> (type, value)"""
        text = text.strip()
        m = TYPE_RE.match(text)
        if not m:
            raise Unsupported("operand " + text)
        t = m.group(1)
        rest = text[m.end():].strip()
        # drop parameter attributes
        while True:
            m2 = re.match(r"^(noundef|nonnull|noalias|nofree|readonly|readnone|writeonly|writable|zeroext|signext|dead_on_unwind|immarg|inreg|returned|align \d+|captures\([^)]*\)|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|range\([^)]*\)|sret\([^)]*\)|initializes\(\([^)]*\)\))\s+", rest)
            if not m2:
                break
            rest = rest[m2.end():]
        if rest.startswith("inttoptr"):
            return t, Ptr("const")
        return t, self.val(st, t, rest)

    def call(self, name, args, st, depth=0):
        """-> list of (state pc/mem, 'ret'|'panic', value)"""
        if time.time() > self.deadline:
            raise Unsupported("time budget of the path exploration")
        if depth > self.max_depth:
            raise Unsupported("call depth")
        params, _, blocks, entry = self.m.get(name)
        self.encoded.add(self.m.names.get(name, name))
        env = {p[1].strip('"'): a for p, a in zip(params, args)}
        results = []
        work = [(State(env, st.mem, st.pc, {}), entry, None)]
        while work:
            if len(results) + len(work) > self.max_paths:
                raise Unsupported("path count")
            s, blk, prev = work.pop()
            s.visits[blk] = s.visits.get(blk, 0) + 1
            if s.visits[blk] > self.max_visits:
                raise Unsupported("loop bound")
            for kind, a, b in self.block(s, blocks, blk, prev, depth):
                if kind == "goto":
                    work.append((a, b, blk))
                else:
                    results.append((a, kind, b))
        return results

    def block(self, s, blocks, blk, prev, depth):
        ins = blocks[blk]
        states = [s]
        # phis first, simultaneously
        phis = [l for l in ins if re.match(r"^%\S+ = phi ", l)]
        if phis:
            newv = {}
            for l in phis:
                m = re.match(r'^%("[^"]*"|\S+) = phi (?:fast )?(\{[^}]*\}|\S+) (.*)$', l)
                t = m.group(2)
                for a in re.finditer(r'\[ ([^\]]*?), %("[^"]*"|[^\s\]]+) \]', m.group(3)):
                    if a.group(2).strip('"') == prev:
                        newv[m.group(1).strip('"')] = self.val(s, t, a.group(1))
                        break
                else:
                    raise Unsupported("phi " + l)
            s.env.update(newv)
        for idx, l in enumerate(ins):
            if " = phi " in l:
                continue
            l = re.sub(r"(, !\w+(\.\w+)? !\d+)+$", "", l)
            nxt = []
            for st in states:
                r = self.instr(st, l, depth)
                for kind, a, b in r:
                    if kind == "next":
                        nxt.append(a)
                    else:
                        yield (kind, a, b)
            states = nxt
            if not states:
                return
        raise Unsupported("block without terminator")

    def branch(self, st, cond, lt, lf):
        c = z3.simplify(cond == 1)
        if z3.is_true(c):
            return [("goto", st, lt)]
        if z3.is_false(c):
            return [("goto", st, lf)]
        out = []
        for extra, lab in ((c, lt), (z3.simplify(z3.Not(c)), lf)):
            if self.feasible(st.pc + [extra]):
                out.append(("goto", st.fork([extra]), lab))
        return out

    def instr(self, st, l, depth):
        if l.startswith("ret "):
            if l.startswith("ret void"):
                return [("ret", st, None)]
            return [("ret", st, self.operand(st, l[4:])[1])]
        if l.startswith("unreachable"):
            return [("unreachable", st, None)]
        if l.startswith("br "):
            m = re.match(r'^br label %("[^"]*"|[^\s,]+)', l)
            if m:
                return [("goto", st, m.group(1).strip('"'))]
            m = re.match(r'^br i1 (\S+), label %("[^"]*"|[^\s,]+), label %("[^"]*"|[^\s,]+)', l)
            return self.branch(st, self.need(self.val(st, "i1", m.group(1))), m.group(2).strip('"'), m.group(3).strip('"'))
        if l.startswith("switch "):
            m = re.match(r'^switch (i\d+) ([^,]+), label %("[^"]*"|\S+) \[(.*)\]', l)
            t, v = m.group(1), self.need(self.val(st, m.group(1), m.group(2)))
            out, others = [], []
            for c in re.finditer(r'i\d+ (-?\d+), label %("[^"]*"|\S+)', m.group(4)):
                cond = z3.simplify(v == const(t, c.group(1)))
                others.append(z3.Not(cond))
                if self.feasible(st.pc + [cond]):
                    out.append(("goto", st.fork([cond]), c.group(2).strip('"')))
            if self.feasible(st.pc + others):
                out.append(("goto", st.fork(others), m.group(3).strip('"')))
            return out
        if l.startswith("store "):
            parts = split_top(l[6:])
            t, v = self.operand(st, parts[0])
            _, p = self.operand(st, parts[1])
            self.store(st, t, v, p)
            return [("next", st, None)]
        m = re.match(r'^%("[^"]*"|\S+) = (.*)$', l)
        dest, rhs = (m.group(1).strip('"'), m.group(2)) if m else (None, l)
        toks = rhs.split()
        while toks[0] in ("tail", "musttail", "notail"):
            toks = toks[1:]
        op = toks[0]
        if op in ("call", "invoke"):
            return self.docall(st, dest, rhs, depth)
        st.env[dest] = self.pure(st, op, rhs)
        return [("next", st, None)]

    def store(self, st, t, v, p):
        if not isinstance(p, Ptr) or not isinstance(p.off, int) or p.region not in st.mem:
            raise Unsupported("store")
        reg = dict(st.mem[p.region])
        if isinstance(v, Agg) or t.startswith("{"):
            raise Unsupported("aggregate store")
        n = self.size(t)
        for o, (tt, vv) in list(reg.items()):
            if o < p.off + n and p.off < o + self.size(tt):
                del reg[o]
        reg[p.off] = (t, v)
        st.mem[p.region] = reg

    def load(self, st, t, p):
        if not isinstance(p, Ptr) or p.region not in st.mem:
            raise Unsupported("load")
        reg = st.mem[p.region]
        if p.off in reg:
            tt, v = reg[p.off]
            if tt == t:
                return v
            if self.size(tt) == self.size(t):
                return self.bitcast(tt, v, t)
        raise Unsupported("load of a mixed cell")

    def bitcast(self, ft, v, tt):
        if ft == tt:
            return v
        if ft in ("float", "double") and tt.startswith("i"):
            return z3.fpToIEEEBV(v)
        if ft.startswith("i") and tt in ("float", "double"):
            return z3.fpBVToFP(v, fsort(tt))
        raise Unsupported(f"bitcast {ft} to {tt}")

    def pure(self, st, op, rhs):
        body = rhs[len(op):].strip()
        words = body.split()
        while words and words[0] in FLAGS:
            body = body[len(words[0]):].strip()
            words = body.split()
        if op in BIN or op in FBIN:
            parts = split_top(body)
            t, a = self.operand(st, parts[0])
            b = self.val(st, t, parts[1])
            a, b = self.need(a), self.need(b)
            return BIN[op](a, b) if op in BIN else FBIN[op](RNE, a, b)
        if op == "frem":
            raise Unsupported("frem")
        if op == "fneg":
            return z3.fpNeg(self.need(self.operand(st, body)[1]))
        if op == "icmp":
            pred, rest = body.split(None, 1)
            while rest.split()[0] in FLAGS:
                pred, rest = pred, rest.split(None, 1)[1]
            if pred == "samesign":
                pred, rest = rest.split(None, 1)
            parts = split_top(rest)
            t, a = self.operand(st, parts[0])
            b = self.val(st, t, parts[1])
            if t == "ptr":
                raise Unsupported("pointer comparison")
            return b2v(ICMP[pred](self.need(a), self.need(b)))
        if op == "fcmp":
            pred, rest = body.split(None, 1)
            parts = split_top(rest)
            t, a = self.operand(st, parts[0])
            return b2v(fcmp(pred, self.need(a), self.need(self.val(st, t, parts[1]))))
        if op == "select":
            parts = split_top(body)
            _, c = self.operand(st, parts[0])
            _, a = self.operand(st, parts[1])
            _, b = self.operand(st, parts[2])
            c = z3.simplify(self.need(c) == 1)
            if z3.is_true(c):
                return a
            if z3.is_false(c):
                return b
            if isinstance(a, (Ptr, Agg)):
                raise Unsupported("select on aggregates")
            return z3.If(c, self.need(a), self.need(b))
        if op in ("trunc", "zext", "sext", "fptrunc", "fpext", "fptosi", "fptoui", "sitofp", "uitofp", "bitcast"):
            src, tt = body.rsplit(" to ", 1)
            tt = tt.strip()
            t, a = self.operand(st, src)
            a = self.need(a)
            if op == "trunc":
                return z3.Extract(int(tt[1:]) - 1, 0, a)
            if op == "zext":
                return z3.ZeroExt(int(tt[1:]) - a.size(), a)
            if op == "sext":
                return z3.SignExt(int(tt[1:]) - a.size(), a)
            if op in ("fptrunc", "fpext"):
                return z3.fpFPToFP(RNE, a, fsort(tt))
            if op == "fptosi":
                return z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(int(tt[1:])))
            if op == "fptoui":
                return z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(int(tt[1:])))
            if op == "sitofp":
                return z3.fpSignedToFP(RNE, a, fsort(tt))
            if op == "uitofp":
                return z3.fpUnsignedToFP(RNE, a, fsort(tt))
            return self.bitcast(t, a, tt)
        if op == "freeze":
            return self.operand(st, body)[1]
        if op == "extractvalue":
            parts = split_top(body)
            _, a = self.operand(st, parts[0])
            for i in parts[1:]:
                a = a.items[int(i)]
            return a
        if op == "insertvalue":
            parts = split_top(body)
            t, a = self.operand(st, parts[0])
            _, v = self.operand(st, parts[1])
            if len(parts) != 3:
                raise Unsupported("nested insertvalue")
            items = list(a.items)
            items[int(parts[2])] = v
            return Agg(items)
        if op == "alloca":
            self.fresh += 1
            r = f"stack{self.fresh}"
            st.mem = dict(st.mem)
            st.mem[r] = {}
            return Ptr(r)
        if op == "load":
            parts = split_top(body)
            t = parts[0]
            _, p = self.operand(st, parts[1])
            return self.load(st, t, p)
        if op == "getelementptr":
            parts = split_top(body)
            parts[0] = parts[0].split()[-1] if parts[0].split()[0] in FLAGS else parts[0]
            _, p = self.operand(st, parts[1])
            if len(parts) != 3 or not isinstance(p, Ptr):
                raise Unsupported("gep")
            _, i = self.operand(st, parts[2])
            i = z3.simplify(i)
            if not z3.is_bv_value(i):
                raise Unsupported("symbolic gep")
            t = parts[0]
            n = 1 if t == "i8" else self.size(t)
            return Ptr(p.region, p.off + n * i.as_signed_long())
        raise Unsupported("instruction " + op)

    def docall(self, st, dest, rhs, depth):
        if " asm " in rhs:
            m = re.search(r'asm (?:[a-z ]*)"([^"]*)", "([^"]*)"\((.*?)\)(?: #\d+)?$', rhs)
            code = m.group(1) if m else rhs
            if re.search(r"\bsqrts[sd]\b", code):
                args = [self.operand(st, a)[1] for a in split_top(m.group(3))]
                a = [x for x in args if z3.is_fp(x)]
                if len(a) == 1:
                    self.summaries.add("inline assembly sqrtss/sqrtsd = correctly rounded square root")
                    st.env[dest] = z3.fpSqrt(RNE, a[0])
                    return [("next", st, None)]
            raise Unsupported("inline assembly " + code)
        m = re.search(r'@("[^"]*"|[\w.$]+)\(', rhs)
        if not m:
            raise Unsupported("indirect call")
        name = m.group(1).strip('"')
        i = m.end() - 1
        d = 0
        for k in range(i, len(rhs)):
            d += rhs[k] == "("
            d -= rhs[k] == ")"
            if d == 0:
                break
        argtext = rhs[i + 1:k]
        if "panicking" in name or "unwrap_failed" in name or "expect_failed" in name:
            return [("panic", st, name)]
        if name.startswith("llvm."):
            if name.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias")):
                return [("next", st, None)]
            args = [self.operand(st, a)[1] for a in split_top(argtext)]
            v = self.intrinsic(st, name, args)
            if dest:
                st.env[dest] = v
            return [("next", st, None)]
        args = [self.operand(st, a)[1] for a in split_top(argtext)]
        m = re.search(r"fixed4sqrt3u(32|64)$", name)
        if m:
            w = int(m.group(1))
            self.summaries.add(f"fixed::sqrt::u{w} = floor of the exact square root (dependency, trusted)")
            x, fr = args
            fr = z3.simplify(fr)
            if not z3.is_bv_value(fr):
                raise Unsupported("symbolic fraction width")
            k = fr.as_long()
            self.fresh += 1
            r = z3.BitVec(f"isqrt{self.fresh}", w)
            W = 2 * w + 2
            X, R = z3.ZeroExt(W - w, x) << k, z3.ZeroExt(W - w, r)
            ax = [z3.ULE(R * R, X), z3.ULT(X, (R + 1) * (R + 1)), z3.ULT(R, z3.BitVecVal(1 << (w // 2 + (k + 1) // 2 + 1), W))]
            st.pc = st.pc + ax
            self.roots.append((x, k, r))
            st.env[dest] = r
            return [("next", st, None)]
        if name in ("sqrt", "sqrtf") and name not in self.m.funcs:
            self.summaries.add("libc sqrt/sqrtf = correctly rounded square root")
            st.env[dest] = z3.fpSqrt(RNE, self.need(args[0]))
            return [("next", st, None)]
        if name not in self.m.funcs:
            m = re.search(r"\b(float|double|i\d+) $", rhs[:i - len(name) - 1].replace("@", " ") + " ") or re.search(r"\b(float|double|i\d+)\s+@", rhs)
            if not m or any(isinstance(a, (Ptr, Agg)) for a in args):
                raise Unsupported("call to " + name)
            # unknown pure external function: any result (over-approximation)
            self.fresh += 1
            self.summaries.add("unknown result of external " + name)
            self.havoc = True
            t = m.group(1)
            v = z3.FP(f"ext{self.fresh}", fsort(t)) if t in ("float", "double") else z3.BitVec(f"ext{self.fresh}", int(t[1:]))
            if dest:
                st.env[dest] = v
            return [("next", st, None)]
        out = []
        for s2, kind, v in self.call(name, args, st, depth + 1):
            if kind == "ret":
                n = State(dict(st.env), s2.mem, s2.pc, dict(st.visits))
                if dest:
                    n.env[dest] = v
                out.append(("next", n, None))
            else:
                out.append((kind, s2, v))
        return out

    def intrinsic(self, st, name, args):
        n = name.split(".")
        a = [self.need(x) if not isinstance(x, (Ptr, Agg)) else x for x in args]
        k = n[1]
        if k == "sqrt":
            return z3.fpSqrt(RNE, a[0])
        if k == "fabs":
            return z3.fpAbs(a[0])
        if k in ("fma", "fmuladd"):
            return z3.fpFMA(RNE, a[0], a[1], a[2]) if k == "fma" else z3.fpAdd(RNE, z3.fpMul(RNE, a[0], a[1]), a[2])
        if k == "copysign":
            neg = z3.fpIsNegative(a[1])
            ab = z3.fpAbs(a[0])
            return z3.If(neg, z3.fpNeg(ab), ab)
        if k in ("floor", "ceil", "trunc", "rint", "nearbyint", "roundeven", "round"):
            rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "round": z3.RNA()}.get(k, RNE)
            return z3.fpRoundToIntegral(rm, a[0])
        if k in ("minnum", "maxnum"):
            return (z3.fpMin if k == "minnum" else z3.fpMax)(a[0], a[1])
        if k in ("sadd", "ssub", "smul", "uadd", "usub", "umul") and n[2] in ("with", "sat"):
            f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}[k[1:]]
            w = a[0].size()
            ext = (lambda v: z3.SignExt(w + 1, v)) if k[0] == "s" else (lambda v: z3.ZeroExt(w + 1, v))
            full = f(ext(a[0]), ext(a[1]))
            r = f(a[0], a[1])
            ov = full != ext(r)
            if n[2] == "with":
                return Agg([r, b2v(ov)])
            if k[0] == "s":
                lim = z3.If(full < 0, z3.BitVecVal(1 << (w - 1), w), z3.BitVecVal((1 << (w - 1)) - 1, w))
            else:
                lim = z3.BitVecVal(0 if k == "usub" else (1 << w) - 1, w)
            return z3.If(ov, lim, r)
        if k == "abs":
            return z3.If(a[0] < 0, -a[0], a[0])
        if k in ("smax", "smin", "umax", "umin"):
            c = {"smax": lambda x, y: x > y, "smin": lambda x, y: x < y, "umax": z3.UGT, "umin": z3.ULT}[k](a[0], a[1])
            return z3.If(c, a[0], a[1])
        if k in ("ctlz", "cttz"):
            w = a[0].size()
            r = z3.BitVecVal(w, w)
            rng = range(w) if k == "ctlz" else range(w - 1, -1, -1)
            for i in rng:
                r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(w - 1 - i if k == "ctlz" else i, w), r)
            return r
        if k in ("fshl", "fshr"):
            w = a[0].size()
            sh = z3.URem(a[2], z3.BitVecVal(w, w))
            cat, e = z3.Concat(a[0], a[1]), z3.ZeroExt(w, sh)
            return z3.Extract(2 * w - 1, w, cat << e) if k == "fshl" else z3.Extract(w - 1, 0, z3.LShR(cat, e))
        if k in ("fptosi", "fptoui") and n[2] == "sat":
            w = int(n[3][1:])
            x = a[0]
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if k == "fptosi" else (0, (1 << w) - 1)
            so = x.sort()
            conv = (z3.fpToSBV if k == "fptosi" else z3.fpToUBV)(z3.RTZ(), x, z3.BitVecSort(w))
            top = z3.fpRealToFP(RNE, z3.RealVal(1 << (w - 1 if k == "fptosi" else w)), so)
            bot = z3.fpRealToFP(RNE, z3.RealVal(lo), so)
            return z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, w), z3.If(z3.fpGEQ(x, top), z3.BitVecVal(hi, w), z3.If(z3.fpLT(x, bot), z3.BitVecVal(lo, w), conv)))
        if k == "expect":
            return a[0]
        if k == "assume":
            st.pc = st.pc + [a[0] == 1]
            return None
        if k == "bswap":
            b = a[0].size() // 8
            return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a[0]) for i in range(b)])
        if n[-1] in ("f32", "f64", "i32") and k in ("pow", "powi", "exp", "exp2", "log", "log2", "log10", "sin", "cos"):
            self.fresh += 1
            self.summaries.add("unknown result of " + name)
            self.havoc = True
            return z3.FP(f"ext{self.fresh}", fsort("float" if "f32" in n else "double"))
        raise Unsupported("intrinsic " + name)
