"""Check of one property with the symbolic-execution harness (/verif/symex)."""
import fcntl, glob, json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from multiprocessing import Pool
from fractions import Fraction
import common
from common import CheckError, run, VERIF, BUILD
import prover

CONFIGS = {
    # name: (features, release?)
    "std-dev": (["std", "fixed", "unsafe"], False),
    "libm-release": (["libm", "alloc"], True),
    "noassert-release": (["std", "micromath", "no_assert"], True),
    # thorough only
    "nalgebra-dev": (["std", "fixed", "unsafe", "nalgebra"], False),
    "libm-dev": (["libm", "fixed", "alloc"], False),
    "noassert-unsafe-dev": (["libm", "no_assert", "unsafe", "alloc"], False),
    "unsafe-release": (["std", "fixed", "unsafe", "nalgebra"], True),
    "micromath-dev": (["micromath", "std"], False),
    "bare-dev": (["alloc"], False),
}
# further feature sets for the property about feature sets (C23)
CONFIGS_ALL = {
    **CONFIGS,
    "noalloc-dev": ([], False),
    "noalloc-noassert-release": (["micromath", "no_assert", "unsafe"], True),
    "noalloc-nalgebra-dev": (["libm", "unsafe", "nalgebra"], False),
    "libm-micromath-release": (["libm", "micromath", "fixed", "alloc"], True),
    "micromath-noassert-dev": (["micromath", "no_assert", "alloc", "fixed"], False),
    "everything-release": (["std", "libm", "micromath", "fixed", "unsafe", "nalgebra", "no_assert"], True),
    "everything-dev": (["std", "libm", "micromath", "fixed", "unsafe", "nalgebra", "no_assert"], False),
    "asserting-release": (["std", "libm", "micromath", "fixed", "unsafe", "nalgebra"], True),
    "std-release": (["std"], True),
    "unsafe-only-release": (["unsafe", "alloc"], True),
    "nalgebra-safe-release": (["nalgebra", "libm", "no_assert"], True),
}
QUICK_ALL = ["std-dev", "noalloc-dev", "noalloc-nalgebra-dev", "micromath-noassert-dev", "everything-dev",
             "libm-micromath-release", "everything-release", "unsafe-only-release"]
QUICK = ["std-dev", "libm-release", "noassert-release"]
REPLAY_ORDER = ["std-dev"]


def build(cfg, feature):
    feats, rel = CONFIGS_ALL[cfg]
    td = os.path.join(BUILD, "symex-" + cfg)
    cmd = ["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "symex/Cargo.toml"),
           "--target-dir", td, "--features", ",".join(feats + [feature])]
    if rel:
        cmd.append("--release")
    os.makedirs(td, exist_ok=True)
    own = os.path.join(td, "symex-" + feature)
    with open(os.path.join(td, "lock"), "w") as l:   # the checks of other properties build the same binary
        fcntl.flock(l, fcntl.LOCK_EX)
        run(cmd, timeout=800)
        tmp = f"{own}.{os.getpid()}"
        shutil.copyfile(os.path.join(td, "release" if rel else "debug", "symex"), tmp)
    os.chmod(tmp, 0o755)
    os.replace(tmp, own)
    return own


def functions_encoded(binary):
    """monomorphised minikalman functions contained in the harness binary"""
    try:
        p = subprocess.run(["nm", "-C", "--defined-only", binary], stdout=subprocess.PIPE, text=True, timeout=60)
    except Exception:
        return []
    out = set()
    for l in p.stdout.splitlines():
        m = re.search(r" [tTwW] (.*)$", l)
        if m and "minikalman" in m.group(1):
            s = re.sub(r"::h[0-9a-f]{16}$", "", m.group(1))
            # drop type parameters
            prev = None
            while prev != s:
                prev = s
                s = re.sub(r"<[^<>]*>", "", s)
            name = s.split("::")[-1]
            if re.match(r"^[A-Za-z_][A-Za-z0-9_]*$", name):
                out.add(name)
    return sorted(out)


def write_values(path, scenario, values):
    with open(path, "w") as f:
        f.write(f"# scenario {scenario}\n")
        for k, v in values.items():
            f.write(f"{k} {float(v)!r}\n")


def replay(binary, scenario, values):
    fd, p = tempfile.mkstemp(dir=common.OUT, suffix=".vals")
    os.close(fd)
    try:
        write_values(p, scenario, values)
        r = subprocess.run([binary, "replay", scenario, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        return r.returncode, r.stdout
    finally:
        os.unlink(p)


def native_values(binary, scenario, values):
    fd, p = tempfile.mkstemp(dir=common.OUT, suffix=".vals")
    os.close(fd)
    try:
        write_values(p, scenario, values)
        r = subprocess.run([binary, "values", scenario, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        out = []
        for l in r.stdout.splitlines():
            a = l.rsplit(" ", 2)
            out.append((a[0], float(a[1]), float(a[2])))
        return out
    finally:
        os.unlink(p)


AFTER_VIOLATION = 10   # s


def unsolved(path, why):
    d = json.load(open(path))
    return dict(name=d["name"], core=d["core"], failures=[], undecided=[why], stats={}, complete=True, witness=None, nodes=0, ops=0, varcount=0)


def fails_natively(bins, cf, r):
    for f in r["failures"]:
        if any(replay(bins[c], r["name"], f["values"])[0] == 3 for c in cf):
            return True
    return any(fp_search(bins[c], r["name"], cls) for _, cls in r.get("fp_failures", []) for c in cf)


def check(rep, feature, tier, configs=None, max_paths=None, max_dec=None, scen_budget=None, total_budget=None, workers=8):
    thorough = tier == "thorough"
    max_paths = max_paths or (3000 if thorough else 300)
    max_dec = max_dec or 64
    scen_budget = scen_budget or (1500 if thorough else 90)
    total_budget = total_budget or (3000 if thorough else 300)
    cfgs = configs or (list(CONFIGS) if thorough else QUICK)
    t_start = time.time()
    tb = time.time()
    with ThreadPoolExecutor(4) as ex:
        bins = dict(zip(cfgs, ex.map(lambda c: build(c, feature + ("-thorough" if thorough else "")), cfgs)))
    build_s = time.time() - tb
    # --- symbolic execution
    work = tempfile.mkdtemp(prefix="dump-", dir=common.OUT)
    try:
        return _check(rep, feature, cfgs, bins, work, max_paths, max_dec, scen_budget, total_budget, workers, build_s, t_start)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def dump_all(bins, cfgs, work, max_paths, max_dec, total_budget):
    """symbolic runs of every configuration into work/<configuration>/, in parallel shards; what does
    not fit into a third of the time is left incomplete (and so not decided)"""
    shards = 4
    end = time.time() + total_budget / 3

    def one(job):
        c, k = job
        env = dict(os.environ, SYMEX_SHARD=str(k), SYMEX_SHARDS=str(shards), SYMEX_SCENARIO_S=str(total_budget // 10), SYMEX_TOTAL_S=str(max(3, int(end - time.time()))))
        p = subprocess.run([bins[c], "dump", os.path.join(work, c), str(max_paths), str(max_dec)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=total_budget, env=env)
        return c, p.returncode, p.stdout[-1000:]
    for c in cfgs:
        os.mkdir(os.path.join(work, c))
    # configurations one after the other within a worker's reach: the first ones finish first
    with ThreadPoolExecutor(8) as ex:
        for c, rc, out in ex.map(one, [(c, k) for c in cfgs for k in range(shards)]):
            if rc != 0:
                raise CheckError(f"symbolic run failed in {c}: {out}")


def _check(rep, feature, cfgs, bins, work, max_paths, max_dec, scen_budget, total_budget, workers, build_s, t_start):
    jobs = {}   # content hash -> (file, [cfgs])
    order = []
    dump_s = time.time()
    dump_all(bins, cfgs, work, max_paths, max_dec, total_budget)
    dump_s = time.time() - dump_s
    for c in cfgs:
        for f in sorted(glob.glob(os.path.join(work, c, "*.json"))):
            b = open(f, "rb").read()
            if b in jobs:
                jobs[b][1].append(c)
            else:
                jobs[b] = (f, [c])
                order.append(b)
    tasks = [(jobs[b][0], common.SEED, scen_budget, 4000) for b in order]
    known_keys = {k for k, _ in common.known_findings(rep.prop)}
    pool = Pool(workers)
    got = {}
    try:
        # most workers take the smallest remaining file, two the largest: small instances report early, big ones do not end up last
        todo = sorted(range(len(tasks)), key=lambda i: os.path.getsize(tasks[i][0]))
        asy, big = {}, set()
        deadline = t_start + total_budget
        while (asy or todo) and time.time() < deadline:
            while todo and len(asy) < workers:
                if len(big) < 2:
                    i = todo.pop()
                    big.add(i)
                else:
                    i = todo.pop(0)
                asy[i] = pool.apply_async(prover.solve_file, (tasks[i],))
            ready = [i for i, a in asy.items() if a.ready()]
            for i in ready:
                big.discard(i)
                try:
                    got[i] = asy.pop(i).get()
                except Exception as ex:
                    got[i] = unsolved(tasks[i][0], f"solver process: {ex!r}"[:300])
                if known_keys.isdisjoint({got[i]["name"]}) and fails_natively(bins, jobs[order[i]][1], got[i]):
                    # one reproduced violation decides the outcome: only finish what is nearly done
                    deadline = min(deadline, time.time() + AFTER_VIOLATION)
            if not ready:
                time.sleep(0.02)
    finally:
        pool.terminate()
        pool.join()
    results = [(got.get(i) or unsolved(tasks[i][0], "not reached: time limit of the whole check"), jobs[order[i]][1], tasks[i][0])
               for i in range(len(tasks))]
    # --- results
    tot = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, merges=0, paths=0, infeasible=0, obligations=0, proved=0, witnessed=0)
    nodes = ops = 0
    decided, notdecided = [], []
    seen_fail = set()
    validated = 0
    samples = []
    for r, cf, path in results:
        for k in tot:
            tot[k] += r["stats"].get(k, 0)
        nodes += r["nodes"]
        ops += r["ops"]
        label = f"{r['name']} [{','.join(cf)}]"
        reproduced = False
        for f in r["failures"]:
            rc, out = None, ""
            for c in sorted(cf, key=lambda c: c not in REPLAY_ORDER):
                rc, out = replay(bins[c], r["name"], f["values"])
                if rc == 3:
                    break
            if rc == 3:
                reproduced = True
                rep.violation(f"{r['name']}: {f['what']}",
                              dict(scenario=r["name"], config=c, obligation=f["what"], solver=f["confirmed"], values=f["values"],
                                   exact=f["exact"], native=out.strip().splitlines()[:20],
                                   how=f"run '{os.path.relpath(bins[c], VERIF)} replay' with these values"), key=r["name"])
                break
            else:
                rep.undecided.append(f"{label}: counterexample for '{f['what']}' (solver: {f['confirmed']}) does not reproduce natively: {out.strip()[-300:]}")
        for what, cls in r.get("fp_failures", []):
            hit = None
            for c in cf:
                hit = fp_search(bins[c], r["name"], cls)
                if hit:
                    break
            if hit:
                rc, out = replay(bins[c], r["name"], hit)
                rep.violation(f"{r['name']}: {what}", dict(scenario=r["name"], config=c, obligation=what, classes=cls, values=hit,
                              native=out.strip().splitlines()[:20]), key=r["name"])
                reproduced = True
            else:
                r["undecided"].append(f"{what}: class-level counterexample {cls} not concretised")
        # floating-point scenarios: numbers of the classes of some feasible paths, run natively
        for cls in r.get("fp_models", []):
            if reproduced:
                break
            c = sorted(cf, key=lambda c: c not in REPLAY_ORDER)[0]
            hit = fp_search(bins[c], r["name"], cls, 100)
            validated += 1
            if hit:
                rc, out = replay(bins[c], r["name"], hit)
                rep.violation(f"{r['name']}: native run fails", dict(scenario=r["name"], config=c, values=hit, native=out.strip().splitlines()[:20]), key=r["name"])
                reproduced = True
        # encoding validated against the native run at the witness point
        if r["witness"] and not reproduced:
            vals = {k: Fraction(a, b) for k, (a, b) in r["witness"].items()}
            c = sorted(cf, key=lambda c: c not in REPLAY_ORDER)[0]
            rc, out = replay(bins[c], r["name"], vals)
            if rc == 3:
                rep.violation(f"{r['name']}: native run fails", dict(scenario=r["name"], config=c, values={k: float(v) for k, v in vals.items()},
                              native=out.strip().splitlines()[:20]), key=r["name"])
                reproduced = True
            else:
                mism = compare_native(bins[c], r["name"], vals, path)
                if mism:
                    rep.undecided.append(f"{label}: encoding disagrees with the native run: {mism}")
                validated += 1
        if r["stats"].get("witnessed", 0) == 0 and not r["undecided"] and not r["failures"]:
            r["undecided"].append("vacuous: no path has a numeric witness")
        if not r["complete"]:
            r["undecided"].append("path exploration truncated")
        if r["undecided"] and not r["failures"]:
            notdecided.append((label, r["undecided"][:3]))
            if r["core"]:
                rep.undecided.append(f"core instance {label} not decided: {r['undecided'][:2]}")
        elif not r["failures"] and not reproduced:
            decided.append(label)
        if len(samples) < 4:
            samples.append(dict(scenario=r["name"], configs=cf, symbolic_inputs=r["varcount"], dag_nodes=r["nodes"], stats=r["stats"]))
    if not decided and not rep.violations and not rep.known:
        rep.errors.append("no scenario could be decided")
    slow = sorted(((r.get("wall", 0), r["name"]) for r, _, _ in results), reverse=True)[:6]
    rep.cov.update(dict(
        slowest_scenarios_s=slow,
        states=nodes, transitions=ops, traces_validated_against_impl=validated, samples=samples,
        scenarios_decided=len(decided), scenarios=decided, not_decided=notdecided,
        symbolic_paths=tot["paths"], infeasible_paths=tot["infeasible"], witnessed_paths=tot["witnessed"],
        obligations=tot["obligations"], discharged=tot["proved"],
        queries=tot["queries"], unsat=tot["unsat"], sat=tot["sat"], unknown=tot["unknown"], solver_s=round(tot["solver_s"], 2),
        merges_proved=tot["merges"], build_s=round(build_s, 1), symbolic_execution_s=round(dump_s, 2), configs=cfgs,
        functions_encoded=functions_encoded(bins[cfgs[0]]), solver="z3 " + prover.z3.get_version_string(),
        meaning="states = distinct symbolic values computed by the code and the reference; transitions = symbolic operations executed",
    ))
    rep.assumptions += [
        {"C28": "values are abstracted to IEEE classes; comparisons may come out either way or unordered",
         "C24": "values are exact multiples of 2^-16 with one unknown rounding per product, quotient and root",
         }.get(rep.prop, "arithmetic is exact (real numbers); rounding and overflow are outside this check (see C22, C24)"),
        *(["scenarios named '... any contents' and '... leftovers' abstract values to IEEE classes instead; comparisons may come out either way or unordered"]
          if rep.prop in ("C05", "C06", "C07", "C08", "C12", "C13", "C15", "C16", "C17", "C18", "C20") else []),
        "rustc compiles the generic code for the symbolic number type as it does for the real ones",
        "bounds: the shapes, storage kinds, step counts and feature sets named in coverage.scenarios",
    ]
    return results


SEARCH_S = dict(one=20, all=90, used=0)   # limits for looking for concrete numbers of given classes
SEARCHED = {}


def fp_search(binary, name, cls, limit=20000):
    """numbers of the given classes on which the scenario fails natively"""
    key = (binary, name, limit, json.dumps(cls, sort_keys=True))
    if key not in SEARCHED:
        SEARCHED[key] = fp_search_(binary, name, cls, limit)
    return SEARCHED[key]


def fp_search_(binary, name, cls, limit):
    import fpclass
    left = SEARCH_S["all"] - SEARCH_S["used"]
    if left <= 0:
        return None
    t0 = time.time()
    cands = list(fpclass.candidates(cls, common.SEED, max(20, min(limit, 400000 // (len(cls) + 1)))))
    fd, p = tempfile.mkstemp(dir=common.OUT, suffix=".vals")
    os.close(fd)
    try:
        with open(p, "w") as f:
            f.write("---\n".join("".join(f"{k} {v!r}\n" for k, v in c.items()) for c in cands))
        r = subprocess.run([binary, "search", name, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=min(left, SEARCH_S["one"]))
        t = r.stdout.strip()
        return cands[int(t)] if t.isdigit() else None
    except subprocess.TimeoutExpired:
        return None
    finally:
        SEARCH_S["used"] += time.time() - t0
        os.unlink(p)


def compare_native(binary, name, vals, path):
    """translator validation: obligations' values from the DAG vs the native run"""
    data = json.load(open(path))
    sc = prover.Scenario(data, common.SEED)
    v = sc.evaluate(vals)
    target = None
    for p in data["paths"]:
        if not p["panic"] and sc.path_holds(p, v):
            target = p
            break
    if target is None:
        return "no path matches the witness"
    nat = [x for x in native_values(binary, name, vals)]
    ob = [o for o in target["events"] if o[0] == "O" and o[1] == "eq"]
    if len(nat) != len(ob):
        return f"{len(ob)} obligations symbolically, {len(nat)} natively"
    for o, (n, g, w) in zip(ob, nat):
        if o[4] != n:
            return f"order differs at {n}"
        for i, x in ((o[2], g), (o[3], w)):
            if v[i] is None:
                continue
            d = float(v[i])
            if abs(d - x) > 1e-5 * (1 + abs(d)):
                return f"{n}: encoding {d}, native {x}"
    return None
