"""Shared plumbing of the checks: building, replaying, reporting, evidence."""
import json, os, subprocess, sys, time, hashlib, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
OUT = os.path.join(VERIF, "out")
TOOLCHAIN = "stable"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


def env(toolchain=TOOLCHAIN):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "-Awarnings"
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


class CheckError(Exception):
    """the check could not be carried out (exit 2)"""


def run(cmd, cwd=VERIF, timeout=600, envv=None, check=True):
    p = subprocess.run(cmd, cwd=cwd, env=envv or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, errors="replace")
    if check and p.returncode != 0:
        raise CheckError(f"{' '.join(map(str, cmd))} failed ({p.returncode}):\n{p.stdout[-1500:]}\n{p.stderr[-3000:]}")
    return p


def known_findings(prop):
    """entries {property, key, text}: findings recorded, not repaired"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=" + prop + " "):
                rest = l[len("finding: property=" + prop + " "):]
                key, _, text = rest.partition(" :: ")
                out.append((key.strip(), text.strip()))
    return out


class Report:
    def __init__(self, prop, tier, level, technique):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.cov = {"technique": technique}
        self.assumptions = []
        self.violations = []
        self.notes = []
        self.errors = []
        self.undecided = []   # reported, never an alarm
        self.known = []
        os.makedirs(OUT, exist_ok=True)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    def violation(self, what, payload, key=None):
        """a violation that has been reproduced natively"""
        for k, text in known_findings(self.prop):
            if key is not None and k == key:
                if (k, text) not in self.known:
                    self.known.append((k, text))
                return
        h = hashlib.sha256(json.dumps([what, payload], sort_keys=True, default=str).encode()).hexdigest()[:12]
        path = os.path.join(OUT, f"{self.prop}-{h}.json")
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, what=what, **payload), f, indent=1, default=str)
        self.violations.append((what, path))

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if self.undecided:
            ev["coverage"]["undecided_core_instances"] = self.undecided
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        if self.known:
            ev["coverage"]["known_findings"] = [k for k, _ in self.known]
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, t in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {t}")
        for w, p in self.violations[:20]:
            print(f"  {w}")
            print(f"VIOLATION property={self.prop} replay={p}")
        for e in self.undecided:
            print("NOT-DECIDED:", e)
        for e in self.errors:
            print("ERROR:", e)
        sys.stdout.flush()
        if self.violations:
            return 1
        if self.errors:
            return 2
        print(f"OK property={self.prop} tier={self.tier} wall={time.time()-self.t0:.1f}s")
        return 0
