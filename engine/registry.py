"""Which machinery decides which property."""
import common
from common import Report

TECH_SYMEX = "symbolic execution of the compiled generic code + z3 (nonlinear real arithmetic), counterexamples replayed natively"
NOTE_SYMEX = ("For every value of every symbolic input, at the shapes, storage kinds, step counts and feature sets listed in the evidence, "
              "z3 shows the obligation on every path of the real monomorphised code. Trusts: rustc, the symbolic number type, z3, exact real arithmetic instead of rounding.")
SYMEX = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C23", "C25", "C26", "C27", "C28", "C30"]
CLAIMS = {i: dict(technique=TECH_SYMEX, note=NOTE_SYMEX) for i in SYMEX}
TECH_IR = "symbolic execution of the emitted LLVM IR + z3 (bit vectors, IEEE floats), counterexamples replayed natively"
NOTE_IR = ("For every operand bit pattern, z3 shows the result of the real implementation equals the correctly rounded one (floats) or lies within the stated distance "
           "(fixed point). Trusts: rustc's front end, the IR executor, z3, the fixed crate's integer square root.")
CLAIMS["C22"] = dict(technique=TECH_IR, note=NOTE_IR)
TECH_FX = "symbolic execution of the compiled generic code with symbolic roundings + z3 (linear and nonlinear real arithmetic), counterexamples replayed natively on I16F16"
NOTE_FX = ("For every operand within the stated bounds and every rounding of each product, quotient and root by less than one unit, z3 shows that nothing leaves the 16.16 range and "
           "that the result stays within the stated tolerance of the textbook formula. Trusts: rustc, the symbolic number type, z3, the fixed crate's roundings.")
CLAIMS["C24"] = dict(technique=TECH_FX, note=NOTE_FX)
TECH_FL = "symbolic execution of the compiled generic code with symbolic relative roundings + z3 (linear real arithmetic over monomial magnitudes), counterexamples replayed natively in single precision"
NOTE_FL = ("For every input and every relative rounding of each operation by at most u, z3 shows that the computed result deviates from the exact value of the textbook formula by at most "
           "the stated number of roundings of the formula's own terms. Trusts: rustc, the symbolic number type, z3, the standard model of floating-point arithmetic without overflow or underflow.")
CLAIMS["C29"] = dict(technique=TECH_FL, note=NOTE_FL)
NOT_APPLICABLE = {}
NOTES = "See DESIGN.md."


def run_check(prop, tier):
    if prop in SYMEX:
        import symex_check
        rep = Report(prop, tier, "model_checking", TECH_SYMEX)
        kw = {}
        if prop == "C23":
            kw["configs"] = list(symex_check.CONFIGS_ALL) if tier == "thorough" else symex_check.QUICK_ALL
        if prop == "C26":
            kw["configs"] = [c for c, (f, _) in symex_check.CONFIGS_ALL.items() if "nalgebra" in f and "unsafe" in f]
            if tier == "quick":
                kw["configs"] = ["nalgebra-dev", "noalloc-nalgebra-dev", "unsafe-release", "everything-release"]
        symex_check.check(rep, prop.lower(), tier, **kw)
        return rep.finish()
    if prop == "C22":
        import numx_check
        rep = Report(prop, tier, "model_checking", TECH_IR)
        numx_check.check(rep, tier)
        return rep.finish()
    if prop == "C24":
        import fx
        rep = Report(prop, tier, "model_checking", TECH_FX)
        fx.check(rep, tier)
        return rep.finish()
    if prop == "C29":
        import fl
        rep = Report(prop, tier, "model_checking", TECH_FL)
        fl.check(rep, tier)
        return rep.finish()
    raise common.CheckError("no check for " + prop)
