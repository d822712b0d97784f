"""Writes MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
TECH = {
 "C01": "TLA+ expression machine over exact numbers (Gen, Expr); behaviours generated by TLC replayed as C++ expressions",
 "C02": "TLA+ expression machine and storage machine (Expr, Storage) assumed independent of representation; TLC behaviours replayed with every representation, storage kind, precision and conversion",
 "C07": "TLA+ state machine of variables, expression objects and statements (Storage); TLC behaviours replayed as C++ programs under AddressSanitizer and UBSan",
 "C15": "TLA+ storage machine with part assignment (Storage) and expression machine (Expr); TLC behaviours replayed, values and Jacobians",
 "C03": "TLA+ exact exp/log/plus/minus (Lie, Expr); TLC results replayed on the library at zero, small, half-turn and longer rotations",
 "C04": "TLA+ machine carrying exact Jacobians (Expr); TLC results compared with jacobian() of the generated C++ expressions",
 "C05": "TLA+ machine with exact Jacobians (Expr); every differentiation method of the library replayed on the TLC behaviours",
 "C06": "TLA+ machine of framed quantities and statements with verdicts (Frames), its rules checked for soundness and necessity against poses; TLC enumerates single statements and simulates programs, and the compiler's verdict and result frames are compared",
 "C08": "TLA+ machine of proxies and the heap of expressions they hold (Dynamic); TLC behaviours interpreted by the library, values and every kind of Jacobian",
 "C09": "TLA+ grammar with symbolic constants (Gen, Expr); TLC behaviours with Identity/Zero replayed, values and Jacobians",
 "C11": "TLA+ machine of compound variables and expressions with exact Jacobians (Compound, CubeJac); TLC behaviours replayed as C++ programs, framed and unframed",
 "C16": "TLA+ machine of matrices, structured forms, blocks, diagonals and maps (Matrices); TLC behaviours replayed as C++ programs under exact comparison",
 "C12": "TLA+ machine of a factor graph: measurement functors as programs, variables, parameters, factors with noise (Factors, Noise, CubeJac); TLC behaviours replayed as C++ programs",
 "C13": "TLA+ machine of covariances with exact inverses and of noise models made of them (Noise, NoiseRun); TLC behaviours replayed on both models, in double and single precision",
 "C17": "TLA+ machine of values with small displacements carried by exact Jacobians, deciding every comparison exactly (Approx, CubeJac); laws (symmetry, monotonicity, triangle) checked by TLC, behaviours replayed",
 "C14": "TLA+ machine of variables with identity and expressions over them (Identity); TLC behaviours replayed: derivatives with respect to occurring, equal-valued and absent variables by every method, isSame of every pair of expressions",
 "C10": "TLA+ vector, point and scalar algebra (Expr) over exact numbers; TLC behaviours replayed",
}
NOTE = "Exact oracle from the TLA+ machine; conformance within floating point tolerance on the behaviours TLC generated (seeded simulation), greedy coverage of operation/operand/representation pairs; g++ with assertions enabled. "
NOTES = {}
try:
    from notes import TECH as T2, NOTES as N2
    TECH.update(T2); NOTES.update(N2)
except ImportError:
    pass
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true",
     "hooks": {"guard": "WAVE_GEOMETRY_VERIF", "enable": "no hooks are needed: the public interface exposes the abstract state; the define is not used", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in TECH:
        m["checks"].append({"property": i, "quick_cmd": "python3 -m wv %s --tier quick" % i,
                            "thorough_cmd": "python3 -m wv %s --tier thorough" % i,
                            "technique": TECH[i], "level": "model_checking",
                            "level_note": NOTES.get(i, NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
m["notes"] = "TLA+ with TLC. See DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
