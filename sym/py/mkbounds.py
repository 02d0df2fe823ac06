"""Writes sym/bounds.json and MANIFEST.json (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
B = {"_common": [
    "scalars are real numbers in the encoding: every operation of the compiled code is taken exactly, rounding, overflow and NaN inputs are outside (except where a property says bit for bit, or the bit-precise mode is used)",
    "LLVM IR produced by rustc for the harness, cam-geom, nalgebra and std (optimiser off, debug assertions and overflow checks on) means what the compiled program does",
    "the solver z3 and, for the simplified queries, the polynomial normaliser sym/py/poly.py (cross-checked by plain queries without it, counted under cross_checked)"]}
REAL = "all real values of every input listed in the harness (no range limit) for the f64 and the f32 instance; loops run over the concrete batch size of the harness (%s)"
def p(pid, bounds, outside, assumptions, claimed=True):
    B[pid] = dict(bounds=bounds, outside=outside, assumptions=assumptions)
Q = "rotations are given as exactly unit quaternions"
p("C01", REAL % "one point", "rounding error size", [Q])
p("C02", REAL % "one point, two for distances", "rounding error size", [Q])
p("C03", REAL % "one point", "rounding error size", [Q])
p("C04", REAL % "no batch" + "; independence of the centre is decided bit for bit when both computations are one and the same term, and otherwise over the reals plus a directed search at centres up to 1e18", "rounding error size of the directions themselves", [Q])
p("C05", REAL % "one view", "centre equal to look-at, up exactly parallel to the view (excluded by the statement); rounding error near these degenerate cases", ["every non-degenerate view is c, c + rho F e3, a F e3 + b F e2 with F a rotation, rho > 0, b > 0, a^2+b^2 = 1"])
p("C06", REAL % "one point", "rounding error size", ["z != 0"])
p("C07", REAL % "one pixel", "rounding error size", ["fx != 0 and fy != 0, z != 0, distance != 0"])
p("C08", REAL % "one pixel", "rounding error size", ["sx != 0 and sy != 0"])
p("C09", REAL % "one pixel", "rounding error size", [Q, "fx, fy (sx, sy) != 0; the point is not in the centre plane"])
p("C10", REAL % "two rays", "zero direction vectors; rounding error size", ["direction vectors are nonzero"])
p("C11", REAL % "two rays", "zero direction vectors for points at a distance; rounding error size", [Q])
p("C12", "every value of every row (terms over uninterpreted operations: any IEEE rounding, NaN and infinities included); dynamic batch sizes 0 to 130, 140, 160, 180, 200, 255 to 257, 500, 512, 1000, 1024, 2048 (thorough: also 4097), 1 to 8, 16, 32 statically sized, and four kinds of views; one to three rows also bit-precisely (QF_FP), where rows are treated by cases of NaN or infinity", "other batch sizes; strided views other than those listed", ["floating-point operations are deterministic functions of their operands"])
p("C13", "all real fx, fy > 0, skew, cx, cy, centre, scale != 0 (both signs); rotations: four rational matrices followed by the 24 turns of the cube, and rotations by any angle about an axis followed by the turns (covering every branch of the quaternion conversion)", "quick: other rotations (thorough: all rotations, as far as they are decided in time, see undecided); rounding error size; matrices of rank < 3", ["the rotation is one of the listed ones"])
p("C14", REAL % "one point", "rounding error size; overflow of the normalisation when the last entry is subnormal", [Q, "fx, fy != 0; the point is not in the centre plane"])
p("C15", REAL % "one point", "rounding error size", [Q, "fx, fy != 0; the point is not in the centre plane"])
p("C16", "every bit pattern of the twelve entries, f64 and f32 (QF_FP, no range limit)", "-", [])
p("C17", "all values of every parameter; every permutation, omission, duplication and unknown key, both containers, decided path by path", "formats that are not self-describing beyond sequences", ["the in-memory (de)serialiser of the harness follows the serde data model"])
p("C18", "22 listed sets of 2 to 9 directions (six of them narrow, down to 1/128), six choices of lengths and signs, both orders, and sets of 10 to 129 directions: centres anywhere in a box of half-width 10 (common point and distances along the rays within 10), result within 2e-4 (f32: 4e-3), for narrow sets times the ratio of conditions, the singular value decomposition being executed concretely; and two to five (thorough: seven) rays of any directions, any nonzero lengths and any centres, and two cameras (fixed rotations and intrinsics, any position of one, any point), the decomposition being replaced by parts whose product is the inverse", "rays with nearly parallel directions closer than the listed sets, where the code's own cut-off 1e-7 dominates; more rays with other directions than listed", ["for the obligations anydirection and triangulate: the singular value decomposition U S V^T of a nonsingular 3x3 matrix satisfies V S^-1 U^T = inverse, and the first two directions are not parallel"])
p("C19", REAL % "one row, and 0, 1, 2, 3, 5, 8, 33 rows", "rounding error size; bundle types of the user (the crate offers no way to make one)", [Q])
p("C21", REAL % "two objects; bundles of two rays", "NaN parameters; rounding error size", [Q])
p("C20", "every value of the displaced coordinate; every pixel of nine small grids, nine pixels (corners, edges, inside) of nine large ones up to 1001 columns and 481 rows", "other grids; camera models with other shapes of error", [])
p("C22", "sequences of up to ten sets of calls on two sets of objects (two poses, two intrinsics of either model, two points, two pixels, two bundles, batches of 0 to 5 rows), with fixed calls on twelve other cameras in between; all values (terms over uninterpreted operations: any IEEE rounding); from_view, from_perspective_matrix and best_intersection_of_rays with fixed directions, rotations and intrinsics and any centre or scale", "longer histories; concurrent calls from several threads", [Q])
p("C23", "all real magnitudes of every input of one row (first-order rounding error of every operation, at most 4000 unit roundoffs times the scale stated with each result); f64 and f32; replays demand four times that", "overflow, underflow and terms of second order; from_view, from_perspective_matrix, best_intersection_of_rays (trigonometry and iterative decompositions)", [Q, "denominators named in the scales are not zero"])
p("C24", "every bit pattern of every input not listed as fixed, f64 and f32 (QF_FP); one NaN at every position of every argument; any four numbers as a rotation; one row; recovered cameras: a fixed 3x3 part and any last column; intersections: two and three rays with fixed directions, one coordinate of each centre any number, and one NaN or infinity", "matrices with other 3x3 parts and rays with other directions; NaN depth in the orthographic model (its pixel need not depend on it)", ["for fully special operands the encoding uses the rules of IEEE 754 (x op NaN, x op infinity, x op 0) instead of the circuit of z3"])
EV = "A run rebuilds LLVM IR of the real crate, executes it symbolically and lets z3 decide every assertion for all values; exact over the reals, so rounding is outside. Counterexamples are replayed on dev and release builds before they are reported. Trusts rustc's IR, the rewriting of float operations (validated against native runs on every check) and z3."
LN = {"C23": "Standard model of rounding (every operation within one unit roundoff): the accumulated first-order error of each result, a polynomial in the magnitudes of the inputs, is compared with the stated scale by the solver for all magnitudes. Counterexamples are confirmed on the real code against 60-digit arithmetic. Trusts rustc's IR, the rewriting and the error model.",
      "C22": "Bit-for-bit: asked again after other work, every result is proved to be the same term over uninterpreted float operations, so it holds for any rounding. The sequences of calls are the listed ones. Trusts rustc's IR, the rewriting and z3.",
      "C12": "Bit-for-bit: each row of the batch result is proved to be the same term over uninterpreted float operations as the single-row result, so it holds for any rounding, NaN or infinity. Batch sizes are the listed ones. Trusts rustc's IR and the rewriting.",
      "C24": "Bit-precise (QF_FP): every path of the compiled code is decided for all bit patterns of the inputs, NaN and infinities included; absence of panics is shown on every path, feasible or not. Trusts rustc's IR, the rewriting and z3's floating-point theory.",
      "C16": "Bit-precise (QF_FP): every path of the compiled acceptance test is decided for all bit patterns of the entries. Trusts rustc's IR, the rewriting and z3's floating-point theory."}
import sys
done = [x for x in B if x != "_common" and (len(sys.argv) < 2 or x in sys.argv[1].split(","))]
json.dump(B, open(os.path.join(V, "sym", "bounds.json"), "w"), indent=1)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
M = dict(version=1, setup_cmd="./check.py --setup", checks=[], not_applicable=[], notes="DESIGN.md describes the machinery; known-findings.txt lists defects repaired or recorded.")
for i in ids:
    if i in done:
        M["checks"].append(dict(property=i, quick_cmd=f"./check.py {i} quick", thorough_cmd=f"./check.py {i} thorough",
                                technique="symbolic execution of the compiled crate's LLVM IR + SMT (z3)", level="model_checking", level_note=LN.get(i, EV)))
    else:
        M["not_applicable"].append(dict(property=i, reason="check under construction"))
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
