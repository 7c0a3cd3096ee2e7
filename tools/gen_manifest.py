"""Writes MANIFEST.json from the table below and properties.jsonl (every property is claimed or listed as not applicable)."""
import json, pathlib
R = pathlib.Path(__file__).resolve().parent.parent
VS = "symbolic execution of the C monitor's LLVM IR (BDD-guarded), verdict by z3"
PS = "symbolic execution of the compiler's Python on z3 terms (pysym), equivalence decided by z3"
CLAIMS = {
 "C01": (VS, "other", "For each enumerated specification (all operators, all small intervals, nested, seeded) every trace of the bounded length is decided; specifications outside the families and longer traces are not. Trusts clang's IR generation, vsym and z3; counterexamples are replayed natively."),
 "C02": (VS, "other", "As C01, for past-time specifications."),
 "C03": (VS, "other", "As C01: order, completeness and deadline of verdicts for every trace of the bounded length."),
 "C05": (VS, "other", "Each enumerated specification is compiled with --write-bounds and the monitor built with those bounds; every trace of the bounded length is decided with every access checked against its own object. Other specifications and longer traces are not."),
 "C06": (VS, "other", "Enumerated expressions of bounded depth over symbolic 32-bit integers, doubles and Booleans for a bounded number of steps; sqrt/pow/sin and the like are uninterpreted functions."),
 "C08": (VS, "other", "Programs with contracts and labels of the seeded families; every trace of the bounded length, and the printed text, is decided."),
 "C10": (VS, "other", "Pairs of specifications; all histories of the bounded length before the reload and all traces of the bounded length after it."),
 "C04": (VS, "other", "Multi-formula programs of the seeded families under every combination of sharing and rewriting; for each, every trace of the bounded length is decided against what was written. Other programs and longer traces are not."),
 "C11": (PS, "other", "Formula shapes of enumerated and seeded families; for each, all interval bounds up to the limit and all traces. Larger bounds and other shapes are not covered. The parser is not in the loop: trees are built with its constructors."),
 "C12": (PS, "other", "As C11, for the transformation commands alone, in sequences and after sharing."),
 "C07": (VS, "other", "Programs over scalars, array elements and slices with map files, trace headers, generated maps and numbered atomics of the seeded families; every value of every column for a bounded number of steps is decided. Refused mappings are only sampled."),
 "C14": (PS + "; data expressions on the real monitor in the symbolic executor", "other", "Programs of formulas differing in one place; all interval bounds up to the limit and all traces. Data expressions: enumerated near-identical sets, every input for three steps."),
 "C13": (VS, "other", "Seeded programs over every kind of sugar with the plain meaning built alongside; for each, every trace of the bounded length is decided. Other programs, longer traces and array inequality are not covered."),
 "C19": (PS + "; whole programs on the real monitor in the symbolic executor", "other", "Sessions with push, an excursion and pop at each stage; all interval bounds up to the limit and all traces, or every trace of the bounded length for full programs."),
 "C23": (VS, "other", "Every line of up to 6 bytes (8 thorough) over small alphabets, and longer fields of fixed shape with symbolic digits; sscanf is modelled."),
 "C09": ("the real assembler run on symbolic instruction fields (pysym), its bytes decoded by the real loader in the symbolic executor, verdict by the solver", "other", "Every value of every field, for binaries of a few instructions of every opcode; programs with symbolic interval bounds through the real code generator."),
 "C15": ("the tool's satisfiability check is run on solver-hard formula families; the documented semantics of the same formula is decided by z3 for all traces and the verdicts compared", "other", "Formula families with enumerated intervals and seeded shapes; all traces (atoms unknown at every position), integer inputs unbounded. The encoding text is judged by its verdict only; float inputs are not covered."),
 "C18": (PS + "; whole programs on the real monitor in the symbolic executor", "other", "Programs of the seeded families are printed at each stage in each format and read back; the two programs' compiled forms are decided equal for every trace of the bounded length. Two known findings."),
 "C22": ("symbolic execution of the parser's tree, type checker and compiler on symbolic operand choices, names and numbers (pysym); acceptance decided against the documented rules by z3", "other", "Programs of the listed shapes; every choice of operand, name, section and number within the bounds, on every path. Other shapes are not covered. Three known findings."),
 "C16": ("the tool's equivalence check is run on laws and near misses with symbolic bounds; z3 decides with an encoding of its own whether a trace and bounds tell the formulas apart", "other", "Lists of formulas from the seeded families; all traces, all bounds up to the limit. 'not-equiv' beyond the limit is judged on the bounds the tool's encoding allows."),
 "C17": ("every rewrite rule is taken from the text the compiler hands to the engine and decided by z3 for symbolic interval bounds and arbitrary operands; encodings and read-back formulas decided equal over all traces", "other", "All rules in the text, both directions, all bounds up to the limit; metavariables are arbitrary functions of time. The engine itself (not in the repository, not installed) is replaced by a stand-in."),
}
CLAIMS.update({
 "C20": ("the C program the generator writes is symbolically executed (vsym, LLVM IR) with every input word symbolic against an oracle of the formula", "other", "Programs of the enumerated and seeded families in every word size and both input formats; every trace of the bounded number of words. Release and past-time operators are refused by the generator."),
 "C21": ("symbolic execution of the real Rust crate's LLVM IR (vsym) on compiled programs with symbolic traces, verdict by z3", "other", "Programs of the enumerated and seeded families; every trace of the bounded length. Auxiliary-string and debug features are off."),
 "C24": ("symbolic execution of the real Rust crate's LLVM IR (vsym) on compiled programs with symbolic values, verdict by z3", "other", "Enumerated and seeded expressions of bounded depth over symbolic 32-bit integers, doubles and Booleans for a bounded number of steps; sqrt and pow are uninterpreted."),
 "C25": ("symbolic execution of the real Rust crate's LLVM IR (vsym) over a history, a reload and a trace, all symbolic, verdict by z3", "other", "Pairs of programs; all histories of the bounded length before the reload and all traces after it."),
 "C26": ("symbolic execution of both real monitors (C and Rust LLVM IR, vsym) with every loaded value symbolic, verdict by z3", "other", "Seeded schedules of load calls over at most four steps and three inputs; loaded values symbolic."),
})
NA = {}
props = [json.loads(l) for l in (R / "properties.jsonl").read_text().splitlines()]
m = {"version": 1, "setup_cmd": "bash vsym/build.sh", "checks": [], "not_applicable": [],
     "notes": "Checks share lib/ and the symbolic executor vsym/. Exit 3: no answer."}
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, l, n = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3-vt checks/{i}.py", "thorough_cmd": f"VERIF_TIER=thorough python3-vt checks/{i}.py", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
(R / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
