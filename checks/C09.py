import os, sys; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import builtins, io, re, struct, types as pytypes
from pyc import *
import pysym
from cmon import *
from monh import HEAD as HEAD_
HEAD = HEAD_ + "#include \"engines/engines.h\"\n"
from c2po import assemble as asm
chk = Check("C09", "other")
chk.cov["explanation"] = ("The compiler's real assemble (with its real packing, and with its real code generation for the compiled programs) runs symbolically on instructions whose fields are symbolic: struct packing is replaced by a stand-in giving each byte as a term over the fields. "
    "Those byte terms are the binary in a harness that runs the monitor's real loader in the symbolic executor, and the solver decides, for every value of every field at once, that the loader stores exactly that value in the right place. The stand-in is compared with the real packing on concrete values in every run.")
quick = TIER != "thorough"
rng = random.Random(SEED * 41 + 9)
# ---- symbolic packing ---------------------------------------------------------------------------
SENT = 0.123456789012345
class SymF(float):
    """a double given by the C name of its 64 bits; float(x) keeps the sentinel value by which it is recognised"""
    def __new__(cls, k):
        s = float.__new__(cls, SENT + k)
        return s
FNAMES = {}
def cexpr(t):
    if z3.is_int_value(t): return f"{t.as_long()}LL"
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: return f"(int64_t){t.decl().name()}"
    a = [cexpr(c) for c in t.children()]
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD: return "(" + " + ".join(a) + ")"
    if k == z3.Z3_OP_MUL: return "(" + " * ".join(a) + ")"
    if k == z3.Z3_OP_SUB: return "(" + " - ".join(a) + ")"
    if k == z3.Z3_OP_UMINUS: return f"(-{a[0]})"
    if k == z3.Z3_OP_ITE: return f"({a[0]} ? {a[1]} : {a[2]})"
    op = {z3.Z3_OP_LE: "<=", z3.Z3_OP_GE: ">=", z3.Z3_OP_LT: "<", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}.get(k)
    if op: return f"({a[0]} {op} {a[1]})"
    if k == z3.Z3_OP_AND: return "(" + " && ".join(a) + ")"
    if k == z3.Z3_OP_OR: return "(" + " || ".join(a) + ")"
    if k == z3.Z3_OP_NOT: return f"(!{a[0]})"
    if k in (z3.Z3_OP_MOD, z3.Z3_OP_REM): return f"({a[0]} % {a[1]})"       # operands are never negative where this occurs
    if k == z3.Z3_OP_IDIV: return f"({a[0]} / {a[1]})"
    raise Limit(f"cannot write {t} in C")
class B:
    """byte: bits 8*i.. of an integer term or of a symbolic double"""
    __slots__ = ("t", "i")
    def __init__(self, t, i): self.t, self.i = t, i
    def c(self):
        return f"(uint8_t)({self.t} >> {8 * self.i})" if isinstance(self.t, str) else f"(uint8_t)((uint64_t)({cexpr(self.t)}) >> {8 * self.i})"
    def val(self, env):
        if isinstance(self.t, str): return env[self.t] >> 8 * self.i & 255
        v = z3.simplify(z3.substitute(self.t, [(z3.Int(k), z3.IntVal(x)) for k, x in env.items()])).as_long()
        return v >> 8 * self.i & 255
class SymBytes:
    def __init__(self, l): self.l = list(l)
    def __len__(self): return len(self.l)
    def __add__(self, o): return SymBytes(self.l + list(o.l if isinstance(o, SymBytes) else o))
    def __radd__(self, o): return SymBytes(list(o) + self.l)
    def __iter__(self): return iter(self.l)
    def __getitem__(self, k): return SymBytes(self.l[k]) if isinstance(k, slice) else self.l[k]
    def __format__(self, s): return "bytes"
    def hex(self, *a): return "bytes"
RNG = {"B": (0, 255), "b": (-128, 127), "H": (0, 65535), "h": (-32768, 32767), "I": (0, 2**32 - 1), "L": (0, 2**32 - 1), "i": (-2**31, 2**31 - 1), "l": (-2**31, 2**31 - 1), "Q": (0, 2**64 - 1), "q": (-2**63, 2**63 - 1)}
SZ = {"B": 1, "b": 1, "H": 2, "h": 2, "I": 4, "i": 4, "L": 4, "l": 4, "Q": 8, "q": 8, "d": 8}
def sympack(fmt, *vals):
    if not any(isinstance(v, (SymI, SymF)) or isinstance(v, float) and v in FNAMES for v in vals): return real_pack(fmt, *vals)
    out, vals, order = [], list(vals), "<"
    if fmt[:1] in "<>=!@": order, fmt = fmt[0], fmt[1:]
    if order in "@": order = "<"         # fields of the formats in use need no alignment on their own
    for n, c in re.findall(r"(\d*)([a-zA-Z?])", fmt):
        if c == "x": out += [0] * int(n or 1); continue
        for _ in range(int(n or 1)):
            v = vals.pop(0)
            if isinstance(v, (SymI, SymB)):
                if c not in RNG: raise struct.error("required argument is not an integer") if c not in "fd" else Limit("integer packed as a float")
                z = zt(v)
                lo, hi = RNG[c]
                if not pysym.ENG.branch(z3.And(z >= lo, z <= hi)): raise struct.error(f"'{c}' format requires {lo} <= number <= {hi}")
                bs = [B(z, i) for i in range(SZ[c])]
            elif isinstance(v, float) and v in FNAMES:
                if c != "d": raise Limit(f"symbolic float packed as {c}")
                bs = [B(FNAMES[v], i) for i in range(8)]
            else: bs = list(real_pack(("<" if order in "<=" else ">") + c, v)); bs = bs if order in "<=" else bs[::-1]
            out += bs if order in "<=" else bs[::-1]
    if vals: raise struct.error("too many values")
    return SymBytes(out)
real_pack, RealStruct = struct.pack, struct.Struct
class SymStruct:
    def __init__(self, fmt): self.format, self.s = fmt, RealStruct(fmt)
    size = property(lambda self: self.s.size)
    def pack(self, *v): return sympack(self.format, *v)
    def __getattr__(self, n): return getattr(self.s, n)
class FakeFile(io.BytesIO):
    last = None
    def write(self, b): FakeFile.last = b; return len(b)
def fake_open(name, mode="r", *a, **k):
    if "b" in mode and "w" in mode: return FakeFile()
    return builtins.open(name, mode, *a, **k)
class patched:
    def __enter__(self):
        self.old = {}
        for n, v in list(vars(asm).items()):
            r = SymStruct if v is RealStruct else sympack if v is real_pack else None
            if isinstance(v, RealStruct): r = SymStruct(v.format)
            if r is not None: self.old[n] = v; setattr(asm, n, r)
        struct.Struct, struct.pack = SymStruct, sympack
        asm.open = fake_open
    def __exit__(self, *a):
        struct.Struct, struct.pack = RealStruct, real_pack
        for n, v in self.old.items(): setattr(asm, n, v)
        del asm.open
def assembled(instrs, con):
    """the binary the real assemble writes for this list of instructions (None: for the session's program)"""
    FakeFile.last = None
    old = asm.gen_assembly
    if instrs is not None: asm.gen_assembly = lambda *a, **k: list(instrs)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            rc = asm.assemble(con.program, con.context, {"aux": False, "print": False, "assembly_filename": None, "binary_filename": str(scratch() / "c09.bin")})
    finally: asm.gen_assembly = old
    b = FakeFile.last if FakeFile.last is not None else con.context.binary
    return b if rc == asm.command.ReturnCode.SUCCESS else None
def session(opts=""):
    con = Con()
    p = tmp("t.c2po", "INPUT a0: bool;\nFTSPEC a0;\n"); q = tmp("t.map", "a0:0\n")
    con.must(f"parse_c2po {p}"); con.must(f"parse_map {q}"); con.must("type_check"); con.must("desugar"); con.must("compute_atomics"); con.must("compute_scq_sizes")
    return con
# ---- opcodes ------------------------------------------------------------------------------------
CNAME = {"GLOBAL": "GLOBALLY", "HIST": "HISTORICALLY", "EQUIV": "EQUIVALENT", "CONFIG": "CONFIGURE"}
def bzname(o): return "R2U2_BZ_TS" if o is asm.BZOperator.TS else f"R2U2_BZ_OP_{o.name}"
def tlname(o): return f"R2U2_MLTL_OP_{CNAME.get(o.name, o.name)}"
OT = {"DIRECT": "R2U2_FT_OP_DIRECT", "ATOMIC": "R2U2_FT_OP_ATOMIC", "SUBFORMULA": "R2U2_FT_OP_SUBFORMULA", "NONE": "R2U2_FT_OP_NOT_SET"}
class Fields:
    def __init__(self): self.decl, self.n, self.assume, self.kinds = [], 0, [], {}
    def i(self, kind, lo=None, hi=None):
        k = self.n; self.n += 1
        nm = f"f{k}"
        if lo is not None: c, L, H = f"int32_t {nm} = vs_small({k}, {lo}, {hi});", lo, hi
        elif kind == "u32": c, L, H = f"uint32_t {nm} = vs_u32({k});", 0, 2**32 - 1
        else: c, L, H = f"int32_t {nm} = vs_i32({k});", -2**31, 2**31 - 1
        self.decl.append(c); self.kinds[nm] = (L, H)
        z = z3.Int(nm)
        self.assume += [z >= L, z <= H]
        return SymI(z), nm
    def f(self):
        k = self.n; self.n += 1
        nm = f"f{k}"
        self.decl.append(f"uint64_t {nm} = vs_u64({k});"); self.kinds[nm] = None
        v = SymF(k)
        FNAMES[float(v)] = nm
        return v, nm
def build(make):
    """make(F) -> (instructions, C assertions after loading).  Runs assemble symbolically; None or harness"""
    F = Fields()
    ins, post, pre = make(F)
    con = session()
    out = []
    def run():
        with patched(): return assembled(ins, con)
    for eng, (st, res) in explore(run, F.assume, max_s=60):
        out.append((st, res, list(eng.pc)))
    if len(out) != 1 or out[0][0] != "ok" or out[0][1] is None: return F, ins, None, out
    bs = out[0][1]
    arr = "static uint8_t SPEC[%d];" % (len(bs) + 8)
    fill = "".join(f"  SPEC[{i}] = {b.c() if isinstance(b, B) else b};\n" for i, b in enumerate(bs) if isinstance(b, B) or b)
    load = '' if pre is None else '  vs_assert(r2u2_load_specification(SPEC, &mon) == R2U2_OK, "loads");\n'
    h = HEAD + f"static r2u2_monitor_t mon = R2U2_DEFAULT_MONITOR;\n{arr}\nint vs_main(void) {{\n  " + "\n  ".join(F.decl) + f"\n{fill}{load}{post}  return 0;\n}}\n"
    return F, ins, h, bs
def selfcheck(F, ins, bs, make):
    """the stand-in against the real packing, on concrete values"""
    for rep in range(3):
        env, sub = {}, {}
        for nm, k in F.kinds.items():
            env[nm] = rng.getrandbits(62) if k is None else rng.choice([k[0], k[1], rng.randint(*k)])
        class G(Fields):
            def i(self, kind, lo=None, hi=None):
                k = self.n; self.n += 1
                return env[f"f{k}"], f"f{k}"
            def f(self):
                k = self.n; self.n += 1
                return struct.unpack("<d", struct.pack("<Q", env[f"f{k}"]))[0], f"f{k}"
        ins2 = make(G())[0]
        real = assembled_real(ins2)
        got = bytes(b.val(env) if isinstance(b, B) else b for b in bs)
        if real != got: return f"stand-in differs from the real packing: {real.hex() if real else real} vs {got.hex()}"
def assembled_real(ins):
    con = session()
    asm.open = fake_open
    try: return assembled(ins, con)
    finally: del asm.open
# ---- families -----------------------------------------------------------------------------------
BZ, TL, CG, ET = asm.BZInstruction, asm.TLInstruction, asm.CGInstruction, asm.EngineTag
def bz_job(ops):
    def make(F):
        ins, post, pre, idx = [], "", "", 0
        for o in ops:
            if o.name == "ICONST":
                (v, vn), (r, rn) = F.i("i32"), F.i("u32", 0, 5)
                ins.append(BZ(ET.BZ, r, o, v, 0)); post = f'  vs_assert(mon.value_buffer[{rn}].i == {vn}, "integer constant");\n'; continue
            if o.name == "FCONST":
                (v, vn), (r, rn) = F.f(), F.i("u32", 0, 5)
                ins.append(BZ(ET.BZ, r, o, v, 0)); post = f'  {{ uint64_t w; memcpy(&w, &mon.value_buffer[{rn}].f, 8); vs_assert(w == {vn}, "float constant"); }}\n'; continue
            small = (0, 5) if o.name == "PREV" else (None, None)
            (a, an), (b, bn), (r, rn) = F.i("u32", *small), F.i("u32"), F.i("u32", *small)
            ins.append(BZ(ET.BZ, r, o, a, b))
            t = f"mon.bz_instruction_tbl[{idx}]"
            post += f'  vs_assert({t}.param1 == (uint32_t){an}, "first operand"); vs_assert({t}.param2 == {bn}, "second operand"); vs_assert({t}.memory_reference == (uint32_t){rn}, "memory reference"); vs_assert({t}.opcode == {bzname(o)}, "opcode");\n'
            idx += 1
        post += f'  vs_assert(mon.bz_program_count.max_program_count == {idx} && mon.mltl_program_count.max_program_count == 0, "instruction counts");\n'
        return ins, post, pre
    return "booleanizer " + " ".join(o.name for o in ops), make
def tl_job(ops, types, past):
    def make(F):
        ins, post, cg, cgt = [], "", [], []
        prev = []
        for k, (o, (t1, t2)) in enumerate(zip(ops, types)):
            (a, an), (b, bn), (r, rn) = F.i("u32"), F.i("u32"), F.i("u32")
            (ln, lnn) = F.i("u32", 1, 3)
            temporal = o.is_temporal()
            C = asm.PTOperator.CONFIG if past else asm.FTOperator.CONFIG
            AT, SF, NO = asm.TLOperandType.ATOMIC, asm.TLOperandType.SUBFORMULA, asm.TLOperandType.NONE
            cg.append(CG(ET.CG, asm.CGType.SCQ, TL(ET.TL, k, C, AT, ln, AT if temporal else NO, 0)))
            q = f"mon.queue_arena.control_blocks[{k}]"
            post += f'  vs_assert({q}.length == (uint32_t){lnn}, "queue length");\n'
            if prev: post += f'  vs_assert({q}.queue == mon.queue_arena.queue_mem + ({" + ".join(prev)}), "queue start");\n'
            prev.append(lnn)
            if temporal:
                (lb, lbn), (ub, ubn) = F.i("u32"), F.i("u32")
                cgt.append(CG(ET.CG, asm.CGType.TEMP, TL(ET.TL, k, C, SF, lb, SF, ub)))
                prev.append("(int)(R2U2_TEMPORAL_METADATA_SIZE)")
                post += f'  {{ r2u2_scq_temporal_block_t *b = r2u2_scq_temporal_get(mon.queue_arena, {k}); vs_assert(b->lower_bound == {lbn}, "lower bound"); vs_assert(b->upper_bound == {ubn}, "upper bound"); }}\n'
            ins.append(TL(ET.TL, r, o, t1, a, t2, b))
            t = f"mon.mltl_instruction_tbl[{k}]"
            post += f'  vs_assert({t}.op1_value == {an}, "first operand"); vs_assert({t}.op2_value == {bn}, "second operand"); vs_assert({t}.memory_reference == {rn}, "memory reference");\n'
            post += f'  vs_assert({t}.op1_type == {OT[t1.name]}, "first operand kind"); vs_assert({t}.op2_type == {OT[t2.name]}, "second operand kind"); vs_assert({t}.opcode == {tlname(o)}, "opcode");\n'
        post += f'  vs_assert(mon.mltl_program_count.max_program_count == {len(ins)} && mon.bz_program_count.max_program_count == 0, "instruction counts");\n'
        return ins + cg + cgt, post, ""
    return ("past " if past else "future ") + " ".join(f"{o.name}/{a.name}/{b.name}" for o, (a, b) in zip(ops, types)), make
def cg_job(past):
    """configuration instructions with full-range fields, through the decoder alone (a real queue is as long as its field says)"""
    def make(F):
        C = asm.PTOperator.CONFIG if past else asm.FTOperator.CONFIG
        ins, post = [], ""
        off = "(int)SPEC[0]"
        for typ in (asm.CGType.SCQ, asm.CGType.TEMP):
            for t1 in asm.TLOperandType:
                for t2 in asm.TLOperandType:
                    (a, an), (b, bn), (r, rn) = F.i("u32"), F.i("u32"), F.i("u32")
                    ins.append(CG(ET.CG, typ, TL(ET.TL, r, C, t1, a, t2, b)))
                    post += f'''  vs_assert(SPEC[o] != 0 && SPEC[o+1] == R2U2_ENG_CG && SPEC[o+2] == R2U2_ENG_TL, "configuration tags");
  {{ r2u2_mltl_instruction_t i = r2u2_mltl_set_from_binary(SPEC + o + 3); vs_assert(i.op1_value == {an}, "first value"); vs_assert(i.op2_value == {bn}, "second value"); vs_assert(i.memory_reference == {rn}, "memory reference");
  vs_assert(i.op1_type == {OT[t1.name]} && i.op2_type == {OT[t2.name]}, "kinds"); vs_assert(i.opcode == R2U2_MLTL_OP_CONFIGURE, "opcode"); }} o += SPEC[o];
'''
        return ins, "  unsigned o = SPEC[0];\n" + post + '  vs_assert(SPEC[o] == 0, "end of instructions");\n', None
    return "configuration " + ("past" if past else "future"), make
def prog_job(fs, tagc):
    """formulas with symbolic bounds through the real code generation: bounds, lengths and operands read by the loader"""
    return "program " + "; ".join(show_(f) for f in fs), fs
def show_(f): return text(tuple_inst(f))
def tuple_inst(f):
    if f[0] in UN + BIN: return (f[0], f"l{f[1]}", f"u{f[1]}") + tuple(tuple_inst(k) for k in f[3:])
    return f[:1] + tuple(tuple_inst(k) if isinstance(k, tuple) else k for k in f[1:])
def go_instr(nm, make):
    FNAMES.clear()
    F, ins, h, bs = build(make)
    if h is None: return nm, None, f"assembling fails or forks: {[(a, repr(b)[:200]) for a, b, c in bs][:3]}"
    return nm, h, selfcheck(F, ins, bs, make)
def go_prog(fs):
    """every path of the real code generation on formulas with symbolic bounds: harness of each path"""
    n = [0]
    F = Fields()
    big = 2**31 - 2
    def sb(f):
        if f[0] in UN + BIN:
            lo, ln = F.i("u32", 0, big) if False else bound(F, big)
            hi, hn = bound(F, big)
            F.assume.append(zt(lo) <= zt(hi))
            return (f[0], lo, hi) + tuple(sb(k) for k in f[3:])
        return f[:1] + tuple(sb(k) if isinstance(k, tuple) else k for k in f[1:])
    g = [sb(f) for f in fs]
    hs = []
    def run():
        con = Con()
        program(con, g, 3)
        q = tmp("p.map", "a0:0\na1:1\na2:2\n")
        con.must(f"parse_map {q}")
        for c in ("desugar", "multi_operators_to_binary", "optimize_cse", "compute_atomics", "compute_scq_sizes"): con.must(c)
        gen = asm.gen_assembly(con.program, con.context)
        with patched():
            b = assembled(None, con)
        return b, gen
    for eng, (st, res) in explore(run, F.assume, max_s=60, max_paths=200):
        if st != "ok" or res[0] is None: hs.append((None, repr(res)[:300], None)); continue
        b, gen = res
        pc = z3.simplify(z3.And(*eng.pc)) if eng.pc else z3.BoolVal(True)
        hs.append((b, gen, pc))
    return F, g, hs
def bound(F, big):
    v, nm = F.i("u32")
    F.assume.append(zt(v) <= big)
    return v, nm
def prog_harness(F, g, b, gen, pc):
    """decodes the whole binary instruction by instruction and compares with the syntax tree's own values"""
    fill = "".join(f"  SPEC[{i}] = {x.c() if isinstance(x, B) else x};\n" for i, x in enumerate(b) if isinstance(x, B) or x)
    # what the program says: one temporal node per (operator, bounds)
    post = "  unsigned o = SPEC[0];\n"
    temps = []
    for f in g:
        for n in walk_(f):
            if n[0] in UN + BIN: temps.append(n)
    nm = {"F": "EVENTUALLY", "G": "GLOBALLY", "U": "UNTIL", "R": "RELEASE", "O": "ONCE", "H": "HISTORICALLY", "S": "SINCE", "T": "TRIGGER"}
    post += f"  _Bool cfg[64] = {{0}}; uint32_t lo[64], hi[64]; unsigned ret = 0; _Bool seen[{max(len(temps),1)}] = {{0}};\n"
    post += '''  for (; SPEC[o] != 0; o += SPEC[o]) {
    if (SPEC[o+1] == R2U2_ENG_CG) { r2u2_mltl_instruction_t i = r2u2_mltl_set_from_binary(SPEC + o + 3); if (i.op1_type == R2U2_FT_OP_SUBFORMULA) { vs_assert(i.memory_reference < 64, "queue number"); cfg[i.memory_reference] = 1; lo[i.memory_reference] = i.op1_value; hi[i.memory_reference] = i.op2_value; } }
  }
  unsigned k = 0; o = SPEC[0];
  for (; SPEC[o] != 0; o += SPEC[o]) if (SPEC[o+1] == R2U2_ENG_TL) { r2u2_mltl_instruction_t i = r2u2_mltl_set_from_binary(SPEC + o + 2); vs_assert(k < 64, "instruction number");
'''
    for j, n in enumerate(temps):
        post += f"    if (i.opcode == R2U2_MLTL_OP_{nm[n[0]]} && cfg[k] && lo[k] == (uint32_t)({cexpr(z3.simplify(zt(n[1])))}) && hi[k] == (uint32_t)({cexpr(z3.simplify(zt(n[2])))})) seen[{j}] = 1;\n"
    post += "    if (i.opcode == R2U2_MLTL_OP_RETURN) ret++;\n    k++; }\n"
    for j, n in enumerate(temps): post += f'  vs_assert(seen[{j}], "interval of {n[0]} survives");\n'
    post += f'  vs_assert(ret == {len(g)}, "one return per formula");\n'
    ass = "".join(f"  vs_assume({cexpr(z3.simplify(a))});\n" for a in F.assume if not z3.is_true(z3.simplify(a))) + (f"  vs_assume({cexpr(pc)});\n" if not z3.is_true(pc) else "")
    return HEAD + "static uint8_t SPEC[%d];\nint vs_main(void) {\n  " % (len(b) + 8) + "\n  ".join(F.decl) + "\n" + ass + fill + post + "  return 0;\n}\n"
def walk_(f):
    yield f
    for k in f[1:]:
        if isinstance(k, tuple): yield from walk_(k)
if __name__ == "__main__":
    jobs = []
    allbz = list(asm.BZOperator)
    for o in allbz: jobs.append(bz_job([o]))
    for k in range(0, len(allbz) - 3, 4): jobs.append(bz_job([o for o in allbz[k:k + 4] if not o.is_constant()]))
    TT_ = list(asm.TLOperandType)
    for past, E in ((False, asm.FTOperator), (True, asm.PTOperator)):
        ops = list(E)
        for o in ops:
            prs = [(a, b) for a in TT_ for b in TT_] if not quick else [(a, TT_[(k + len(o.name)) % 4]) for k, a in enumerate(TT_)]
            for p in prs: jobs.append(tl_job([o], [p], past))
        for n in range(6 if quick else 40):
            os_ = [rng.choice(ops) for _ in range(rng.choice([2, 3, 3]))]
            jobs.append(tl_job(os_, [(rng.choice(TT_), rng.choice(TT_)) for _ in os_], past))
        jobs.append(cg_job(past))
    p, q, r = V(0), V(1), V(2)
    progs = [[(o, 0, 0, p)] for o in ("F", "G", "O", "H")] + [[(o, 0, 0, p, q)] for o in ("U", "R", "S", "T")] + [[A(("F", 0, 0, p), ("G", 1, 1, q))], [("F", 0, 0, ("G", 1, 1, p))], [("F", 0, 0, p), ("U", 1, 1, p, q)], [("S", 0, 0, p, N(q)), ("H", 1, 1, r)], [D(("R", 0, 0, p, q), ("G", 1, 1, r))]]
    todo = []
    try:
        for nm, mk_ in jobs:
            nm, h, bad = go_instr(nm, mk_)
            if h is None:
                # is it the real code that fails on some field values?
                chk.violation(nm, bad, bad)
            elif bad: chk.error(f"{nm}: {bad}")
            else: todo.append((nm, h, ()))
        for fs in progs:
            F, g, hs = go_prog(fs)
            nm = "program " + "; ".join(show_(f) for f in fs)
            for k, (b, gen, pc) in enumerate(hs):
                if b is None: chk.violation(nm, f"assembling fails: {gen}", str(gen))
                else: todo.append((f"{nm} path {k}", prog_harness(F, g, b, gen, pc), ()))
                chk.count("paths")
    except Limit as ex:
        chk.error(f"not encoded: {ex}")
    if os.environ.get("C_N"): todo = todo[:int(os.environ["C_N"])]
    pmap(lambda t: decide(chk, t[0], t[1], t[2]), todo)
    chk.add("functions_encoded", ["c2po.assemble.assemble", "c2po.assemble.pack_instruction", "c2po.assemble.pack_bz_instruction", "c2po.assemble.pack_tl_instruction", "c2po.assemble.pack_cg_instruction", "c2po.assemble.gen_assembly", "c2po.scq.compute_scq_sizes"])
    chk.assume += ["operand, reference and bound fields range over all 32-bit values, integer constants over all of int32, float constants over all bit patterns; where the loader uses a field as an index (constant and previous-value slots) or walks a queue (queue lengths) it is 0..5 or 1..3", "programs of up to three instructions per binary plus their configuration", "clang's IR generation, vsym, pysym's struct stand-in (compared with the real one on concrete values) and z3"]
    chk.finish()
