#!/usr/bin/env python3
"""Linker wrapper: instruments LLVM bitcode for symbolic execution, then links.

rustc is run with -C linker-plugin-lto, so every crate compiled from source (numopt, its
dependencies, the harness) reaches the linker as LLVM bitcode.  Each bitcode module is
disassembled, its floating-point instructions are replaced by calls into symrt, and it is compiled
to an ordinary object.  symrt itself is compiled as it is; std is precompiled machine code.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import zlib

BIN = os.environ["SYM_LLVM_BIN"]
CACHE = os.environ["SYM_CACHE"]
SYSROOT = os.environ["SYM_SYSROOT"]

V = r'(?:%[-\w.$"]+|-?\d[\d.e+-]*|0x[0-9A-Fa-f]+|f0x[0-9A-Fa-f]+|undef|poison|-?inf|[+-]?(?:inf|nan|qnan)[\w()]*)'
FLAGS = r'(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)*'
BINOP = re.compile(r'^(\s*%\S+ = )(fadd|fsub|fmul|fdiv|frem) ' + FLAGS + r'double (' + V + r'), (' + V + r')(.*)$')
FNEG = re.compile(r'^(\s*%\S+ = )fneg ' + FLAGS + r'double (' + V + r')(.*)$')
FCMP = re.compile(r'^(\s*%\S+ = )fcmp ' + FLAGS + r'(\w+) double (' + V + r'), (' + V + r')(.*)$')
BITS = re.compile(r'^(\s*%\S+ = )bitcast double (' + V + r') to i64(.*)$')
TOINT = re.compile(r'^(\s*%\S+ = (?:fptosi|fptoui) double )(%[-\w.$"]+)( to .*)$')
SATINT = re.compile(r'^(\s*%\S+ = (?:tail )?call \S+ @llvm\.fpto[su]i\.sat\.i\d+\.f64\(double )(%[-\w.$"]+)(\).*)$')
TRUNC = re.compile(r'^(\s*%\S+ = )fptrunc ' + FLAGS + r'double (' + V + r') to float(.*)$')
EXT = re.compile(r'^(\s*%\S+ = )fpext ' + FLAGS + r'float (' + V + r') to double(.*)$')
FLOATOP = re.compile(r'^\s*%\S+ = (?:fadd|fsub|fmul|fdiv|frem|fneg|fcmp|fptosi|fptoui|bitcast|call \S+ @llvm)\b.*\bfloat\b')
FARG = re.compile(r'(?:float |, )(%[-\w.$"]+)')
PRED = {"false": 0, "oeq": 1, "ogt": 2, "oge": 3, "olt": 4, "ole": 5, "one": 6, "ord": 7,
        "uno": 8, "ueq": 9, "ugt": 10, "uge": 11, "ult": 12, "ule": 13, "une": 14, "true": 15}
INTR = {"sin": "sin", "cos": "cos", "fabs": "fabs", "maxnum": "max", "minnum": "min",
        "maximumnum": "max", "minimumnum": "min", "maximum": "maximum", "minimum": "minimum",
        "fma": "fma", "fmuladd": "fma", "sqrt": "sqrt", "copysign": "copysign", "floor": "floor", "ceil": "ceil",
        "trunc": "trunc", "round": "round", "rint": "rint", "nearbyint": "rint", "roundeven": "rint"}
ICALL = re.compile(r'^(\s*%\S+ = )((?:tail |musttail |notail )?call )' + FLAGS + r'double @llvm\.(\w+)\.f64\((.*?)\)(.*)$')
POWI = re.compile(r'^(\s*%\S+ = )((?:tail |musttail |notail )?call )' + FLAGS + r'double @llvm\.powi\.f64\.i32\((.*?)\)(.*)$')
LIBM = re.compile(r'^(\s*%\S+ = )((?:tail )?call )' + FLAGS + r'double @(sin|cos|fabs|fmax|fmin|fma|sqrt|floor|ceil|trunc|round|rint|roundeven)\((.*?)\)(.*)$')
LIBMAP = {"sin": "sin", "cos": "cos", "fabs": "fabs", "fmax": "max", "fmin": "min", "fma": "fma", "sqrt": "sqrt",
          "floor": "floor", "ceil": "ceil", "trunc": "trunc", "round": "round", "rint": "rint", "roundeven": "rint"}
# any other FP instruction on doubles (vectors included) is refused at build time
BADOP = re.compile(r'^\s*%\S+ = (?:fadd|fsub|fmul|fdiv|frem|fneg|fcmp)\b')
DARG = re.compile(r'double (?:(?:noundef|nofpclass\([^)]*\)) )*(%[-\w.$"]+)')
CALLEE = re.compile(r'call [^@]*@([\w.$"]+)\(')

# precompiled (or inlined) std functions on doubles that are replaced by models
OVERRIDE = [
    (re.compile(r'^_RNvXs\w*_NtNtC\w+4core3fmt5floatdNt\w+_7Display3fmt$'), "__sym_fmt_display"),
    (re.compile(r'^_RNvXs\w*_NtNtC\w+4core3fmt5floatdNt\w+_5Debug3fmt$'), "__sym_fmt_debug"),
    (re.compile(r'^_RNvXs\w*_NtNtC\w+4core3fmt5floatdNt\w+_8LowerExp3fmt$'), "__sym_fmt_lowerexp"),
    (re.compile(r'^_RNvXs\w*_NtNtC\w+4core3fmt5floatdNt\w+_8UpperExp3fmt$'), "__sym_fmt_upperexp"),
    (re.compile(r'^_RNvX\w*NtNtC\w*4core3num\w*dNtNtNt\w+3str6traits7FromStr8from_str$'), "__sym_parse"),
    (re.compile(r'^_RNvX\w*4core3num\w*dNt\w+7FromStr8from_str$'), "__sym_parse"),
    (re.compile(r'^_RNvMNtC\w+4core3f64d16is_sign_negative\w*$'), "__sym_signbit"),
    (re.compile(r'^_RNvMNtC\w+4core3f64d16is_sign_positive\w*$'), "__sym_signpos"),
    (re.compile(r'^_RNvMNtC\w+4core3f64d6signum\w*$'), "__sym_signum"),
    (re.compile(r'^_RNvMNtC\w+3std3f64d6signum\w*$'), "__sym_signum"),
    (re.compile(r'^_RNvMNtC\w+4core3f64d7to_bits\w*$'), "__sym_bits"),
    (re.compile(r'^_RNvMNtC\w+4core3f64d9total_cmp\w*$'), "__sym_total_cmp"),
]
SYMREF = re.compile(r'@(_R[A-Za-z0-9_.]+)')

DECLS = """
declare double @__sym_fadd(double, double)
declare double @__sym_fsub(double, double)
declare double @__sym_fmul(double, double)
declare double @__sym_fdiv(double, double)
declare double @__sym_frem(double, double)
declare double @__sym_fneg(double)
declare double @__sym_sin(double)
declare double @__sym_cos(double)
declare double @__sym_fabs(double)
declare double @__sym_max(double, double)
declare double @__sym_min(double, double)
declare double @__sym_maximum(double, double)
declare double @__sym_minimum(double, double)
declare double @__sym_fma(double, double, double)
declare double @__sym_powi(double, i32)
declare double @__sym_sqrt(double)
declare double @__sym_copysign(double, double)
declare double @__sym_floor(double)
declare double @__sym_ceil(double)
declare double @__sym_trunc(double)
declare double @__sym_round(double)
declare double @__sym_rint(double)
declare double @__sym_int(double)
declare float @__sym_fptrunc(double)
declare double @__sym_fpext(float)
declare void @__sym_concretef(float)
declare i64 @__sym_bits(double)
declare void @__sym_concrete(double)
declare void @__sym_trap()
declare void @__sym_cov(i32)
declare zeroext i1 @__sym_fcmp(i32, double, double)
"""


def tool(n):
    return os.path.join(BIN, n)


def crate_root(sym):
    """First crate named in a v0 symbol."""
    m = re.search(r'C(?:s[0-9A-Za-z]*_)(\d+)', sym)
    if not m:
        return None
    n = int(m.group(1))
    p = m.end()
    if sym[p:p + 1] == "_":
        p += 1
    return sym[p:p + n]


def instrument(text, stats):
    out = []
    overridden = {}
    defined = set(re.findall(r'^define [^@]*@([\w.$"]+)\(', text, re.M))

    def over(m):
        s = m.group(1)
        if s in overridden:
            return overridden[s]
        r = "@" + s
        for rx, new in OVERRIDE:
            if rx.match(s):
                r = "@" + new
                break
        overridden[s] = r
        return r

    declared_over = {}
    ntmp = 0
    pending = None
    for line in text.split("\n"):
        if pending is not None:
            # first basic block of a numopt function (its label may be implicit): record that it
            # was executed
            label = re.match(r'^[\w.$"-]+:', line) is not None
            if label:
                out.append(line)
            k = zlib.crc32(pending.encode()) & 0x7fffffff
            stats.setdefault("cov", []).append(pending)
            out.append(f"  call void @__sym_cov(i32 {k})")
            pending = None
            if label:
                continue
        if line.startswith("^"):
            continue
        if "__sym_" in line and line.startswith("declare"):
            continue
        isdef = line.startswith("define ")
        isdecl = line.startswith("declare ")
        if isdef:
            m = re.search(r'@(_R[\w.$]+)\(', line)
            if m and crate_root(m.group(1)) == "numopt":
                pending = m.group(1)
            out.append(line)
            continue
        if "@_R" in line and ("4core3" in line or "3std3f64" in line):
            new = SYMREF.sub(over, line)
            if new != line:
                if isdecl:
                    m = re.search(r'@(__sym_\w+)\(', new)
                    declared_over[m.group(1)] = new
                    continue
                stats["override"] = stats.get("override", 0) + 1
                line = new
        if isdecl:
            out.append(line)
            continue
        if "float" in line and "x float>" not in line and FLOATOP.match(line):
            for a in FARG.findall(line):
                out.append(f"  call void @__sym_concretef(float {a})")
            if "double" not in line:
                out.append(line)
                continue
        if "double" not in line:
            out.append(line)
            continue
        m = BINOP.match(line)
        if m:
            stats["fp"] = stats.get("fp", 0) + 1
            out.append(f"{m.group(1)}call double @__sym_{m.group(2)}(double {m.group(3)}, double {m.group(4)})")
            continue
        m = FNEG.match(line)
        if m:
            stats["fp"] = stats.get("fp", 0) + 1
            out.append(f"{m.group(1)}call double @__sym_fneg(double {m.group(2)})")
            continue
        m = FCMP.match(line)
        if m:
            stats["fp"] = stats.get("fp", 0) + 1
            out.append(f"{m.group(1)}call zeroext i1 @__sym_fcmp(i32 {PRED[m.group(2)]}, double {m.group(3)}, double {m.group(4)})")
            continue
        m = BITS.match(line)
        if m:
            out.append(f"{m.group(1)}call i64 @__sym_bits(double {m.group(2)})")
            continue
        m = TOINT.match(line) or SATINT.match(line)
        if m:
            ntmp += 1
            out.append(f"  %symtmp{ntmp} = call double @__sym_int(double {m.group(2)})")
            out.append(f"{m.group(1)}%symtmp{ntmp}{m.group(3)}")
            continue
        m = TRUNC.match(line)
        if m:
            out.append(f"{m.group(1)}call float @__sym_fptrunc(double {m.group(2)})")
            continue
        m = EXT.match(line)
        if m:
            out.append(f"{m.group(1)}call double @__sym_fpext(float {m.group(2)})")
            continue
        m = ICALL.match(line)
        if m and m.group(3) in INTR:
            stats["fp"] = stats.get("fp", 0) + 1
            args = re.sub(r'\b(noundef|nofpclass\([^)]*\)) ', '', m.group(4))
            out.append(f"{m.group(1)}call double @__sym_{INTR[m.group(3)]}({args})")
            continue
        m = POWI.match(line)
        if m:
            stats["fp"] = stats.get("fp", 0) + 1
            args = re.sub(r'\b(noundef|nofpclass\([^)]*\)) ', '', m.group(3))
            out.append(f"{m.group(1)}call double @__sym_powi({args})")
            continue
        m = LIBM.match(line)
        if m:
            args = re.sub(r'\b(noundef|nofpclass\([^)]*\)) ', '', m.group(4))
            out.append(f"{m.group(1)}call double @__sym_{LIBMAP[m.group(3)]}({args})")
            continue
        if BADOP.match(line):
            # vector instruction: the path ends as "unsupported" if it is ever executed
            stats["trap"] = stats.get("trap", 0) + 1
            out.append("  call void @__sym_trap()")
            out.append(line)
            continue
        c = CALLEE.search(line)
        if c and "@__sym_" not in line:
            callee = c.group(1)
            native = callee.startswith("llvm.") or (
                callee not in defined and (not callee.startswith("_R") or crate_root(callee) in ("core", "std", "alloc")
                                           and callee not in defined and native_std(callee)))
            if native and not callee.startswith(("llvm.lifetime", "llvm.dbg", "llvm.memcpy", "llvm.assume")):
                for a in DARG.findall(line[c.start():]):
                    out.append(f"  call void @__sym_concrete(double {a})")
        out.append(line)
    used = set(re.findall(r'@(__sym_\w+)', "\n".join(l for l in out)))
    decls = []
    have = set(re.findall(r'^declare [^@]*@(__sym_\w+)\(', "\n".join(out), re.M))
    base = {re.search(r'@(__sym_\w+)', d).group(1): d for d in DECLS.strip().split("\n")}
    for u in sorted(used - have):
        if u in declared_over:
            decls.append(declared_over[u])
        elif u in base:
            decls.append(base[u])
        elif u in ("__sym_signbit", "__sym_signpos"):
            decls.append(f"declare zeroext i1 @{u}(double)")
        elif u == "__sym_signum":
            decls.append(f"declare double @{u}(double)")
        elif u == "__sym_total_cmp":
            decls.append(f"declare i8 @{u}(ptr, ptr)")
        elif u in ("__sym_fmt_display", "__sym_fmt_debug", "__sym_fmt_lowerexp", "__sym_fmt_upperexp"):
            decls.append(f"declare i1 @{u}(ptr, ptr)")
        elif u == "__sym_parse":
            decls.append(f"declare void @{u}(ptr, ptr, i64)")
        elif u not in base and not any(l.startswith("define") and "@" + u + "(" in l for l in out):
            raise SystemExit("symlink: no declaration for " + u)
    return "\n".join(out + decls + [""])


def native_std(callee):
    # generic instantiations carry the instantiating crate as suffix and live in bitcode
    return not re.search(r'Cs[0-9A-Za-z]+_\d+[A-Za-z]\w*$', callee) or \
        re.search(r'Cs[0-9A-Za-z]+_(?:4core|3std|5alloc)$', callee) is not None


def is_bitcode(b):
    return b[:4] in (b"BC\xc0\xde", b"\xde\xc0\x17\x0b")


def convert(data, name, plain):
    me = open(__file__, "rb").read()
    key = hashlib.sha256(me + data + (b"plain" if plain else b"sym")).hexdigest()
    dst = os.path.join(CACHE, key + ".o")
    if os.path.exists(dst):
        return dst
    tmp = os.path.join(CACHE, f"{key}.{os.getpid()}")
    bc = tmp + ".bc"
    with open(bc, "wb") as f:
        f.write(data)
    if not plain:
        ll = subprocess.run([tool("llvm-dis"), "-o", "-", bc], check=True, stdout=subprocess.PIPE).stdout.decode()
        stats = {}
        ll = instrument(ll, stats)
        with open(tmp + ".ll", "w") as f:
            f.write(ll)
        subprocess.run([tool("llvm-as"), "-o", bc, tmp + ".ll"], check=True)
        with open(dst + ".stats", "w") as f:
            f.write(json.dumps(dict(stats, name=name)))
        if not os.environ.get("SYM_KEEP"):
            os.unlink(tmp + ".ll")
    subprocess.run([tool("llc"), "-O0", "--relocation-model=pic", "-filetype=obj", "--function-sections",
                    "--data-sections", "-o", tmp + ".o", bc], check=True)
    os.rename(tmp + ".o", dst)
    os.unlink(bc)
    return dst


def do_arg(a):
    if a.endswith(".o") and os.path.exists(a):
        data = open(a, "rb").read()
        if is_bitcode(data):
            return [convert(data, os.path.basename(a), False)]
        return [a]
    if a.endswith(".rlib") and os.path.exists(a) and not os.path.realpath(a).startswith(SYSROOT):
        base = os.path.basename(a)
        plain = base.startswith("libsymrt-")
        names = subprocess.run([tool("llvm-ar"), "t", a], check=True, stdout=subprocess.PIPE).stdout.decode().split()
        res = []
        for n in names:
            if not n.endswith(".o"):
                continue
            data = subprocess.run([tool("llvm-ar"), "p", a, n], check=True, stdout=subprocess.PIPE).stdout
            if is_bitcode(data):
                res.append(convert(data, n, plain))
            else:
                raise SystemExit("symlink: native member in " + a)
        return res
    return [a]


def main():
    args = sys.argv[1:]
    os.makedirs(CACHE, exist_ok=True)
    args = [a for a in args if not a.startswith("-Wl,-plugin-opt") and not a.startswith("-Wl,--plugin-opt")
            and a not in ("-lipopt", "-Wl,--gc-sections", "-fuse-ld=lld")]
    with cf.ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(do_arg, args))
    flat = []
    for o in outs:
        flat += o
    r = subprocess.run(["cc"] + flat + ["-Wl,--gc-sections"])
    sys.exit(r.returncode)


main()
