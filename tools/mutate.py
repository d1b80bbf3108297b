"""Mutation testing of the checks (development tool).
python3 tools/mutate.py FILE PROPS [--n 40] [--seed 1] [--func regex] [--skip regex] [--jobs 8] [--src /repo] [--out FILE] [--tests]
Plants small random changes in FILE, one at a time, runs the checks PROPS (comma separated) until one reports, and lists the changes none reports."""
import argparse
import ast
import concurrent.futures as cf
import os
import queue
import random
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SKIPF = r"plot|__repr__|__str__|inspect|compare_|figure|hist_all|report|help|_init_plt|animate|summary|spew|pretty"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&", ast.Pow: "*"}


def mutants_py(src, func, skip):
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for ln in src.encode().split(b"\n"):
        starts.append(starts[-1] + len(ln) + 1)
    b = src.encode()

    def pos(l, c):
        return starts[l - 1] + c
    out = []

    def put(node, a, z, new, what):
        if b[a:z].decode() != new:
            out.append((node.lineno, a, z, new, what))

    def visit(node, names, on):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            names = names + [node.name]
            if isinstance(node, ast.FunctionDef):
                full = ".".join(names)
                on = bool(re.search(func, full)) and not re.search(skip, full)
            for d in node.body:
                visit(d, names, on)
            if isinstance(node, ast.FunctionDef) and on:
                visit(node.args, names, on)
            return
        if on:
            seg = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))  # noqa
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                return
            if isinstance(node, ast.Raise):
                return
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
                t = ast.unparse(node.value.func)
                if re.search(r"LOG|print|plt|warn|flush|pylab|ax\.|status", t):
                    return
                a, z = seg(node)
                put(node, a, z, "pass", "call removed")
            if isinstance(node, ast.JoinedStr):
                return
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                a, z = seg(node.left)[1], seg(node.comparators[0])[0]
                mid = b[a:z].decode()
                op = CMP.get(type(node.ops[0]))
                if op:
                    m = re.match(r"^([\s)]*)(not in|is not|in|is|<=|>=|==|!=|<|>)([\s(]*)$", mid)
                    if m:
                        put(node, a, z, m.group(1) + op + m.group(3), "comparison")
            if isinstance(node, ast.BinOp):
                a, z = seg(node.left)[1], seg(node.right)[0]
                mid = b[a:z].decode()
                op = BIN.get(type(node.op))
                m = re.match(r"^([\s)]*)(\*\*|//|[-+*/%&|])([\s(]*)$", mid)
                if op and m and not (isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant)):
                    put(node, a, z, m.group(1) + op + m.group(3), "arithmetic")
            if isinstance(node, ast.AugAssign):
                a, z = seg(node.target)[1], seg(node.value)[0]
                mid = b[a:z].decode()
                for o, n in (("+=", "-="), ("-=", "+="), ("*=", "/="), ("/=", "*="), ("|=", "&="), ("&=", "|=")):
                    if o in mid:
                        put(node, a, z, mid.replace(o, n), "augmented")
                        break
            if isinstance(node, ast.BoolOp):
                a, z = seg(node.values[0])[1], seg(node.values[1])[0]
                mid = b[a:z].decode()
                m = re.match(r"^([\s)\\]*)(and|or)([\s(]*)$", mid)
                if m:
                    put(node, a, z, m.group(1) + ("or" if m.group(2) == "and" else "and") + m.group(3), "boolean")
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
                a, z = seg(node)
                o, _ = seg(node.operand)
                put(node, a, o, "", "unary removed") if b[a:o].decode().strip() in ("not", "-", "~") else None
            if isinstance(node, ast.Constant):
                a, z = seg(node)
                v = node.value
                if v is True or v is False:
                    put(node, a, z, str(not v), "constant")
                elif isinstance(v, int):
                    put(node, a, z, str(v + 1), "constant")
                    if v > 1:
                        put(node, a, z, str(v - 1), "constant")
                elif isinstance(v, float):
                    put(node, a, z, repr(v * 1.3 + (.1 if v == 0 else 0)), "constant")
                elif isinstance(v, str) and len(v) < 25 and v:
                    pass
            if isinstance(node, (ast.If, ast.While, ast.IfExp)):
                a, z = seg(node.test)
                put(node, a, z, "False", "condition")
                if not isinstance(node, ast.While):
                    put(node, a, z, "True", "condition")
            if isinstance(node, ast.Slice):
                for w in (node.lower, node.upper):
                    if w is not None:
                        a, z = seg(w)
                        put(node, a, z, "", "slice bound")
            if isinstance(node, ast.Call):
                for i, k in enumerate(node.keywords):
                    if k.arg and not re.search(r"dtype|label|color", k.arg):
                        a = pos(k.lineno, k.col_offset)
                        z = seg(k.value)[1]
                        rest = b[z:z + 200].decode(errors="replace")
                        m = re.match(r"\s*,", rest)
                        if m:
                            put(node, a, z + len(m.group(0).encode()), "", "keyword removed")
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
                a, z = seg(node)
                put(node, a, z, "pass", "assignment removed")
        for c in ast.iter_child_nodes(node):
            visit(c, names, on)
    visit(tree, [], False)
    return out


def mutants_pyx(src, func, skip):
    out = []
    b = src.encode()
    offs = 0
    name = ""
    doc = False
    for i, line in enumerate(src.split("\n"), 1):
        n = len(line.encode()) + 1
        m = re.match(r"\s*(?:def|cdef|cpdef)\s+(?!class)[^=(]*?(\w+)\s*\(", line)
        if m:
            name = m.group(1)
        cls = re.match(r"\s*(?:cdef\s+)?class\s+(\w+)", line)
        code = line.split("#")[0]
        q = code.count('"""') + code.count("'''")
        here = doc or q
        if q % 2:
            doc = not doc
        if not here and not m and not cls and code.strip() and re.search(func, name) and not re.search(skip, name) \
                and not re.match(r"\s*(cdef|import|from|cimport|@|raise|assert|LOG|ctypedef)\b.*(?<!=)$", code if "=" not in code else "x"):
            def put(a, z, new, what):
                if code[a:z] != new:
                    out.append((i, offs + len(code[:a].encode()), offs + len(code[:z].encode()), new, what))
            for mm in re.finditer(r"(?<![<>=!])(<=|>=|==|!=|<|>)(?![<>=])", code):
                new = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "=="}[mm.group(1)]
                put(*mm.span(1), new, "comparison")
            for mm in re.finditer(r"(?<=[\w)\]] )([-+*/])(?= [\w(])", code):
                put(*mm.span(1), {"+": "-", "-": "+", "*": "/", "/": "*"}[mm.group(1)], "arithmetic")
            for mm in re.finditer(r"(\+=|-=|\*=|/=)", code):
                put(*mm.span(1), {"+=": "-=", "-=": "+=", "*=": "/=", "/=": "*="}[mm.group(1)], "augmented")
            for mm in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.\"'])", code):
                put(*mm.span(1), str(int(mm.group(1)) + 1), "constant")
            for mm in re.finditer(r"(?<![\w.\"'])(\d+\.\d*|\.\d+)(?![\w\"'])", code):
                put(*mm.span(1), repr(float(mm.group(1)) * 1.3 + .1 * (float(mm.group(1)) == 0)), "constant")
            for mm in re.finditer(r"\b(and|or)\b", code):
                put(*mm.span(1), "or" if mm.group(1) == "and" else "and", "boolean")
            for mm in re.finditer(r"\bnot (?!in)", code):
                put(*mm.span(0), "", "unary removed")
            for mm in re.finditer(r"\b(True|False)\b", code):
                put(*mm.span(1), "False" if mm.group(1) == "True" else "True", "constant")
            mm = re.match(r"\s*(?:if|elif|while) (.*):\s*$", code)
            if mm:
                put(*mm.span(1), "False", "condition")
            mm = re.match(r"(\s*)(\w[\w.\[\], +-]* [-+*/]?= .*[^,(\[\\])$", code)
            if mm and code.count("(") == code.count(")") and code.count("[") == code.count("]") and not re.match(r"\s*cdef", code):
                put(*mm.span(2), "pass", "assignment removed")
            mm = re.match(r"\s*(break|continue)\s*$", code)
            if mm:
                put(*mm.span(1), "pass", "jump removed")
        offs += n
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("props")
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--func", default=".")
    ap.add_argument("--skip", default="^$")
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--workers", type=int, default=1)
    ap.add_argument("--src", default="/tmp/rw")
    ap.add_argument("--list", action="store_true")
    args = ap.parse_args()
    src = open(os.path.join(args.src, args.file)).read()
    skip = SKIPF + "|" + args.skip
    ms = (mutants_pyx if args.file.endswith(".pyx") else mutants_py)(src, args.func, skip)
    random.Random(args.seed).shuffle(ms)
    total = len(ms)
    ms = ms[:args.n]
    print(f"{args.file}: {total} mutants, {len(ms)} tried against {args.props}", flush=True)
    lines = src.split("\n")
    if args.list:
        for m in ms:
            print(m[0], m[4], repr(src.encode()[m[1]:m[2]].decode()), "->", repr(m[3]), "|", lines[m[0] - 1].strip())
        return
    slots = queue.Queue()
    for i in range(args.jobs):
        d = f"/tmp/mutslot{i}"
        shutil.rmtree(d, ignore_errors=True)
        subprocess.check_call(["cp", "-a", args.src, d])
        slots.put(d)

    def run(m):
        d = slots.get()
        p = os.path.join(d, args.file)
        try:
            bs = src.encode()
            new = bs[:m[1]] + m[3].encode() + bs[m[2]:]
            if args.file.endswith(".py"):
                try:
                    ast.parse(new.decode())
                except SyntaxError:
                    return m, "invalid", ""
            open(p, "wb").write(new)
            last = "survived"
            for prop in args.props.split(","):
                env = dict(os.environ, VERIF_REPO=d, VERIF_FAILFAST="" if prop == "C16" else "1", OPENBLAS_NUM_THREADS="1", VERIF_NORECORD="1", VERIF_HANG="60")
                try:
                    r = subprocess.run([PY, os.path.join(ROOT, "run_check.py"), prop, "--workers", str(args.workers), "--seed", "1"], env=env, cwd=ROOT, capture_output=True, text=True, timeout=1500)
                except subprocess.TimeoutExpired:
                    return m, "timeout", ""
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    ls = [ln for ln in r.stdout.splitlines() if ln.startswith("  [")]
                    return m, "caught", prop + " " + (ls[0].strip()[:100] if ls else "")
                if r.returncode != 0:
                    last = f"no answer rc={r.returncode} {prop} {r.stdout[-300:]!r}"
            return m, last, ""
        finally:
            open(p, "w").write(src)
            slots.put(d)
    n = {}
    with cf.ThreadPoolExecutor(args.jobs) as ex:
        for m, res, info in ex.map(run, ms):
            k = res.split()[0]
            n[k] = n.get(k, 0) + 1
            if res not in ("caught", "invalid") and "before its first case" not in res and not (res.startswith("no") and "Error" in res):
                old = src.encode()[m[1]:m[2]].decode()
                print(f"{res}: {args.file}:{m[0]} {m[4]} {old!r} -> {m[3]!r}\n      {lines[m[0] - 1].strip()}", flush=True)
    print(args.file, n, flush=True)
    for i in range(args.jobs):
        shutil.rmtree(f"/tmp/mutslot{i}", ignore_errors=True)


if __name__ == "__main__":
    main()
