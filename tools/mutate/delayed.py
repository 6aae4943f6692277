"""Delayed mutants: an expression or statement of a function goes wrong from
its k-th execution on.  With RARE=1 in the environment they go wrong for about
one in k combinations of the numbers at hand instead.  Same format as
gen.mutants; the text calls _vf_late or _vf_rare, which PRELUDE, put in front
of the first import, defines."""
import ast
import os
import re

import gen

PRELUDE = """_vf_seen = {}


def _vf_late(i, k):
    _vf_seen[i] = _vf_seen.get(i, 0) + 1
    return _vf_seen[i] > k


def _vf_rare(i, k, d):
    import zlib
    h = 0

    def take(n, v, deep):
        nonlocal h
        if hasattr(v, "dtype") and getattr(v, "ndim", 1) == 0:
            v = v.item()
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, (int, float, str)):
            h = zlib.crc32(("%d %s %s" % (h, n, v)).encode())
        elif isinstance(v, (list, tuple)) and len(v) < 6:
            for j, x in enumerate(v):
                take("%s.%d" % (n, j), x, False)
        elif deep and hasattr(v, "__dict__"):
            w = vars(v)
            for m in sorted(w):
                take(n + "." + m, w[m], False)

    for n in sorted(d):
        take(n, d[n], True)
    return h and zlib.crc32(b"%d %d" % (i, h)) % k == 0


"""
RARE = os.environ.get("RARE")
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*",
       ast.FloorDiv: "+", ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&",
       ast.BitXor: "|", ast.LShift: ">>", ast.RShift: "<<", ast.Pow: "*"}


def prelude_at(path):
    src = open(path).read()
    off = gen.offsets(src)
    for n in ast.parse(src).body:
        if isinstance(n, (ast.Import, ast.ImportFrom)) and \
                getattr(n, "module", "") != "__future__":
            return off[n.lineno - 1]
    return 0


def mutants(path, k):
    src = open(path).read()
    b = src.encode()
    off = gen.offsets(src)
    tree = ast.parse(src)
    out = []

    def pos(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        s, e = pos(n)
        return b[s:e].decode()

    def add(n, new, what):
        s, e = pos(n)
        old = b[s:e].decode()
        out.append(dict(
            file=path, line=n.lineno, what=what, start=s, end=e, old=old,
            text="((%s) if _vf_late(%d, %d) else (%s))" % (
                new, len(out), k, old)))

    def drop(n):
        s, e = pos(n)
        old = b[s:e].decode()
        out.append(dict(file=path, line=n.lineno, what="drop", start=s, end=e,
                        old=old, text="if not _vf_late(%d, %d): %s" % (
                            len(out), k, old)))

    def visit(n):
        if isinstance(n, (ast.Assert, ast.JoinedStr)):
            return
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "print":
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in gen.CMP.get(type(n.ops[0]), ()):
                add(n, "%s %s %s" % (text(n.left), o,
                                     text(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.left, ast.Constant) and
                isinstance(n.left.value, str)):
            add(n, "(%s) %s (%s)" % (text(n.left), BIN[type(n.op)],
                                     text(n.right)), "bin")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, o.join("(%s)" % text(v) for v in n.values), "bool")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, bool):
            add(n, str(not n.value) if isinstance(n.value, bool)
                else str(n.value + 1), "const")
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, "True", "cond")
            add(n.test, "False", "cond")
        elif isinstance(n, ast.AugAssign):
            drop(n)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            drop(n)
        elif isinstance(n, ast.Assign) and isinstance(
                n.targets[0], (ast.Attribute, ast.Subscript)):
            drop(n)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and \
                n.name != "__init__":
            for s in n.body:
                if not isinstance(s, ast.FunctionDef):
                    visit(s)
    seen = set()
    res = []
    for m in out:
        key = m["start"], m["end"], m["what"], m["text"].split(" if _vf")[0]
        if key not in seen:
            seen.add(key)
            if RARE:
                m["text"] = re.sub(r"_vf_late\((\d+), (\d+)\)",
                                   r"_vf_rare(\1, \2, locals())", m["text"])
            res.append(m)
    return res
