"""gen.py FILE...: lists the mutants of Python files as JSON lines
{file, line, what, start, end, text} (byte offsets)."""
import ast
import json
import sys


def offsets(src):
    o, n = [0], 0
    for l in src.splitlines(True):
        n += len(l.encode())
        o.append(n)
    return o


CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"],
       ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"],
       ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.Div: ["*", "//"],
       ast.FloorDiv: ["/"], ast.Mod: ["//"], ast.BitAnd: ["|"],
       ast.BitOr: ["&"], ast.BitXor: ["|", "&"], ast.LShift: [">>"],
       ast.RShift: ["<<"], ast.Pow: ["*"]}
AUG = {ast.Add: "-=", ast.Sub: "+=", ast.BitAnd: "|=", ast.BitXor: "|=",
       ast.Mult: "/=", ast.Div: "*=", ast.RShift: "<<=", ast.BitOr: "&="}


def mutants(path):
    src = open(path).read()
    b = src.encode()
    off = offsets(src)
    tree = ast.parse(src)

    def pos(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        s, e = pos(n)
        return b[s:e].decode()

    docs = set()
    types = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and \
                n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
            docs.add(id(n.body[0].value))
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args:
                if a.annotation:
                    types.update(id(x) for x in ast.walk(a.annotation))
            if n.returns:
                types.update(id(x) for x in ast.walk(n.returns))
        if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "print":
            types.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and \
                getattr(n.func, "attr", "") == "Log":
            types.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Assert):
            types.update(id(x) for x in ast.walk(n))
    out = []

    def add(n, new, what, span=None):
        s, e = span or pos(n)
        if b[s:e].decode() != new:
            out.append(dict(file=path, line=n.lineno, what=what, start=s,
                            end=e, text=new, old=b[s:e].decode()))

    for n in ast.walk(tree):
        if id(n) in docs or id(n) in types:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), ()):
                add(n, "%s %s %s" % (text(n.left), o,
                                     text(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and not (
                isinstance(n.left, ast.Constant) and
                isinstance(n.left.value, str)):
            s = pos(n.left)[1]
            e = pos(n.right)[0]
            mid = b[s:e].decode()
            sym = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/",
                   ast.FloorDiv: "//", ast.Mod: "%", ast.BitAnd: "&",
                   ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<",
                   ast.RShift: ">>", ast.Pow: "**"}[type(n.op)]
            for o in BIN.get(type(n.op), ()):
                if mid.count(sym) == 1:
                    add(n, mid.replace(sym, o), "bin", (s, e))
        elif isinstance(n, ast.AugAssign) and type(n.op) in AUG:
            s = pos(n.target)[1]
            e = pos(n.value)[0]
            add(n, " %s " % AUG[type(n.op)], "aug", (s, e))
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(%s)" % text(v) for v in n.values) + ")",
                "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (
                ast.Not, ast.Invert, ast.USub)):
            add(n, "(%s)" % text(n.operand), "unary")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), "const")
            elif isinstance(v, int):
                t = text(n)
                add(n, str(v + 1), "const")
                if v:
                    add(n, str(v - 1), "const")
                if v > 3:
                    add(n, str(v ^ (1 << (v.bit_length() // 2))), "const")
            elif isinstance(v, float):
                add(n, repr(v * 1.01), "const")
                add(n, repr(v + 1), "const")
            elif isinstance(v, str) and v and text(n)[0] in "'\"":
                add(n, text(n)[0] + "x" + text(n)[1:], "str")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, "True", "cond")
            add(n.test, "False", "cond")
            if not isinstance(n.test, ast.Constant):
                add(n.test, "not (%s)" % text(n.test), "cond")
        elif isinstance(n, ast.Break):
            add(n, "continue", "break")
            add(n, "pass", "break")
        elif isinstance(n, ast.Continue):
            add(n, "break", "cont")
            add(n, "pass", "cont")
        elif isinstance(n, ast.Call) and len(n.args) + len(n.keywords) > 1 \
                and getattr(n.func, "id", "") != "isinstance":
            for i, k in enumerate(n.keywords):
                if i or n.args:
                    s = pos((n.args + [x.value for x in n.keywords])[
                        len(n.args) + i - 1])[1]
                    add(k.value, "", "dropkw", (s, pos(k.value)[1]))
            if len(n.args) == 2:
                add(n, "%s(%s, %s)" % (text(n.func), text(n.args[1]),
                                       text(n.args[0])), "swap") \
                    if not n.keywords else None
        elif isinstance(n, ast.Slice):
            if n.lower is None and n.upper is None:
                pass
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Return,
                          ast.Raise)) and id(n) not in docs:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and \
                    getattr(n.value.func, "id", "") == "print":
                continue
            if isinstance(n, ast.Return) and n.value is None:
                continue
            add(n, "pass", "del")
    return out


if __name__ == "__main__":
    for f in sys.argv[1:]:
        for m in mutants(f):
            print(json.dumps(m))
