"""Development aid: plants small mechanical changes one at a time in copies of the code and says which ones the checks miss.

   python3 tools/mutate.py REGION-REGEX N [SEED]     (region: file:Class.function)"""
import ast, copy, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
CHECKS = [
 (r"path:PathLexicalParser|constants:.*", "P01 P02 P03"),
 (r"path:(Move|Line|Close|Linear|Curve|PathSegment)\b", "P14 P11 P12 G12 P01 P04 P10 G01 G03 P07 G02 G07 P05 G04"),
 (r"path:(QuadraticBezier|CubicBezier)\b", "P14 P11 P12 G01 G03 G04 P04 P10 G07 P07 P01"),
 (r"path:Arc\b", "G05 G10 G11 G01 G03 G06 G04 G07 P10 P04 P07 P11 P12 P14"),
 (r"path:Path\b", "P14 P12 P13 P06 P05 P08 P09 P10 P04 P01 P07 G02 G06 P02 P03 G07"),
 (r"path:Subpath\b", "P14 P12 P13 P09 P08 P10 P04 P07 P06"),
 (r"basic:Length\b", "V04 P07"), (r"basic:Color\b", "V01 V02 V03 P07"), (r"basic:Angle\b", "V05 T02"),
 (r"basic:Point\b", "G09 G08 P07 T01"), (r"basic:Matrix\b", "T01 T02 G07 P07"), (r"basic:Viewbox\b", "T03"),
 (r"nodes:", "D01 D02 D03 D04 D05 D06 D07 D08"), (r"basic:", "V01 V04 V05 T01 G09"), (r"path:", "P01 P04 G01 G04"),
]
SKIP = re.compile(r"nodes:parse$|nodes:_shadow|nodes:.*\.(unit_matrix|arc_t|arc_angle|point_at_angle|angle_at|t_at|_ramanujan|load|parse_font|property_by)|__repr__|_repr_shape|arc_length_via|render")


def functions(tree):
    def rec(node, name):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.ClassDef):
                yield from rec(c, name + c.name + ".")
            elif isinstance(c, (ast.FunctionDef,)):
                yield name + c.name, c
    yield from rec(tree, "")


def mutations(fn):
    """(description, function that changes the tree in place), addressed by position in ast.walk order."""
    out = []
    for i, n in enumerate(ast.walk(fn)):
        if isinstance(n, ast.Compare):
            sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            out.append((i, "cmp"))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv, ast.Mod, ast.BitAnd, ast.LShift, ast.RShift, ast.Pow)):
            out.append((i, "op"))
            if isinstance(n.op, (ast.Sub, ast.Div)):
                out.append((i, "swap"))
        elif isinstance(n, ast.AugAssign):
            out.append((i, "op"))
        elif isinstance(n, ast.BoolOp):
            out.append((i, "bool")); out.append((i, "dropfirst")); out.append((i, "droplast"))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append((i, "unary"))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
            out.append((i, "const"))
        elif isinstance(n, (ast.If, ast.IfExp)):
            out.append((i, "true")); out.append((i, "false"))
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            out.append((i, "args"))
        elif isinstance(n, ast.Attribute) and n.attr in ("x", "y", "start", "end", "rx", "ry", "control1", "control2", "a", "b", "c", "d", "e", "f"):
            out.append((i, "attr"))
        if hasattr(n, "body") and isinstance(getattr(n, "body"), list):
            for k, s in enumerate(n.body):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.For, ast.Delete)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    out.append((i, "del%d" % k))
    return out


ATTR = {"x": "y", "y": "x", "start": "end", "end": "start", "rx": "ry", "ry": "rx", "control1": "control2", "control2": "control1", "a": "b", "b": "c", "c": "b", "d": "a", "e": "f", "f": "e"}


def mutate(fn, i, kind):
    n = list(ast.walk(fn))[i]
    before = ast.unparse(n)
    if kind == "cmp":
        sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        n.ops[0] = sw[type(n.ops[0])]()
    elif kind == "op":
        sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.Pow: ast.Mult, ast.MatMult: ast.Mult}
        n.op = sw[type(n.op)]()
    elif kind == "swap":
        n.left, n.right = n.right, n.left
    elif kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "dropfirst":
        n.values = n.values[1:] if len(n.values) > 2 else [n.values[1], n.values[1]]
    elif kind == "droplast":
        n.values = n.values[:-1] if len(n.values) > 2 else [n.values[0], n.values[0]]
    elif kind == "unary":
        if isinstance(n.op, ast.Not):
            n.operand = ast.UnaryOp(ast.Not(), n.operand)
        else:
            n.op = ast.UAdd()
    elif kind == "const":
        n.value = (not n.value) if isinstance(n.value, bool) else n.value + 1 if isinstance(n.value, int) else n.value * 1.25 + (0.125 if n.value == 0 else 0)
    elif kind in ("true", "false"):
        n.test = ast.Constant(kind == "true")
    elif kind == "args":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == "attr":
        n.attr = ATTR[n.attr]
    elif kind.startswith("del"):
        k = int(kind[3:])
        before = ast.unparse(n.body[k])
        n.body[k] = ast.Pass()
        return before.splitlines()[0], "(deleted)", getattr(n.body[k], "lineno", getattr(n, "lineno", 0))
    return before.splitlines()[0], ast.unparse(ast.fix_missing_locations(n)).splitlines()[0], getattr(n, "lineno", 0)


def main():
    region, count = re.compile(sys.argv[1]), int(sys.argv[2])
    rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    only = os.environ.get("MUT_CHECKS")
    pool = []
    for name in ("path", "basic", "nodes"):
        src = open("%s/svgio/%s.py" % (REPO, name)).read()
        for fname, fn in functions(ast.parse(src)):
            full = name + ":" + fname
            if region.search(full) and not SKIP.search(full):
                pool += [(name, fname, i, k) for i, k in mutations(fn)]
    picked = rng.sample(pool, min(count, len(pool)))
    print("%d of %d" % (len(picked), len(pool)), flush=True)
    free = list(range(int(os.environ.get("MUT_PAR", "8"))))
    tally = {}

    def one(m):
        name, fname, i, kind = m
        w = free.pop()
        d = "/tmp/mut/w%d" % w
        try:
            shutil.rmtree(d, True)
            os.makedirs(d)
            shutil.copytree(REPO + "/svgio", d + "/svgio")
            shutil.copytree(HERE + "/../harness", d + "/v/harness"); shutil.copytree(HERE + "/../spec", d + "/v/spec"); shutil.copytree(HERE, d + "/v/tools")
            shutil.copy(HERE + "/../known-findings.json", d + "/v/")
            p = "%s/svgio/%s.py" % (d, name)
            tree = ast.parse(open(p).read())
            fn = [f for n, f in functions(tree) if n == fname][-1] if False else None
            fns = [f for n, f in functions(tree) if n == fname]
            # properties have a getter and a setter of one name
            for f in fns:
                ms = mutations(f)
                if (i, kind) in ms:
                    fn = f
                    break
            a, b, line = mutate(fn, i, kind)
            open(p, "w").write(ast.unparse(ast.fix_missing_locations(tree)))
            full = name + ":" + fname
            todo = only.split() if only else next(c for r, c in CHECKS if re.search(r, full)).split()
            verdict = "SURVIVED"
            odd = []
            for c in todo:
                e = dict(os.environ, SVGIO_REPO=d, MUT_WORKERS="1")
                try:
                    r = subprocess.run(["/opt/venv/bin/python", d + "/v/tools/cached.py", c], env=e, capture_output=True, text=True, timeout=600)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                if rc == 1:
                    verdict = "killed " + c
                    break
                if rc != 0:
                    odd.append("%s rc %s: %s" % (c, rc, (r.stdout + r.stderr)[-300:].replace("\n", " | ") if rc != 99 else "timeout"))
            tally[verdict] = tally.get(verdict, 0) + 1
            if verdict == "SURVIVED" or odd:
                print("%s %s:%d [%s] %s  ==>  %s %s" % (verdict, full, line, kind, a[:150], b[:150], odd or ""), flush=True)
        except Exception as e:
            print("ERR", m, repr(e)[:300], flush=True)
        finally:
            free.append(w)

    with ThreadPoolExecutor(len(free)) as ex:
        list(ex.map(one, picked))
    print(tally)


main()
