"""tools/sweep.py FILE CHECKS [--n N] [--seed S] [--jobs J] [--funcs a,b]  : sample single-point mutants of a source file, run the
given checks (in order, until one reports) on a scratch copy of /repo with the mutant, list those that no check reports."""
import argparse, ast, copy, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ap = argparse.ArgumentParser()
ap.add_argument("file"); ap.add_argument("checks"); ap.add_argument("--n", type=int, default=40); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--jobs", type=int, default=3); ap.add_argument("--funcs", default=""); ap.add_argument("--skip", default="")
ap.add_argument("--verif", default=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
A = ap.parse_args()
SRC = open("/repo/" + A.file).read()
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Pow: ast.Mult, ast.Mod: ast.Mult}


def variants(n):
    """functions that change a node in place (or return a replacement)"""
    out = []
    if isinstance(n, ast.Compare):
        for i, o in enumerate(n.ops):
            for c in CMP.get(type(o), []):
                out.append(("compare", lambda m, i=i, c=c: m.ops.__setitem__(i, c())))
    if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
        out.append(("operator", lambda m: setattr(m, "op", BIN[type(m.op)]())))
    if isinstance(n, ast.BoolOp):
        out.append(("andor", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())))
        for i in range(len(n.values)):
            out.append(("dropcond", lambda m, i=i: m.values.pop(i) and None))
    if isinstance(n, ast.Constant) and isinstance(n.value, bool):
        out.append(("bool", lambda m: setattr(m, "value", not m.value)))
    elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
        out.append(("const", lambda m: setattr(m, "value", m.value + 1)))
        if n.value:
            out.append(("const", lambda m: setattr(m, "value", m.value - 1 if isinstance(m.value, int) else m.value / 2)))
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
        out.append(("unary", lambda m: m.operand))
    if isinstance(n, (ast.If, ast.While, ast.IfExp)):
        out.append(("negate", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test))))
    if isinstance(n, ast.If) and n.orelse:
        out.append(("noelse", lambda m: setattr(m, "orelse", [])))
    if isinstance(n, (ast.Expr,)) and isinstance(n.value, ast.Call):
        out.append(("delcall", lambda m: ast.Pass()))
    if isinstance(n, (ast.Assign, ast.AugAssign)):
        out.append(("delassign", lambda m: ast.Pass()))
    if isinstance(n, (ast.Break, ast.Continue, ast.Assert, ast.Raise)):
        out.append(("del" + type(n).__name__, lambda m: ast.Pass()))
    if isinstance(n, ast.Return) and n.value is not None:
        out.append(("return", lambda m: setattr(m, "value", ast.Constant(None))))
    if isinstance(n, ast.Call):
        if len(n.args) >= 2:
            i = len(n.args) - 2
            out.append(("swapargs", lambda m, i=i: m.args.__setitem__(slice(i, i + 2), m.args[i:i + 2][::-1])))
        for i, k in enumerate(n.keywords):
            if k.arg:
                out.append(("dropkw", lambda m, i=i: m.keywords.pop(i) and None))
    return out


tree = ast.parse(SRC)
skip = set(A.skip.split(",")) - {""}
funcs = set(A.funcs.split(",")) - {""}
sites = []
def walk(n, path, fn):
    if isinstance(n, ast.FunctionDef):
        fn = fn + [n.name]
    inside = fn and (not funcs or funcs & set(fn)) and not (skip & set(fn))
    if inside and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        for k, v in enumerate(variants(n)):
            sites.append((path, k, v[0], getattr(n, "lineno", 0), ".".join(fn)))
    for f, v in ast.iter_fields(n):
        if f in ("annotation", "returns"):
            continue
        if isinstance(v, ast.AST):
            walk(v, path + [(f, None)], fn)
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, ast.AST):
                    walk(x, path + [(f, i)], fn)
walk(tree, [], [])


def build(site):
    t = copy.deepcopy(tree)
    parent, n, last = None, t, None
    for f, i in site[0]:
        parent, last = n, (f, i)
        n = getattr(n, f) if i is None else getattr(n, f)[i]
    old = ast.unparse(n).split("\n")[0]
    r = variants(n)[site[1]][1](n)
    if isinstance(r, ast.AST):
        f, i = last
        if i is None:
            setattr(parent, f, r)
        else:
            getattr(parent, f)[i] = r
        n = r
    ast.fix_missing_locations(t)
    return ast.unparse(t), old, ast.unparse(n).split("\n")[0]


def one(site):
    try:
        src, old, new = build(site)
        compile(src, "m", "exec")
    except Exception as e:
        return ("invalid", site, str(e), "", "")
    d = tempfile.mkdtemp(prefix="swp")
    subprocess.run("cp -a /repo/. %s/" % d, shell=True)
    open(os.path.join(d, A.file), "w").write(src + "\n")
    res = []
    for c in A.checks.split(","):
        try:
            r = subprocess.run([A.verif + "/check", c], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            res.append("%s:%d" % (c, r.returncode))
            if r.returncode == 1:
                break
        except subprocess.TimeoutExpired:
            res.append(c + ":T")
    shutil.rmtree(d, True)
    return ("caught" if res and res[-1].endswith(":1") else "error" if any(x.endswith((":2", ":T")) for x in res) else "MISSED", site, old, new, " ".join(res))


rng = random.Random(A.seed)
rng.shuffle(sites)
pick = sites[:A.n]
print("%d sites, %d tried" % (len(sites), len(pick)), flush=True)
tot = {}
with ThreadPoolExecutor(A.jobs) as ex:
    for kind, s, old, new, res in ex.map(one, pick):
        tot[kind] = tot.get(kind, 0) + 1
        if kind not in ("caught", "invalid"):
            print("%-6s %s:%d %s [%s]  %s  ->  %s   (%s)" % (kind, A.file, s[3], s[4], s[2], old[:110], new[:110], res), flush=True)
print(A.file, tot, flush=True)
