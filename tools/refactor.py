"""tools/refactor.py DEST [--steps a,b,...] : copy /repo to DEST with behaviour-preserving edits of every source file:
unparse (comments, formatting), noop, temp (return values named), swap (if/else branches exchanged), wrap (functions' bodies
moved into helpers), locals (local variables renamed), private (underscored methods and attributes renamed)."""
import argparse, ast, os, subprocess, symtable
ap = argparse.ArgumentParser()
ap.add_argument("dest"); ap.add_argument("--steps", default="noop,temp,swap,wrap,locals,private")
A = ap.parse_args()
STEPS = A.steps.split(",")
subprocess.run(["cp", "-a", "/repo/.", A.dest], check=True)
files = [f for f in subprocess.run(["git", "-C", "/repo", "ls-files", "*.py"], text=True, capture_output=True).stdout.split() if not f.startswith("tests/")]
trees = {f: ast.parse(open(os.path.join("/repo", f)).read()) for f in files}
defined = set()
for t in trees.values():
    for n in ast.walk(t):
        if isinstance(n, ast.FunctionDef):
            defined.add(n.name)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            defined.add(n.attr)
PRIV = {x for x in defined if x.startswith("_") and not x.startswith("__")}
TESTS = subprocess.run("cat /repo/tests/*.py", shell=True, text=True, capture_output=True).stdout
PRIV = {x for x in PRIV if x not in TESTS}


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(i, ast.parse("pass").body[0])
        return n


class Temp(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("answer_to_give", ast.Store())], n.value), ast.Return(ast.Name("answer_to_give", ast.Load()))]


class Swap(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and not (isinstance(n.test, ast.Compare) and "__name__" in ast.unparse(n.test)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class Wrap(ast.NodeTransformer):
    """def f(a, b=1): body   ->   def f(a, b=1): return f_inner(a, b);  def f_inner(a, b): body"""
    def __init__(self):
        self.cls = 0
    def visit_ClassDef(self, n):
        self.cls += 1
        self.generic_visit(n)
        self.cls -= 1
        return n
    def visit_FunctionDef(self, n):
        a = n.args
        if n.decorator_list or n.name.startswith("__") or any(isinstance(x, (ast.Nonlocal, ast.Yield, ast.YieldFrom)) for x in ast.walk(n)) or "super()" in ast.unparse(n):
            return n
        names = [x.arg for x in a.posonlyargs + a.args]
        inner = ast.FunctionDef("_" + n.name.strip("_") + "_inner", ast.arguments([], [ast.arg(x) for x in names], ast.arg(a.vararg.arg) if a.vararg else None,
                                [ast.arg(x.arg) for x in a.kwonlyargs], [None] * len(a.kwonlyargs), ast.arg(a.kwarg.arg) if a.kwarg else None, []), n.body, [])
        inner.type_params = []
        call = names[1:] if self.cls else names
        args = [ast.Name(x, ast.Load()) for x in call] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else [])
        kws = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else [])
        f = ast.Attribute(ast.Name(names[0], ast.Load()), inner.name, ast.Load()) if self.cls and names else ast.Name(inner.name, ast.Load())
        if self.cls and not names:
            return n
        outer = ast.FunctionDef(n.name, a, [ast.Return(ast.Call(f, args, kws))], [])
        outer.type_params = []
        if self.cls:
            # an overriding method must not be called by the parent's wrapper
            inner.name = f.attr = inner.name + "_of_" + CLASS[0] if CLASS[0] else inner.name
        return [inner, outer]


CLASS = [""]


class WrapC(Wrap):
    def visit_ClassDef(self, n):
        old, CLASS[0] = CLASS[0], n.name.lower()
        r = super().visit_ClassDef(n)
        CLASS[0] = old
        return r


class Locals(ast.NodeTransformer):
    """Locals of functions without nested scopes."""
    def visit_FunctionDef(self, n):
        nested = [x for x in ast.walk(n) if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]
        if nested:
            self.generic_visit(n)
            return n
        args = {x.arg for x in n.args.args + n.args.kwonlyargs + n.args.posonlyargs} | {x.arg for x in (n.args.vararg, n.args.kwarg) if x}
        glob = {y for x in ast.walk(n) if isinstance(x, (ast.Global, ast.Nonlocal)) for y in x.names}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args - glob
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "vars", "eval", "exec") for x in ast.walk(n)):
            return n
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + "_v"
        return n


class Private(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name in PRIV:
            n.name = n.name + "_p"
        return n
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in PRIV:
            n.attr += "_p"
        return n
    def visit_Name(self, n):
        if n.id in PRIV:
            n.id += "_p"
        return n


T = dict(noop=Noop, temp=Temp, swap=Swap, wrap=WrapC, locals=Locals, private=Private)
for f, t in trees.items():
    for s in STEPS:
        if s in T:
            t = T[s]().visit(t)
            ast.fix_missing_locations(t)
    src = ast.unparse(t) + "\n"
    compile(src, f, "exec")
    open(os.path.join(A.dest, f), "w").write(src)
