"""development helper: behaviour-preserving rewrites of the package, to see that the checks stay quiet
usage: refactor.py TRANSFORM SRC_DIR DST_DIR   (copies SRC to DST with the transform applied to every function)"""
import ast
import os
import sys
import shutil
import copy

FILES = ['utils', 'sph', 'decoder', 'sig', 'process', 'parsa', 'grids', 'io']


def locals_of(fn):
    args = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    if fn.args.vararg:
        args.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        args.add(fn.args.kwarg.arg)
    names, bad = set(), set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            bad |= {a.asname or a.name for a in n.names}
        elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            bad |= {a.arg for a in n.args.args}
            if isinstance(n, ast.FunctionDef):
                bad.add(n.name)
    return args, names - args - bad


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, fn):
        args, loc = locals_of(fn)
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + '_v'
        return fn


class ReturnTemp(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name('result_', ast.Store())], n.value), ast.Return(ast.Name('result_', ast.Load()))]

    def visit_Lambda(self, n):
        return n


class Comp(ast.NodeTransformer):
    k = 0

    def visit_Assign(self, n):
        c = n.value
        if isinstance(c, ast.ListComp) and len(c.generators) == 1 and isinstance(n.targets[0], ast.Name):
            g = c.generators[0]
            Comp.k += 1
            t = f'items_{Comp.k}'
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), 'append', ast.Load()), [c.elt], []))]
            for i in g.ifs:
                body = [ast.If(i, body, [])]
            return [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())),
                    ast.For(g.target, g.iter, body, []), ast.Assign(n.targets, ast.Name(t, ast.Load()))]
        return n


class Swap(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class Commute(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mult):
            return ast.BinOp(n.right, n.op, n.left)
        return n


class Hoist(ast.NodeTransformer):
    """first argument of the outermost call goes to a temporary"""
    k = 0

    def _h(self, n):
        v = n.value
        while isinstance(v, (ast.BinOp,)):
            v = v.left
        if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.Call, ast.BinOp)) and \
                isinstance(v.func, (ast.Name, ast.Attribute)) and not (
                    isinstance(v.func, ast.Attribute) and not isinstance(v.func.value, (ast.Name, ast.Attribute))):
            Hoist.k += 1
            t = f'tmp_{Hoist.k}'
            a = v.args[0]
            v.args[0] = ast.Name(t, ast.Load())
            return [ast.Assign([ast.Name(t, ast.Store())], a), n]
        return n

    def visit_Assign(self, n):
        return self._h(n)

    def visit_Return(self, n):
        return self._h(n) if n.value is not None else n

    def visit_Lambda(self, n):
        return n


class ElseFlat(ast.NodeTransformer):
    """if c: ...return; else: rest  ->  guard clause"""
    def flat(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                out.append(ast.If(s.test, s.body, []))
                out += self.flat(s.orelse)
            else:
                out.append(s)
        return out

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.flat(n.body)
        return n


class Augment(ast.NodeTransformer):
    """x = x + c for integer counters is left alone; x *= y on subscripts becomes x[i] = x[i] * y"""
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Subscript) and isinstance(n.target.value, ast.Name) and \
                isinstance(n.target.slice, (ast.Name, ast.Constant)):
            l = copy.deepcopy(n.target)
            l.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(l, n.op, n.value))
        return n


def impl(tree):
    """every function delegates to a helper with the whole body"""
    def do(body, cls=None):
        out = []
        for s in body:
            if isinstance(s, ast.ClassDef):
                s.body = do(s.body, s.name)
            elif isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.vararg and not s.args.kwarg \
                    and not s.args.kwonlyargs and not s.name.startswith('__') and not any(
                        isinstance(n, (ast.Global, ast.Yield)) or (isinstance(n, ast.Name) and n.id == 'super')
                        for n in ast.walk(s)):
                h = copy.deepcopy(s)
                h.name = '_impl_' + s.name
                h.args.defaults = []
                h.decorator_list = []
                doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                a = [x.arg for x in s.args.args]
                if cls:
                    f = ast.Attribute(ast.Name(a[0], ast.Load()), h.name, ast.Load())
                    a = a[1:]
                else:
                    f = ast.Name(h.name, ast.Load())
                s.body = doc + [ast.Return(ast.Call(f, [ast.Name(x, ast.Load()) for x in a], []))]
                out.append(h)
            out.append(s)
        return out
    tree.body = do(tree.body)
    return tree


def tail(tree):
    """the second half of every straight-line function body moves to a helper taking the local variables it uses"""
    new = []

    def fnames(nodes, ctx):
        return {n.id for s in nodes for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ctx)}
    for s in list(tree.body):
        if isinstance(s, ast.FunctionDef) and len(s.body) > 4 and not any(
                isinstance(n, (ast.Global, ast.Yield, ast.FunctionDef, ast.Lambda)) for b in s.body for n in ast.walk(b)):
            args, _ = locals_of(s)
            k = len(s.body) // 2 + 1
            head, tl = s.body[:k], s.body[k:]
            if any(isinstance(n, ast.Return) for b in head for n in ast.walk(b)) or not isinstance(tl[-1], ast.Return):
                continue
            sure = set(args)
            for b in head:
                if isinstance(b, ast.Assign):
                    sure |= fnames(b.targets, ast.Store)
            maybe = fnames(head, ast.Store) | args
            used = fnames(tl, ast.Load) & maybe
            if not used <= sure or not used:
                continue
            used = sorted(used)
            mod = {n.targets[0].id for n in ast.walk(ast.Module(tl, [])) if isinstance(n, ast.Assign) and
                   isinstance(n.targets[0], ast.Name)}
            h = ast.FunctionDef('_tail_' + s.name, ast.arguments([], [ast.arg(u) for u in used], None, [], [], None, []),
                                tl, [], None)
            s.body = head + [ast.Return(ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(u, ast.Load()) for u in used], []))]
            new.append((s, h))
    for s, h in new:
        tree.body.insert(tree.body.index(s), h)
    return tree


T = dict(rename=lambda t: Rename().visit(t), rettemp=lambda t: ReturnTemp().visit(t), comp=lambda t: Comp().visit(t),
         swap=lambda t: Swap().visit(t), commute=lambda t: Commute().visit(t), hoist=lambda t: Hoist().visit(t),
         elseflat=lambda t: ElseFlat().visit(t), augment=lambda t: Augment().visit(t), impl=impl, tail=tail)

if __name__ == '__main__':
    name, src, dst = sys.argv[1:4]
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns('.git', 'docs'), dirs_exist_ok=True)
    for f in FILES:
        p = os.path.join(dst, 'spaudiopy', f + '.py')
        t = ast.parse(open(p).read())
        for n in name.split('+'):
            t = T[n](t)
        open(p, 'w').write(ast.unparse(ast.fix_missing_locations(t)) + '\n')
