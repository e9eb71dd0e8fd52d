"""Behaviour-preserving rewrite of the whole package, to look for false alarms.

    refactor.py DEST [--ops assoc,ifelse,wrap,temp,swap,rename]

Copies /repo to DEST and rewrites every module of quantas/ mechanically:
  assoc   (a*b)*c -> a*(b*c), (a+b)+c -> a+(b+c), (a*b)/c -> a*(b/c)
          (same mathematics, other rounding)
  swap    a*b -> b*a for numeric-looking operands
  ifelse  if c: A else: B -> if not c: B else: A
  wrap    the body of every plain function moves to a helper
  temp    return e -> value = e; return value
  rename  local variables get other names
Then run the checks with VERIF_REPO=DEST; all must stay quiet.
"""
import ast
import os
import shutil
import subprocess
import sys

OPS = ('assoc', 'ifelse', 'wrap', 'temp', 'swap', 'rename')


def texty(n):
    return any(isinstance(x, (ast.JoinedStr, ast.List, ast.Tuple)) or
               isinstance(x, ast.Constant) and isinstance(x.value, str) or
               isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
               x.func.id in ('str', 'list', 'tuple', 'len')
               for x in ast.walk(n))


class Assoc(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        left = n.left
        if not isinstance(left, ast.BinOp) or texty(n):
            return n
        for op in (ast.Mult, ast.Add):
            if isinstance(n.op, op) and isinstance(left.op, op):
                return ast.BinOp(left.left, n.op, ast.BinOp(
                    left.right, n.op, n.right))
        if isinstance(n.op, ast.Div) and isinstance(left.op, ast.Mult):
            return ast.BinOp(left.left, left.op, ast.BinOp(
                left.right, n.op, n.right))
        return n


class Swap(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Mult, ast.Add)) and not texty(n) and \
                not any(isinstance(x, (ast.Call, ast.Await))
                        for x in ast.walk(n)) and isinstance(n.op, ast.Mult):
            return ast.BinOp(n.right, n.op, n.left)
        return n


class IfElse(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class Temp(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, ast.Name):
            return n
        return [ast.Assign([ast.Name('outcome_', ast.Store())], n.value),
                ast.Return(ast.Name('outcome_', ast.Load()))]


class Rename(ast.NodeTransformer):
    """Local variables of functions without nested scopes."""

    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                              ast.Global, ast.Nonlocal, ast.ListComp,
                              ast.DictComp, ast.SetComp, ast.GeneratorExp))
               for b in n.body for x in ast.walk(b)):
            self.generic_visit(n)
            return n
        if any(isinstance(x, ast.Name) and x.id in ('locals', 'vars', 'eval')
               for x in ast.walk(n)):
            return n
        args = {a.arg for a in n.args.args + n.args.kwonlyargs +
                n.args.posonlyargs}
        args |= {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        loc = {x.id for b in n.body for x in ast.walk(b)
               if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        imp = {(a.asname or a.name).split('.')[0] for b in n.body
               for x in ast.walk(b)
               if isinstance(x, (ast.Import, ast.ImportFrom))
               for a in x.names}
        loc -= args | imp
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in loc:
                    x.id += '_v'
        return n


class Wrap(ast.NodeTransformer):
    def __init__(self):
        self.cls = None

    def visit_ClassDef(self, n):
        old, self.cls = self.cls, n.name
        out = []
        for b in n.body:
            if isinstance(b, ast.FunctionDef):
                out += self.split(b, True)
            else:
                out.append(self.visit(b))
        n.body = out
        self.cls = old
        return n

    def visit_Module(self, n):
        out = []
        for b in n.body:
            if isinstance(b, ast.FunctionDef):
                out += self.split(b, False)
            elif isinstance(b, ast.ClassDef):
                out.append(self.visit(b))
            else:
                out.append(b)
        n.body = out
        return n

    def split(self, f, method):
        if f.decorator_list or f.name.startswith('__') or any(
                isinstance(x, (ast.Yield, ast.YieldFrom))
                for x in ast.walk(f)):
            return [f]
        a = f.args
        if a.posonlyargs or (method and not a.args):
            return [f]
        name = '_%s_%s_impl' % (self.cls or 'mod', f.name.strip('_'))
        pos = [ast.Name(x.arg, ast.Load()) for x in a.args]
        if method:
            head = ast.Attribute(pos.pop(0), name, ast.Load())
        else:
            head = ast.Name(name, ast.Load())
        if a.vararg:
            pos.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()),
                                   ast.Load()))
        kw = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load()))
              for x in a.kwonlyargs]
        if a.kwarg:
            kw.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
        inner = ast.FunctionDef(name, a, f.body, [], None, None)
        doc = [f.body[0]] if ast.get_docstring(f) is not None else []
        if doc and len(f.body) == 1:
            return [f]
        inner.body = f.body[len(doc):]
        f.body = doc + [ast.Return(ast.Call(head, pos, kw))]
        return [inner, f]


def rewrite(text, ops):
    t = ast.parse(text)
    for name, cls in (('rename', Rename), ('assoc', Assoc), ('swap', Swap),
                      ('ifelse', IfElse), ('temp', Temp), ('wrap', Wrap)):
        if name in ops:
            t = cls().visit(t)
    return ast.unparse(ast.fix_missing_locations(t)) + '\n'


def main():
    dst = sys.argv[1]
    ops = OPS
    if '--ops' in sys.argv:
        ops = sys.argv[sys.argv.index('--ops') + 1].split(',')
    subprocess.check_call(['cp', '-a', '/repo', dst])
    n = 0
    for d, _, fs in os.walk(os.path.join(dst, 'quantas')):
        for f in fs:
            if f.endswith('.py'):
                p = os.path.join(d, f)
                with open(p, encoding='utf8') as g:
                    s = g.read()
                with open(p, 'w', encoding='utf8') as g:
                    g.write(rewrite(s, ops))
                n += 1
    print('%d modules rewritten (%s)' % (n, ','.join(ops)))


if __name__ == '__main__':
    main()
