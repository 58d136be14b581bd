"""Flow-insensitive source rules per property."""
import ast
import os
import re
import warnings


def sources(root):
    base = os.path.join(root, 'mpnum')
    for d, sub, files in os.walk(base):
        sub[:] = sorted(x for x in sub if x not in ('tests', '__pycache__'))
        for f in sorted(files):
            if f.endswith('.py') and f != '_testing.py':
                p = os.path.join(d, f)
                yield os.path.relpath(p, root), open(p, encoding='utf-8').read()


def functions(tree):
    def walk(node, pre, public):
        for c in node.body:
            if isinstance(c, ast.ClassDef):
                for x in walk(c, pre + c.name + '.', public and not c.name.startswith('_')):
                    yield x
            elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield c, pre + c.name, public and (not c.name.startswith('_') or c.name == '__init__')
    return walk(tree, '', True)


def params(fn):
    a = fn.args
    out = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs]
    return out + [x.arg for x in (a.vararg, a.kwarg) if x is not None]


def documented(doc, name):
    return bool(doc) and re.search(r':param\s[^:]*\b%s\b[^:]*:|`+%s`+' % (re.escape(name), re.escape(name)), doc)


def dead_options(root):
    """A documented parameter of a public function whose value is never read."""
    out = []
    for rel, text in sources(root):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(text)
        except SyntaxError:
            continue
        for fn, qual, public in functions(tree):
            if not public:
                continue
            doc = ast.get_docstring(fn) or ''
            body = fn.body[1:] if ast.get_docstring(fn) is not None else fn.body
            if not body or all(isinstance(s, (ast.Pass, ast.Raise)) for s in body):
                continue
            reads = {n.id for s in body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
            aug = {n.target.id for s in body for n in ast.walk(s)
                   if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
            dyn = bool(reads & {'locals', 'vars', 'eval', 'exec'})
            for p in params(fn):
                if p in ('self', 'cls') or not documented(doc, p):
                    continue
                ok = p in reads or p in aug or dyn
                out.append(dict(case='read:%s.%s(%s)' % (rel[:-3].replace(os.sep, '.'), qual, p),
                                status='proved' if ok else 'violated',
                                rule='documented parameter is read',
                                note='' if ok else 'documented parameter %s of %s is never read' % (p, qual),
                                where='%s:%d' % (rel, fn.lineno)))
    return out


def run(prop, root):
    if prop == 'C15':
        return dead_options(root)
    return []
