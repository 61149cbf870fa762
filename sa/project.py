"""Parsed view of the repository: module name -> syntax tree (never imported)."""
import ast
import os


class Module:
    def __init__(self, name, path, tree, package):
        self.name, self.path, self.tree, self.package = name, path, tree, package


class Project:
    def __init__(self, root='/repo', package='maMDP'):
        self.root = root
        self.modules = {}
        self.lines = 0
        base = os.path.join(root, package)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d != '__pycache__')
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, root)
                parts = rel[:-3].split(os.sep)
                if parts[-1] == '__init__':
                    parts = parts[:-1]
                    pkg = '.'.join(parts)
                else:
                    pkg = '.'.join(parts[:-1])
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                self.lines += src.count('\n')
                name = '.'.join(parts)
                self.modules[name] = Module(name, rel, ast.parse(src, p), pkg)
        if not self.modules:
            raise SystemExit('no source found under %s' % base)

    def add(self, name, src, path=None):
        m = Module(name, path or '<%s>' % name, ast.parse(src), name.rpartition('.')[0])
        self.modules[name] = m
        return m

    def functions(self):
        for m in self.modules.values():
            if m.path.startswith('<'):
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, n
