"""Parses /repo's current source (never imports or executes it)."""
import ast
import hashlib
import os

REPO = os.environ.get("QSA_REPO", "/repo")
PKG = "qsonic"


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        self.src = src
        self.tree = ast.parse(src, path)
        self.is_pkg = os.path.basename(path) == "__init__.py"


class Program:
    def __init__(self, repo=None):
        root = os.path.join(repo or REPO, "py")
        self.modules = {}
        h = hashlib.sha256()
        for d, _, fs in sorted(os.walk(os.path.join(root, PKG))):
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                src = open(p, encoding="utf-8").read()
                h.update(rel.encode() + b"\0" + src.encode() + b"\0")
                self.modules[name] = Module(name, p, src)
        self.digest = h.hexdigest()

    def add_source(self, name, src):
        m = Module.__new__(Module)
        m.name, m.path, m.rel, m.src = name, f"<{name}>", f"<{name}>", src
        m.tree = ast.parse(src, name)
        m.is_pkg = False
        self.modules[name] = m
        return m

    def nfunctions(self):
        n = 0
        for k, m in self.modules.items():
            if not k.startswith(PKG):
                continue
            n += sum(isinstance(x, (ast.FunctionDef, ast.Lambda))
                     for x in ast.walk(m.tree))
        return n
