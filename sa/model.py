"""Source model: every python file of the repository, parsed."""
import ast
import hashlib
import os
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


class Source:
    def __init__(self, name, path, tree, is_pkg, text):
        self.name, self.path, self.tree, self.is_pkg, self.text = name, path, tree, is_pkg, text


class Model:
    def __init__(self, root=None):
        self.root = root or REPO
        self.sources = {}
        self.errors = []
        self.dirs = set()
        for d, dirs, files in os.walk(self.root):
            dirs[:] = [x for x in dirs if not x.startswith(".") and x not in ("test", "tests", "__pycache__", "data", "venv")]
            rel = os.path.relpath(d, self.root)
            pkg = "" if rel == "." else rel.replace(os.sep, ".")
            if pkg:
                self.dirs.add(pkg)
            for f in files:
                p = os.path.join(d, f)
                if f.endswith(".py"):
                    base = f[:-3]
                elif pkg == "" and f == "cls1":
                    base = "__cls1__"
                else:
                    continue
                is_pkg = base == "__init__"
                name = pkg if is_pkg else (pkg + "." + base if pkg else base)
                try:
                    text = open(p, encoding="utf-8").read()
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = ast.parse(text, p)
                except (SyntaxError, UnicodeDecodeError) as e:
                    self.errors.append("%s: %s" % (p, e))
                    continue
                self.sources[name] = Source(name, os.path.relpath(p, self.root), tree, is_pkg, text)

    def find(self, name):
        s = self.sources.get(name)
        if s is None and name in self.dirs and any(k.startswith(name + ".") for k in self.sources):
            s = Source(name, name.replace(".", "/"), ast.Module(body=[], type_ignores=[]), True, "")
            self.sources[name] = s
        return s

    def digest(self, names=None):
        h = hashlib.sha256()
        for n in sorted(names or self.sources):
            h.update(n.encode())
            h.update(self.sources[n].text.encode())
        return h.hexdigest()[:16]

    def functions(self):
        n = 0
        for s in self.sources.values():
            n += sum(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(s.tree))
        return n
