"""Reads the repository's current source: modules, classes, functions (AST only, nothing is imported)."""
import ast
import glob
import os

SRC = os.environ.get('VERIF_SRC', '/repo/src')


class FuncInfo:
    def __init__(self, node, module, cls=None, outer=None):
        self.node, self.module, self.cls, self.outer = node, module, cls, outer
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = (cls.name + '.' if cls else '') + self.name
        self.full = module.name + ':' + self.qual
        self.decos = []
        for d in getattr(node, 'decorator_list', []):
            self.decos.append(ast.unparse(d))

    def __repr__(self):
        return 'FuncInfo(%s)' % self.full


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.full = module.name + ':' + node.name
        self.members = {}
        self.assigns = {}
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                f = FuncInfo(s, module, self)
                if any(d.endswith('.setter') for d in f.decos):
                    self.members[s.name + '.setter'] = f
                else:
                    self.members[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.assigns[s.target.id] = s.value
        self.base_names = [ast.unparse(b) for b in node.bases]

    def __repr__(self):
        return 'ClassInfo(%s)' % self.full


class ModuleInfo:
    def __init__(self, name, path, repo):
        self.name, self.path, self.repo = name, path, repo
        with open(path) as f:
            self.source = f.read()
        self.tree = ast.parse(self.source)
        self.funcs, self.classes, self.assigns, self.imports = {}, {}, {}, {}
        for s in self.tree.body:
            self._top(s)

    def _top(self, s):
        if isinstance(s, ast.FunctionDef):
            self.funcs[s.name] = FuncInfo(s, self)
        elif isinstance(s, ast.ClassDef):
            self.classes[s.name] = ClassInfo(s, self)
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.assigns[t.id] = s.value
        elif isinstance(s, ast.Import):
            for a in s.names:
                self.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
        elif isinstance(s, ast.ImportFrom):
            for a in s.names:
                self.imports[a.asname or a.name] = ('from', s.level, s.module, a.name)
        elif isinstance(s, (ast.If, ast.Try)):
            for x in ast.iter_child_nodes(s):
                if isinstance(x, ast.stmt):
                    self._top(x)


class Repo:
    def __init__(self, src=None):
        self.src = src or SRC
        self.modules = {}
        base = os.path.join(self.src, 'footprints')
        for f in sorted(os.listdir(base)):
            if f.endswith('.py'):
                name = f[:-3]
                self.modules[name] = ModuleInfo(name, os.path.join(base, f), self)
        # the base class of the collectors (installed dependency), read in the same way
        for p in glob.glob('/opt/venv/lib/python3*/site-packages/bronx/stdtypes/catalog.py'):
            self.modules['bronx.stdtypes.catalog'] = ModuleInfo('bronx.stdtypes.catalog', p, self)

    def func(self, full):
        """'module:Class.meth' or 'module:func'."""
        m, q = full.split(':')
        mod = self.modules[m]
        if '.' in q:
            c, n = q.split('.', 1)
            return self.lookup(mod.classes[c], n)
        return mod.funcs[q]

    def cls(self, full):
        m, c = full.split(':')
        return self.modules[m].classes[c]

    def bases(self, cls):
        """Resolved bases: ClassInfo, or a name."""
        out = []
        for b in cls.base_names:
            r = self.resolve_class(b, cls.module)
            out.append(r if r is not None else b)
        return out

    def resolve_class(self, dotted, module, depth=0):
        parts = dotted.split('.')
        if len(parts) == 1:
            n = parts[0]
            if n in module.classes:
                return module.classes[n]
            imp = module.imports.get(n)
            if imp and imp[0] == 'from' and imp[1] <= 1 and depth < 5:
                m = self.modules.get(imp[2] or '__init__')
                if m:
                    return self.resolve_class(imp[3], m, depth + 1)
            return None
        imp = module.imports.get(parts[0])
        if imp and imp[0] == 'from' and imp[1] == 1 and imp[2] is None and imp[3] in self.modules:
            return self.resolve_class('.'.join(parts[1:]), self.modules[imp[3]], depth + 1)
        return None

    def mro(self, cls):
        out = [cls]
        for b in self.bases(cls):
            for c in (self.mro(b) if isinstance(b, ClassInfo) else [b]):
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def lookup(self, cls, name, after=None):
        """The FuncInfo or the AST expression of a class member, along the mro (after the class `after`)."""
        mro = self.mro(cls)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if isinstance(c, ClassInfo):
                if name in c.members:
                    return c.members[name]
                if name in c.assigns:
                    return (c, c.assigns[name])
        return None
