"""Loads the *current* sources of the analysed package and resolves names.

Nothing of the package is imported or executed; everything is read from the
syntax trees of the files as they are in the working tree at this moment.
"""
import ast
import builtins
import hashlib
import os
import warnings

from .expand import expand
from .normal import plain

warnings.filterwarnings('ignore', category=SyntaxWarning)

PKG = 'nxt'
# Not part of the product: the tests, and the documentation sample plugin.
EXCLUDED_DIRS = ('test', '__pycache__')


class AnalysisBroken(Exception):
    """An anchor the rule needs is not there: no verdict can be given."""


class Func(object):
    __slots__ = ('qual', 'name', 'node', 'module', 'cls', 'parent', 'params',
                 'kwonly', 'vararg', 'kwarg', 'defaults', 'kind', 'locals',
                 'globals', 'nested', 'is_gen', 'ctxmgr', 'is_property',
                 'small_pure')

    def __repr__(self):
        return '<F %s>' % self.qual

    @property
    def where(self):
        return '%s:%s' % (self.module.rel, self.qual[len(self.module.name) + 1:])


class Klass(object):
    __slots__ = ('qual', 'name', 'node', 'module', 'bases', 'methods', 'attrs',
                 'outer')

    def __repr__(self):
        return '<C %s>' % self.qual


class Module(object):
    def __init__(self, name, path, rel, tree, src):
        self.name, self.path, self.rel = name, path, rel
        self.tree, self.src = tree, src
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.names = {}     # top-level name -> ('fn'|'cls'|'mod'|'ext'|'var', x)
        self.assigns = {}   # top-level name -> list of value nodes


def _own_walk(node):
    """Walk a function body without entering nested functions/classes."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda,
                          ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


own_walk = _own_walk


class Project(object):
    def __init__(self, root='/repo', pkg=PKG):
        self.root = root
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.by_name = {}      # bare function/method name -> [Func]
        self.cls_by_name = {}
        self.node_func = {}    # id(ast node) -> Func
        self._load(pkg)
        self._link()
        self._const_cache = {}
        self._attr_types = None
        self._duck = {}

    # ------------------------------------------------------------- loading
    def _load(self, pkg):
        base = os.path.join(self.root, pkg)
        if not os.path.isdir(base):
            raise AnalysisBroken('no package directory ' + base)
        for dirpath, dirs, files in os.walk(base):
            dirs[:] = sorted(d for d in dirs if d not in EXCLUDED_DIRS)
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(dirpath, f)
                rel = os.path.relpath(path, self.root)
                mod = rel[:-3].replace(os.sep, '.')
                if mod.endswith('.__init__'):
                    mod = mod[:-9]
                with open(path, encoding='utf-8') as fp:
                    src = fp.read()
                try:
                    tree = plain(ast.parse(src, path))
                except (SyntaxError, ValueError) as e:
                    raise AnalysisBroken('%s does not parse: %s' % (rel, e))
                self.modules[mod] = Module(mod, path, rel, tree, src)
        expand({k: m.tree for k, m in self.modules.items()})
        if len(self.modules) < 10:
            raise AnalysisBroken('only %d modules found' % len(self.modules))

    def digest(self):
        h = hashlib.sha256()
        for m in sorted(self.modules):
            h.update(m.encode())
            h.update(self.modules[m].src.encode())
        return h.hexdigest()[:16]

    def _link(self):
        for m in self.modules.values():
            self._collect(m, m.tree.body, None, None, m.name)
        for m in self.modules.values():
            self._imports(m)
        for f in self.funcs.values():
            self.by_name.setdefault(f.name, []).append(f)
        for c in self.classes.values():
            self.cls_by_name.setdefault(c.name, []).append(c)
        for c in self.classes.values():
            c.bases = [self._base(c, b) for b in c.node.bases]

    def _collect(self, m, body, cls, parent, prefix):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._func(m, st, cls, parent, prefix)
            elif isinstance(st, ast.ClassDef):
                c = Klass()
                c.qual = prefix + '.' + st.name
                c.name, c.node, c.module = st.name, st, m
                c.methods, c.attrs, c.bases = {}, {}, []
                c.outer = cls
                self.classes[c.qual] = c
                if cls is None and parent is None:
                    m.names[st.name] = ('cls', c.qual)
                elif cls is not None:
                    cls.attrs[st.name] = ('cls', c.qual)
                for s in st.body:
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = s.value
                    elif isinstance(s, ast.AnnAssign) and s.value is not None \
                            and isinstance(s.target, ast.Name):
                        c.attrs[s.target.id] = s.value
                self._collect(m, st.body, c, parent, c.qual)
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for fld in ('body', 'orelse', 'finalbody'):
                    self._collect(m, getattr(st, fld, []), cls, parent, prefix)
                for h in getattr(st, 'handlers', []):
                    self._collect(m, h.body, cls, parent, prefix)
            elif cls is None and parent is None:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and \
                                    isinstance(n.ctx, ast.Store):
                                m.assigns.setdefault(n.id, []).append(
                                    st.value if n is t else None)
                elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
                    if isinstance(st.target, ast.Name):
                        m.assigns.setdefault(st.target.id, []).append(
                            st.value if isinstance(st, ast.AnnAssign)
                            else ('aug', st))

    def _func(self, m, st, cls, parent, prefix):
        f = Func()
        f.qual = prefix + '.' + st.name
        n = 2
        while f.qual in self.funcs:
            f.qual = '%s.%s#%d' % (prefix, st.name, n)
            n += 1
        f.name, f.node, f.module, f.parent = st.name, st, m, parent
        f.cls = cls if parent is None else None
        a = st.args
        f.params = [x.arg for x in getattr(a, 'posonlyargs', [])] + \
            [x.arg for x in a.args]
        f.kwonly = [x.arg for x in a.kwonlyargs]
        f.vararg = a.vararg.arg if a.vararg else None
        f.kwarg = a.kwarg.arg if a.kwarg else None
        f.defaults = dict(zip(f.params[len(f.params) - len(a.defaults):],
                              a.defaults))
        for k, d in zip(f.kwonly, a.kw_defaults):
            if d is not None:
                f.defaults[k] = d
        f.kind = 'function'
        f.ctxmgr = f.is_property = False
        for d in st.decorator_list:
            dn = dotted(d)
            if dn in ('staticmethod', 'classmethod'):
                f.kind = dn
            elif dn in ('property',) or dn.endswith('cached_property'):
                f.is_property = True
            elif dn.endswith('.setter') or dn.endswith('.deleter'):
                f.kind = 'setter'
            elif dn.endswith('contextmanager'):
                f.ctxmgr = True
        if f.kind == 'function' and f.cls is not None:
            f.kind = 'method'
        f.globals = set()
        f.locals = set(f.params) | set(f.kwonly)
        if f.vararg:
            f.locals.add(f.vararg)
        if f.kwarg:
            f.locals.add(f.kwarg)
        f.nested = {}
        f.is_gen = False
        for x in _own_walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                f.locals.add(x.id)
            elif isinstance(x, ast.Global):
                f.globals |= set(x.names)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names:
                    f.locals.add((al.asname or al.name).split('.')[0])
            elif isinstance(x, ast.ExceptHandler) and x.name:
                f.locals.add(x.name)
            elif isinstance(x, (ast.Yield, ast.YieldFrom)):
                f.is_gen = True
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                f.locals.add(x.name)
        f.locals -= f.globals
        self.funcs[f.qual] = f
        self.node_func[id(st)] = f
        if cls is not None and parent is None:
            if f.kind == 'setter':
                cls.methods[st.name + '.setter'] = f
            else:
                cls.methods[st.name] = f
        elif parent is None:
            m.names[st.name] = ('fn', f.qual)
        else:
            parent.nested[st.name] = f
        self._collect(m, st.body, None, f, f.qual)

    def _abs(self, m, level, modname):
        if not level:
            return modname or ''
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts + ([modname] if modname else []))

    def import_bindings(self, m, st):
        """[(local name, binding)] of one import statement."""
        out = []
        if isinstance(st, ast.Import):
            for al in st.names:
                if al.asname:
                    out.append((al.asname, self._modref(al.name)))
                else:
                    out.append((al.name.split('.')[0],
                                self._modref(al.name.split('.')[0])))
        else:
            base = self._abs(m, st.level, st.module)
            for al in st.names:
                full = base + '.' + al.name
                nm = al.asname or al.name
                if full in self.modules:
                    out.append((nm, ('mod', full)))
                elif base in self.modules:
                    out.append((nm, ('from', base, al.name)))
                else:
                    out.append((nm, ('ext', full)))
        return out

    def _modref(self, name):
        return ('mod', name) if name in self.modules else ('ext', name)

    def _imports(self, m):
        for st in ast.walk(m.tree):
            if isinstance(st, (ast.Import, ast.ImportFrom)):
                # function-level imports are handled by the interpreter too, but
                # binding them at module level is harmless for resolution
                for nm, b in self.import_bindings(m, st):
                    old = m.names.get(nm)
                    if old is None or (old[0] == 'ext' and b[0] != 'ext'):
                        # the Python 2 spelling of a package import is 'ext'
                        m.names[nm] = b

    def _base(self, c, b):
        d = dotted(b)
        r = self.lookup(c.module, d)
        if r and r[0] == 'cls':
            return r[1]
        return 'ext:' + d

    # ---------------------------------------------------------- resolution
    def lookup_name(self, m, name, _seen=()):
        """Module-level name -> ('fn',q)|('cls',q)|('mod',n)|('ext',n)|('gvar',mod,name)|None"""
        if (m.name, name) in _seen:
            return None
        b = m.names.get(name)
        if name in m.assigns and (b is None or b[0] not in ('fn', 'cls')):
            return ('gvar', m.name, name)
        if b is not None:
            if b[0] == 'from':
                mm = self.modules[b[1]]
                r = self.lookup_name(mm, b[2], _seen + ((m.name, name),))
                return r
            return b
        if m.is_pkg and (m.name + '.' + name) in self.modules:
            return ('mod', m.name + '.' + name)
        if hasattr(builtins, name):
            return ('ext', name)
        return None

    def lookup(self, m, dottedname):
        parts = dottedname.split('.')
        cur = self.lookup_name(m, parts[0])
        for p in parts[1:]:
            cur = self.member(cur, p)
        return cur

    def member(self, cur, name):
        if cur is None:
            return None
        k = cur[0]
        if k == 'mod':
            return self.lookup_name(self.modules[cur[1]], name)
        if k == 'ext':
            return ('ext', cur[1] + '.' + name)
        if k == 'cls':
            f = self.find_method(cur[1], name)
            if f is not None:
                return ('fn', f.qual)
            for c in self.mro(cur[1]):
                a = self.classes[c].attrs.get(name)
                if isinstance(a, tuple):
                    return a
                if a is not None:
                    return ('cvar', c, name)
        return None

    def mro(self, cq):
        out, todo = [], [cq]
        while todo:
            c = todo.pop(0)
            if c in self.classes and c not in out:
                out.append(c)
                todo.extend(self.classes[c].bases)
        return out

    def ext_bases(self, cq):
        out = []
        for c in self.mro(cq):
            for b in self.classes[c].bases:
                if b.startswith('ext:'):
                    out.append(b[4:].split('.')[-1])
        return out

    def find_method(self, cq, name):
        for c in self.mro(cq):
            f = self.classes[c].methods.get(name)
            if f is not None:
                return f
        return None

    def subclasses(self, cq):
        return [c for c in self.classes if cq in self.mro(c)]

    def func(self, suffix):
        """The function whose qualified name ends with `suffix` (an anchor)."""
        hits = [f for q, f in self.funcs.items()
                if q == suffix or q.endswith('.' + suffix)]
        if len(hits) != 1:
            raise AnalysisBroken('anchor function %r: %d matches'
                                 % (suffix, len(hits)))
        return hits[0]

    def maybe_func(self, suffix):
        try:
            return self.func(suffix)
        except AnalysisBroken:
            return None

    def klass(self, name):
        hits = self.cls_by_name.get(name, [])
        if len(hits) != 1:
            raise AnalysisBroken('anchor class %r: %d matches'
                                 % (name, len(hits)))
        return hits[0]

    # ----------------------------------------------------- constant folding
    def const(self, m, node, cls=None, _depth=0):
        """Fold a node to a Python value; raises ValueError when not constant."""
        if _depth > 40:
            raise ValueError('too deep')
        ev = lambda n: self.const(m, n, cls, _depth + 1)
        if isinstance(node, ast.Constant):
            return node.value
        if isinstance(node, ast.Tuple):
            return tuple(ev(x) for x in node.elts)
        if isinstance(node, ast.List):
            return [ev(x) for x in node.elts]
        if isinstance(node, ast.Set):
            return {ev(x) for x in node.elts}
        if isinstance(node, ast.Dict):
            out = {}
            for k, v in zip(node.keys, node.values):
                if k is None:
                    out.update(ev(v))
                    continue
                try:
                    val = ev(v)
                except ValueError:
                    val = Unknown(v)
                out[ev(k)] = val
            return out
        if isinstance(node, ast.BinOp):
            l, r = ev(node.left), ev(node.right)
            try:
                if isinstance(node.op, ast.Add):
                    return l + r
                if isinstance(node.op, ast.Mult):
                    return l * r
                if isinstance(node.op, ast.Mod):
                    return l % r
                if isinstance(node.op, ast.Sub):
                    return l - r
                if isinstance(node.op, ast.BitOr):
                    return l | r
            except TypeError:
                raise ValueError('bad operands')
            raise ValueError('op')
        if isinstance(node, ast.UnaryOp):
            v = ev(node.operand)
            if isinstance(node.op, ast.USub):
                return -v
            if isinstance(node.op, ast.Not):
                return not v
            raise ValueError('op')
        if isinstance(node, ast.JoinedStr):
            out = ''
            for p in node.values:
                out += p.value if isinstance(p, ast.Constant) else str(ev(p.value))
            return out
        if isinstance(node, ast.Call):
            d = dotted(node.func)
            if d == 'dir':
                return dir(type('NodeSpec', (object,), {}))
            if d in ('tuple', 'list', 'set', 'frozenset', 'dict', 'sorted', 'str',
                     'int', 'float') and not node.keywords and len(node.args) <= 1:
                return getattr(builtins, d)(*[ev(a) for a in node.args])
            if isinstance(node.func, ast.Attribute) and not node.keywords:
                base = ev(node.func.value)
                args = [ev(a) for a in node.args]
                if isinstance(base, str) and node.func.attr in (
                        'format', 'join', 'lower', 'upper', 'strip', 'split'):
                    return getattr(base, node.func.attr)(*args)
                if isinstance(base, (set, frozenset, dict)) and node.func.attr in (
                        'union', 'keys', 'values', 'difference', 'copy',
                        'intersection'):
                    r = getattr(base, node.func.attr)(*args)
                    return list(r) if node.func.attr in ('keys', 'values') else r
            raise ValueError('call')
        if isinstance(node, ast.IfExp):
            return ev(node.body if ev(node.test) else node.orelse)
        if isinstance(node, (ast.Name, ast.Attribute)):
            return self._const_name(m, node, cls, _depth)
        if isinstance(node, ast.Subscript):
            try:
                return ev(node.value)[ev(node.slice)]
            except (KeyError, IndexError, TypeError):
                raise ValueError('subscript')
        raise ValueError(type(node).__name__)

    def _const_name(self, m, node, cls, depth):
        d = dotted(node)
        if not d:
            raise ValueError('not a name')
        parts = d.split('.')
        if cls is not None and len(parts) == 1 and parts[0] in cls.attrs:
            a = cls.attrs[parts[0]]
            if not isinstance(a, tuple):
                return self.class_const(cls, parts[0], depth)
        cur = self.lookup_name(m, parts[0])
        for p in parts[1:]:
            if cur and cur[0] in ('gvar', 'cvar'):
                raise ValueError('attribute of value')
            cur = self.member(cur, p)
        if cur is None:
            raise ValueError('unresolved ' + d)
        return self.const_of(cur, depth)

    def rebound(self, module):
        """Module names that functions declare global and assign."""
        if not hasattr(self, '_rebound'):
            self._rebound = {}
            for f in self.funcs.values():
                if not f.globals:
                    continue
                for n in own_walk(f.node):
                    if isinstance(n, ast.Name) and n.id in f.globals and \
                            not isinstance(n.ctx, ast.Load):
                        self._rebound.setdefault(f.module.name,
                                                 set()).add(n.id)
        return self._rebound.get(module, ())

    def const_of(self, cur, depth=0):
        if cur[0] == 'cvar':
            return self.class_const(self.classes[cur[1]], cur[2], depth)
        if cur[0] == 'gvar':
            mm = self.modules[cur[1]]
            vals = mm.assigns[cur[2]]
            key = cur
            if key in self._const_cache:
                r = self._const_cache[key]
                if isinstance(r, ValueError):
                    raise r
                return r
            self._const_cache[key] = ValueError('recursive ' + cur[2])
            try:
                if any(v is None for v in vals):
                    raise ValueError('multi')
                if cur[2] in self.rebound(cur[1]):
                    raise ValueError('rebound ' + cur[2])
                if len(vals) > 1 and not all(
                        isinstance(v, tuple) for v in vals[1:]):
                    raise ValueError('reassigned ' + cur[2])
                r = self.const(mm, vals[0], None, depth + 1)
                for v in vals[1:]:
                    r = r + self.const(mm, v[1].value, None, depth + 1)
            except ValueError as e:
                self._const_cache[key] = e
                raise
            self._const_cache[key] = r
            return r
        raise ValueError('not a value')

    def class_const(self, cls, name, depth=0):
        key = (cls.qual, name)
        if key in self._const_cache:
            r = self._const_cache[key]
            if isinstance(r, ValueError):
                raise r
            return r
        a = cls.attrs.get(name)
        if a is None or isinstance(a, tuple):
            raise ValueError('no constant %s.%s' % (cls.name, name))
        self._const_cache[key] = ValueError('recursive')
        try:
            r = self.const(cls.module, a, cls, depth + 1)
        except ValueError as e:
            self._const_cache[key] = e
            raise
        self._const_cache[key] = r
        return r

    def table(self, clsname, attr):
        c = self.klass(clsname)
        for q in self.mro(c.qual):
            if attr in self.classes[q].attrs:
                try:
                    return self.class_const(self.classes[q], attr)
                except ValueError as e:
                    raise AnalysisBroken('%s.%s is not constant: %s'
                                         % (clsname, attr, e))
        raise AnalysisBroken('no table %s.%s' % (clsname, attr))

    # -------------------------------------------------- duck-typed receivers
    def narrow(self, f, recv_node, cands):
        """Keep the candidates whose class has every project method this
        function uses on the same name, or the class its docstring names."""
        if len(cands) < 2 or not isinstance(recv_node, ast.Name) or f is None:
            return cands
        name = recv_node.id
        key = (f.qual, name)
        if key not in self._duck:
            used = set()
            for n in _own_walk(f.node):
                if isinstance(n, ast.Attribute) and \
                        isinstance(n.value, ast.Name) and n.value.id == name \
                        and n.attr not in BUILTIN_METHODS and any(
                            x.cls is not None
                            for x in self.by_name.get(n.attr, ())):
                    used.add(n.attr)
            doc = ast.get_docstring(f.node) or '' if hasattr(
                f.node, 'body') and not isinstance(f.node, ast.Lambda) else ''
            named = set()
            for line in doc.splitlines():
                head, _, rest = line.strip().partition(':type %s:' % name)
                if rest and not head:
                    named |= {w for w in rest.replace('.', ' ').replace(
                        ',', ' ').split() if w in self.cls_by_name}
            self._duck[key] = (used, named)
        used, named = self._duck[key]
        if named:
            got = [x for x in cands if any(
                q in self.mro(c.qual) or c.qual in self.mro(q)
                for w in named for c in self.cls_by_name[w]
                for q in [x.cls.qual])]
            if got:
                return got
        got = [x for x in cands if all(
            any(self.find_method(c, u) is not None
                for c in set(self.subclasses(x.cls.qual)) | {x.cls.qual})
            for u in used)]
        return got or cands

    # ------------------------------------------------------- attribute types
    def attr_types(self):
        """(class qual, attr) -> set(class quals) from `self.x = Cls(...)`."""
        if self._attr_types is None:
            out = {}
            for f in self.funcs.values():
                if f.cls is None or not f.params:
                    continue
                me = f.params[0]
                for n in _own_walk(f.node):
                    if not isinstance(n, ast.Assign):
                        continue
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and \
                                isinstance(t.value, ast.Name) and \
                                t.value.id == me and isinstance(n.value, ast.Call):
                            r = self.lookup(f.module, dotted(n.value.func) or '?')
                            if r and r[0] == 'cls':
                                out.setdefault((f.cls.qual, t.attr),
                                               set()).add(r[1])
            self._attr_types = out
        return self._attr_types


class Unknown(object):
    def __init__(self, node):
        self.node = node

    def __repr__(self):
        return '<unknown>'


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return b + '.' + node.attr if b else ''
    return ''


# --------------------------------------------------------------- call graph
# Method names that are far more often those of builtin containers, strings,
# files, sockets or threads than those of a project class: a call through an
# unknown receiver is not resolved to the project by these names alone.
BUILTIN_METHODS = set()
for _t in (str, bytes, list, dict, set, tuple, int, float, frozenset):
    BUILTIN_METHODS |= {x for x in dir(_t) if not x.startswith('__')}
BUILTIN_METHODS |= {'read', 'write', 'close', 'readlines', 'readline', 'flush',
                    'start', 'join', 'send', 'recv', 'connect', 'bind', 'accept',
                    'listen', 'settimeout', 'poll', 'communicate', 'kill',
                    'terminate', 'wait', 'match', 'group', 'search', 'findall',
                    'sub', 'info', 'debug', 'error', 'warning', 'exception',
                    'critical', 'log', 'emit', 'handle', 'acquire', 'release'}


class CallGraph(object):
    """Over-approximate: an attribute call on an unresolved receiver goes to
    every project function of that name, and a function mentioned as a value
    counts as called by the mentioner."""

    def __init__(self, proj):
        self.proj = proj
        self.edges = {}     # qual -> {callee qual: [call node]}
        self.ext = {}       # qual -> [(dotted external name, node)]
        for f in proj.funcs.values():
            self._func(f)
        self.rev = {}
        for a, bs in self.edges.items():
            for b in bs:
                self.rev.setdefault(b, set()).add(a)

    def _add(self, f, q, node):
        self.edges.setdefault(f.qual, {}).setdefault(q, []).append(node)

    def _func(self, f):
        self.edges.setdefault(f.qual, {})
        self.ext.setdefault(f.qual, [])
        for nf in f.nested.values():
            self._add(f, nf.qual, nf.node)
        for n in _own_walk(f.node):
            if isinstance(n, ast.Call):
                for kind, q in self.resolve_call(f, n):
                    if kind == 'fn':
                        self._add(f, q, n)
                    else:
                        self.ext[f.qual].append((q, n))
            elif isinstance(n, (ast.Name, ast.Attribute)) and \
                    isinstance(getattr(n, 'ctx', None), ast.Load):
                for q in self.resolve_ref(f, n):
                    self._add(f, q, n)
            elif isinstance(n, ast.Lambda):
                for x in ast.walk(n.body):
                    if isinstance(x, ast.Call):
                        for kind, q in self.resolve_call(f, x):
                            if kind == 'fn':
                                self._add(f, q, x)
                            else:
                                self.ext[f.qual].append((q, x))

    def resolve_ref(self, f, n):
        p = self.proj
        if isinstance(n, ast.Name):
            g = f
            while g is not None:
                if n.id in g.nested:
                    return [g.nested[n.id].qual]
                if n.id in g.locals:
                    return []
                g = g.parent
            r = p.lookup_name(f.module, n.id)
            return [r[1]] if r and r[0] == 'fn' else []
        d = dotted(n)
        if d:
            head = d.split('.')[0]
            if head in ('self', 'cls'):
                owner = f
                while owner.cls is None and owner.parent is not None:
                    owner = owner.parent
                if owner.cls is not None and d.count('.') == 1:
                    out = []
                    for c in set(p.subclasses(owner.cls.qual)) | {owner.cls.qual}:
                        m = p.find_method(c, n.attr)
                        if m is not None:
                            out.append(m.qual)
                    return out
            if head not in f.locals:
                r = p.lookup(f.module, d)
                if r and r[0] == 'fn':
                    return [r[1]]
                if r is not None:
                    return []
        if isinstance(n.value, ast.Call) and \
                isinstance(n.value.func, ast.Name) and n.value.func.id == 'super':
            owner = f
            while owner.cls is None and owner.parent is not None:
                owner = owner.parent
            if owner.cls is not None:
                out = []
                for c in set(p.subclasses(owner.cls.qual)):
                    mro = p.mro(c)
                    after = mro[mro.index(owner.cls.qual) + 1:]
                    ms = [p.classes[b].methods[n.attr] for b in after
                          if n.attr in p.classes[b].methods]
                    out += [m.qual for m in ms[:1] if m.qual not in out]
                return out
        # property or bound method of an unknown receiver
        if n.attr in BUILTIN_METHODS:
            return []
        hits = [x for x in p.by_name.get(n.attr, ())
                if x.is_property or x.cls is not None]
        if all(x.cls is not None for x in hits):
            hits = p.narrow(f, n.value, hits)
        return [x.qual for x in hits]

    def resolve_call(self, f, call):
        p = self.proj
        fn = call.func
        d = dotted(fn)
        if isinstance(fn, ast.Name):
            refs = self.resolve_ref(f, fn)
            if refs:
                return [('fn', q) for q in refs]
            if fn.id not in f.locals:
                r = p.lookup_name(f.module, fn.id)
                if r and r[0] == 'cls':
                    return self._ctor(r[1])
                if r and r[0] == 'ext':
                    return [('ext', r[1])]
            return [('ext', '?' + fn.id)]
        if isinstance(fn, ast.Attribute):
            head = d.split('.')[0] if d else ''
            if d and head not in f.locals:
                r = p.lookup(f.module, d)
                if r and r[0] == 'ext':
                    return [('ext', r[1])]
                if r and r[0] == 'cls':
                    return self._ctor(r[1])
                if r and r[0] == 'fn':
                    return [('fn', r[1])]
            refs = self.resolve_ref(f, fn)
            if refs:
                return [('fn', q) for q in refs]
            return [('ext', '?.' + fn.attr)]
        return [('ext', '?')]

    def _ctor(self, cq):
        out = []
        m = self.proj.find_method(cq, '__init__')
        if m is not None:
            out.append(('fn', m.qual))
        out.append(('ext', 'new:' + cq))
        return out

    def reachable(self, roots, skip=()):
        """qual -> (predecessor qual, node) for everything reachable."""
        seen = {r: None for r in roots}
        todo = list(roots)
        while todo:
            q = todo.pop(0)
            for c, nodes in self.edges.get(q, {}).items():
                if c in seen or c in skip:
                    continue
                seen[c] = (q, nodes[0])
                todo.append(c)
        return seen

    def callers_closure(self, targets):
        seen, todo = set(targets), list(targets)
        while todo:
            q = todo.pop()
            for c in self.rev.get(q, ()):
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
        return seen

    def path(self, reach, q):
        out = [q]
        while reach.get(q):
            q = reach[q][0]
            out.append(q)
        return list(reversed(out))
