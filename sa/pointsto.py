"""Andersen style points-to analysis of the whole package.

Flow- and context-insensitive, one abstract object per allocation site,
fields merged over all objects by attribute name.  Tokens:

  'str' 'int' 'float' 'bool' 'none' 'bytes'  immutable values made at run time
  'unk'               a value from outside (files, user code, libraries)
  ('lit', s)          a string constant of the source
  ('o', kind, site)   a list, dict, set, tuple or generator made at `site`
  ('i', class)        an instance of a class of the package
  ('c', class) ('fn', function) ('m', module) ('b', builtin class)
"""
import ast
import builtins

from .project import dotted, own_walk

STR_METHODS = {'format', 'join', 'replace', 'strip', 'lstrip', 'rstrip',
               'lower', 'upper', 'capitalize', 'title', 'ljust', 'rjust',
               'zfill', 'decode', 'expandtabs', 'center', 'swapcase'}
STR_LISTS = {'split', 'rsplit', 'splitlines', 'partition', 'rpartition'}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort',
            'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard',
            'appendleft', 'popleft', 'move_to_end', 'difference_update',
            'intersection_update', 'symmetric_difference_update',
            '__setitem__', '__delitem__', '__iadd__'}
COPIES = {'list': 'list', 'set': 'set', 'tuple': 'tuple', 'sorted': 'list',
          'frozenset': 'set', 'reversed': 'gen', 'iter': 'gen',
          'dict': 'dict', 'OrderedDict': 'dict', 'deque': 'list',
          'defaultdict': 'dict', 'copy': None, 'deepcopy': None}
STR_CALLS = {'str', 'repr', 'unicode', 'input', 'chr', 'hex', 'getcwd',
             'join', 'dirname', 'basename', 'abspath', 'normpath', 'normcase',
             'expanduser', 'expandvars', 'realpath', 'relpath', 'dumps',
             'format_exc', 'mktemp', 'mkdtemp', 'getenv', 'gettempdir'}


class PointsTo(object):
    def __init__(self, proj, cg):
        self.proj, self.cg = proj, cg
        self.pts, self.succ = {}, {}
        self.cons = {}          # base key -> [constraint]
        self.sites = {}
        self.mut = []           # (func, node, base key, what)
        self.work = []
        self.rets = {}
        self.keyed, self.copies = set(), {}
        for f in proj.funcs.values():
            self.params(f)
        for m in proj.modules.values():
            self.body(m, None, m.tree.body)
            for c in proj.classes.values():
                if c.module is m:
                    self.body(m, None, [x for x in c.node.body if not isinstance(
                        x, (ast.FunctionDef, ast.ClassDef))], cls=c)
        for f in proj.funcs.values():
            self.body(f.module, f, f.node.body if not isinstance(
                f.node, ast.Lambda) else [ast.Return(f.node.body)])
        self.solve()

    # ------------------------------------------------------------- solver
    def add(self, key, tok):
        s = self.pts.setdefault(key, set())
        if tok not in s:
            s.add(tok)
            self.work.append((key, tok))

    def edge(self, a, b):
        if a is None or b is None or a == b:
            return
        s = self.succ.setdefault(a, set())
        if b not in s:
            s.add(b)
            for t in list(self.pts.get(a, ())):
                self.add(b, t)

    def con(self, base, fn):
        if base is None:
            return
        self.cons.setdefault(base, []).append(fn)
        for t in list(self.pts.get(base, ())):
            fn(t)

    def solve(self):
        while self.work:
            key, tok = self.work.pop()
            for b in list(self.succ.get(key, ())):
                self.add(b, tok)
            for fn in list(self.cons.get(key, ())):
                fn(tok)

    def put(self, tok, kkey, node, m, cls, vkey):
        """Store a value in a dict under the key `node`."""
        c = self.text(m, node, cls) if node is not None else None
        if c is None:
            self.edge(kkey, ('el', tok))
            self.edge(vkey, ('dv', tok))
        else:
            self.add(('el', tok), ('lit', c))
            self.edge(vkey, ('dk', tok, c))
            if (tok, c) not in self.keyed:
                self.keyed.add((tok, c))
                self.edge(('dk', tok, c), ('dall', tok))
                for o in list(self.copies.get(tok, ())):
                    self.mirror(tok, o, c)
        self.edge(('dv', tok), ('dall', tok))

    def fetch(self, tok, c, key):
        if c is None:
            self.edge(('dall', tok), key)
        else:
            self.edge(('dk', tok, c), key)
        self.edge(('dv', tok), key)

    def mirror(self, a, b, c):
        self.edge(('dk', a, c), ('dk', b, c))
        if (b, c) not in self.keyed:
            self.keyed.add((b, c))
            self.edge(('dk', b, c), ('dall', b))
            for o in list(self.copies.get(b, ())):
                self.mirror(b, o, c)

    def copied(self, a, b):
        if a == b or b in self.copies.setdefault(a, set()):
            return
        self.copies[a].add(b)
        self.edge(('el', a), ('el', b))
        self.edge(('dv', a), ('dv', b))
        self.edge(('dv', b), ('dall', b))
        for t, c in list(self.keyed):
            if t == a:
                self.mirror(a, b, c)

    # ------------------------------------------------------------- keys
    def params(self, f):
        for p, d in f.defaults.items():
            self._defaults = None
        if f.cls is not None and f.params and f.kind in ('method', 'setter') \
                and f.parent is None:
            for c in self.proj.subclasses(f.cls.qual):
                self.add(('v', f.qual, f.params[0]), ('i', c))
            self.add(('v', f.qual, f.params[0]), ('i', f.cls.qual))

    def var(self, m, f, name, cls=None):
        g = f
        while g is not None:
            if name in g.nested and name not in g.locals:
                return ('fnref', g.nested[name].qual)
            if name in g.locals:
                if name in (g.globals or ()):
                    break
                return ('v', g.qual, name)
            g = g.parent
        if cls is not None and name in cls.attrs:
            return ('f', name)
        return ('g', m.name, name)

    def obj(self, kind, node, f):
        tok = ('o', kind, id(node))
        self.sites[id(node)] = (f, node)
        return tok

    # ------------------------------------------------------- expressions
    def ex(self, m, f, n, cls=None):
        """Key of an expression, generating its constraints."""
        if n is None:
            return None
        key = ('x', id(n))
        ev = lambda x: self.ex(m, f, x, cls)
        if isinstance(n, ast.Constant):
            v = n.value
            self.add(key, 'none' if v is None else 'bool' if isinstance(v, bool)
                     else ('lit', v) if isinstance(v, str) else 'int'
                     if isinstance(v, int) else 'float' if isinstance(v, float)
                     else 'bytes' if isinstance(v, bytes) else 'unk')
        elif isinstance(n, ast.Name):
            self.name(m, f, n, key, cls)
        elif isinstance(n, ast.Attribute):
            self.attr(m, f, n, key, cls)
        elif isinstance(n, ast.Call):
            self.call(m, f, n, key, cls)
        elif isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            t = self.obj(type(n).__name__.lower(), n, f)
            self.add(key, t)
            for i, x in enumerate(n.elts):
                k = ev(x.value if isinstance(x, ast.Starred) else x)
                if isinstance(x, ast.Starred):
                    self.iter_into(k, ('el', t))
                else:
                    self.edge(k, ('el', t))
                    if isinstance(n, ast.Tuple):
                        self.edge(k, ('ix', t, i))
        elif isinstance(n, ast.Dict):
            t = self.obj('dict', n, f)
            self.add(key, t)
            for k, v in zip(n.keys, n.values):
                if k is not None:
                    self.put(t, ev(k), k, m, cls, ev(v))
                else:
                    self.copy_into(ev(v), t)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                            ast.DictComp)):
            kind = {'ListComp': 'list', 'SetComp': 'set', 'GeneratorExp': 'gen',
                    'DictComp': 'dict'}[type(n).__name__]
            t = self.obj(kind, n, f)
            self.add(key, t)
            for g in n.generators:
                self.loop(m, f, g.target, g.iter, cls)
                for i in g.ifs:
                    ev(i)
            if kind == 'dict':
                self.put(t, ev(n.key), n.key, m, cls, ev(n.value))
            else:
                self.edge(ev(n.elt), ('el', t))
        elif isinstance(n, ast.BinOp):
            a, b = ev(n.left), ev(n.right)
            if isinstance(n.op, ast.Mod):
                self.con(a, lambda t: self.add(key, 'str') if t == 'str' or (
                    isinstance(t, tuple) and t[0] == 'lit') else self.add(
                        key, t if isinstance(t, str) else 'unk'))
            else:
                t0 = self.obj('list', n, f)

                def both(t, a=a, b=b):
                    if isinstance(t, tuple) and t[0] == 'o':
                        self.add(key, ('o', t[1], id(n)))
                        u = ('o', t[1], id(n))
                        self.iter_into(a, ('el', u))
                        self.iter_into(b, ('el', u))
                    elif isinstance(t, tuple) and t[0] == 'lit':
                        self.add(key, 'str')
                    elif isinstance(t, str):
                        self.add(key, t)
                    else:
                        self.add(key, 'unk')
                del t0
                self.con(a, both)
                self.con(b, both)
        elif isinstance(n, ast.BoolOp):
            for x in n.values:
                self.edge(ev(x), key)
        elif isinstance(n, ast.UnaryOp):
            ev(n.operand)
            self.add(key, 'bool' if isinstance(n.op, ast.Not) else 'int')
        elif isinstance(n, ast.Compare):
            ev(n.left)
            for x in n.comparators:
                ev(x)
            self.add(key, 'bool')
        elif isinstance(n, ast.IfExp):
            ev(n.test)
            self.edge(ev(n.body), key)
            self.edge(ev(n.orelse), key)
        elif isinstance(n, ast.JoinedStr):
            for x in ast.walk(n):
                if isinstance(x, ast.FormattedValue):
                    ev(x.value)
            self.add(key, 'str')
        elif isinstance(n, ast.Subscript):
            b = ev(n.value)
            if isinstance(n.slice, ast.Slice):
                for x in (n.slice.lower, n.slice.upper, n.slice.step):
                    ev(x)
                self.slice(b, key, n, f)
            else:
                ev(n.slice)
                self.index(m, cls, b, n.slice, key)
        elif isinstance(n, ast.Lambda):
            self.add(key, 'unk')
            for x in ast.iter_child_nodes(n):
                if isinstance(x, ast.expr):
                    ev(x)
        elif isinstance(n, ast.NamedExpr):
            k = ev(n.value)
            self.edge(k, key)
            self.assign(m, f, n.target, k, cls)
        elif isinstance(n, ast.Starred):
            return ev(n.value)
        elif isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
            k = ev(n.value) if n.value is not None else None
            if f is not None and k is not None:
                t = self.obj('gen', f.node, f)
                self.add(('r', f.qual), t)
                if isinstance(n, ast.Yield):
                    self.edge(k, ('el', t))
                else:
                    self.iter_into(k, ('el', t))
            self.add(key, 'unk')
        else:
            self.add(key, 'unk')
        return key

    def name(self, m, f, n, key, cls):
        k = self.var(m, f, n.id, cls)
        if k[0] == 'fnref':
            self.add(key, ('fn', k[1]))
            return
        if k[0] != 'g':
            self.edge(k, key)
            return
        r = self.proj.lookup_name(m, n.id)
        if (r is None or r == ('ext', n.id)) and \
                isinstance(getattr(builtins, n.id, None), type):
            self.add(key, ('b', n.id))
            return
        self.static(r, key)
        if r is None:
            self.edge(k, key)

    def static(self, r, key):
        if r is None:
            return False
        if r[0] == 'cls':
            self.add(key, ('c', r[1]))
        elif r[0] == 'fn':
            self.add(key, ('fn', r[1]))
        elif r[0] == 'mod':
            self.add(key, ('m', r[1]))
        elif r[0] == 'gvar':
            self.edge(('g', r[1], r[2]), key)
        elif r[0] == 'cvar':
            try:
                v = self.proj.const_of(r)
            except (ValueError, KeyError):
                v = None
            if isinstance(v, str):
                self.add(key, ('lit', v))
            else:
                self.edge(('f', r[2]), key)
        else:
            self.add(key, 'unk')
        return True

    def resolved(self, m, f, n):
        d = dotted(n)
        if not d:
            return None
        head = d.split('.')[0]
        g = f
        while g is not None:
            if head in g.locals or head in g.nested:
                return None
            g = g.parent
        return self.proj.lookup(m, d)

    def attr(self, m, f, n, key, cls):
        r = self.resolved(m, f, n)
        if r is not None:
            self.static(r, key)
            return
        b = self.ex(m, f, n.value, cls)
        self.field(b, n.attr, key)

    def field(self, b, name, key):
        self.edge(('f', name), key)

        def on(t):
            if t == 'unk':
                self.add(key, 'unk')
            elif isinstance(t, tuple) and t[0] in ('i', 'c'):
                fn = self.proj.find_method(t[1], name)
                if fn is not None:
                    if fn.is_property:
                        self.edge(('r', fn.qual), key)
                    else:
                        self.add(key, ('fn', fn.qual))
            elif isinstance(t, tuple) and t[0] == 'm':
                self.static(self.proj.member(('mod', t[1]), name), key)
        self.con(b, on)

    # -------------------------------------------------------- containers
    def iter_into(self, b, dst):
        if b is None:
            return

        def on(t):
            if isinstance(t, tuple) and t[0] == 'o':
                self.edge(('el', t), dst)
            elif t == 'str' or (isinstance(t, tuple) and t[0] == 'lit'):
                self.add(dst, 'str')
            elif t == 'unk':
                self.add(dst, 'unk')
        self.con(b, on)

    def copy_into(self, b, tok):
        def on(t):
            if isinstance(t, tuple) and t[0] == 'o':
                self.copied(t, tok)
            elif t == 'unk':
                self.add(('el', tok), 'unk')
                self.add(('dv', tok), 'unk')
        if b is not None:
            self.con(b, on)

    def slice(self, b, key, n, f):
        def on(t):
            if isinstance(t, tuple) and t[0] == 'o':
                u = ('o', t[1], id(n))
                self.sites[id(n)] = (f, n)
                self.add(key, u)
                self.edge(('el', t), ('el', u))
            elif isinstance(t, tuple) and t[0] == 'lit':
                self.add(key, 'str')
            elif isinstance(t, str):
                self.add(key, t)
        self.con(b, on)

    def index(self, m, cls, b, idx, key):
        c = self.text(m, idx, cls)
        i = idx.value if isinstance(idx, ast.Constant) and isinstance(
            idx.value, int) else None

        def on(t):
            if isinstance(t, tuple) and t[0] == 'o':
                if t[1] == 'dict':
                    self.fetch(t, c, key)
                elif t[1] == 'tuple' and i is not None and i >= 0:
                    self.edge(('ix', t, i), key)
                else:
                    self.edge(('el', t), key)
            elif t == 'str' or (isinstance(t, tuple) and t[0] == 'lit'):
                self.add(key, 'str')
            elif t == 'unk':
                self.add(key, 'unk')
        self.con(b, on)

    def loop(self, m, f, target, it, cls):
        if isinstance(it, ast.Call) and isinstance(target, (
                ast.Tuple, ast.List)) and len(target.elts) == 2:
            a, b = target.elts
            if isinstance(it.func, ast.Attribute) and it.func.attr in (
                    'items', 'iteritems') and not it.args:
                base = self.ex(m, f, it.func.value, cls)
                self.ex(m, f, it, cls)
                ka, kb = ('x', id(a), 'k'), ('x', id(b), 'v')

                def on(t):
                    if isinstance(t, tuple) and t[0] == 'o':
                        self.edge(('el', t), ka)
                        self.fetch(t, None, kb)
                    elif t == 'unk':
                        self.add(ka, 'unk')
                        self.add(kb, 'unk')
                self.con(base, on)
                self.assign(m, f, a, ka, cls)
                self.assign(m, f, b, kb, cls)
                return
            if dotted(it.func) in ('list', 'sorted') and len(it.args) == 1 \
                    and isinstance(it.args[0], ast.Call):
                return self.loop(m, f, target, it.args[0], cls)
            if dotted(it.func) == 'enumerate' and it.args:
                kb = ('x', id(it), 'en')
                self.iter_into(self.ex(m, f, it.args[0], cls), kb)
                self.add(('x', id(it), 'i'), 'int')
                self.assign(m, f, a, ('x', id(it), 'i'), cls)
                self.assign(m, f, b, kb, cls)
                return
            if dotted(it.func) == 'zip' and len(it.args) == 2:
                for t, x in zip((a, b), it.args):
                    k = ('x', id(t), 'zip')
                    self.iter_into(self.ex(m, f, x, cls), k)
                    self.assign(m, f, t, k, cls)
                return
        k = ('x', id(it), 'it')
        self.iter_into(self.ex(m, f, it, cls), k)
        self.assign(m, f, target, k, cls)

    # ------------------------------------------------------------- calls
    def call(self, m, f, n, key, cls):
        args = [self.ex(m, f, a, cls) for a in n.args]
        kws = {k.arg: self.ex(m, f, k.value, cls) for k in n.keywords}
        fn = n.func
        d = dotted(fn)
        last = d.split('.')[-1] if d else (
            fn.attr if isinstance(fn, ast.Attribute) else '')
        if isinstance(fn, ast.Name) and d in ('getattr', 'setattr', 'hasattr',
                                              'delattr') and len(args) > 1:
            if d == 'getattr':
                nm = self.text(m, n.args[1], cls)
                if nm is not None:
                    self.field(args[0], nm, key)
                else:
                    self.add(key, 'unk')
                if len(args) > 2:
                    self.edge(args[2], key)
            elif d == 'setattr' and len(args) > 2:
                nm = self.text(m, n.args[1], cls)
                if nm is not None:
                    self.edge(args[2], ('f', nm))
            else:
                self.add(key, 'bool')
            return
        # project callees
        quals, ctor = set(), None
        r = self.resolved(m, f, fn)
        if r is not None and r[0] == 'cls':
            ctor = r[1]
            self.add(key, ('i', ctor))
            init = self.proj.find_method(ctor, '__init__')
            if init is not None:
                self.bind(init, n, args, kws, True, None)
            if init is not None or not set(self.proj.ext_bases(ctor)) - {
                    'object'}:
                return
        if f is not None:
            for kind, q in self.cg.resolve_call(f, n):
                if kind == 'fn':
                    quals.add(q)
        elif r is not None and r[0] == 'fn':
            quals.add(r[1])
        recv = None
        if isinstance(fn, ast.Attribute) and (r is None or r[0] not in (
                'fn', 'cls', 'ext', 'mod')):
            recv = self.ex(m, f, fn.value, cls)
        if quals:
            for q in quals:
                g = self.proj.funcs[q]
                bound = g.cls is not None and g.kind != 'staticmethod' and \
                    recv is not None and g.kind != 'classmethod'
                if g.kind == 'classmethod':
                    bound = True
                if g.cls is not None and r is not None and r[0] == 'fn' and \
                        g.kind == 'method':
                    bound = False
                self.bind(g, n, args, kws, bound, recv)
                self.edge(('r', q), key)
            return
        # calls through a value
        self.con(self.ex(m, f, fn, cls) if isinstance(fn, ast.Name)
                 else None, lambda t: self.through(t, n, args, kws, key))
        if recv is not None:
            self.method(m, f, n, fn.attr, recv, args, kws, key, cls)
            return
        self.builtin(m, f, n, d, last, args, kws, key, r)

    def text(self, m, n, cls):
        try:
            v = self.proj.const(m, n, cls)
        except (ValueError, KeyError):
            return None
        return v if isinstance(v, str) else None

    def through(self, t, n, args, kws, key):
        if isinstance(t, tuple) and t[0] == 'fn':
            g = self.proj.funcs[t[1]]
            self.bind(g, n, args, kws, g.cls is not None and
                      g.kind != 'staticmethod', None)
            self.edge(('r', t[1]), key)
        elif isinstance(t, tuple) and t[0] == 'c':
            self.add(key, ('i', t[1]))
        elif t == 'unk':
            self.add(key, 'unk')

    def bind(self, g, n, args, kws, bound, recv):
        params = list(g.params)
        if bound and params:
            if recv is not None and g.kind == 'method':
                self.con(recv, lambda t, p=params[0]: self.add(
                    ('v', g.qual, p), t) if isinstance(t, tuple) and
                    t[0] == 'i' else None)
            params = params[1:]
        for a, (x, k) in enumerate(zip(n.args, args)):
            if isinstance(x, ast.Starred):
                for p in params[a:]:
                    self.iter_into(k, ('v', g.qual, p))
                break
            if a < len(params):
                self.edge(k, ('v', g.qual, params[a]))
            elif g.vararg:
                self.edge(k, ('el', self.vararg(g)))
        for nm, k in kws.items():
            if nm is None:
                continue
            if nm in g.params or nm in g.kwonly:
                self.edge(k, ('v', g.qual, nm))

    def vararg(self, g):
        t = ('o', 'tuple', 'va:' + g.qual)
        self.add(('v', g.qual, g.vararg), t)
        return t

    def method(self, m, f, n, name, recv, args, kws, key, cls):
        if name in STR_METHODS:
            self.con(recv, lambda t: self.add(key, 'str') if t == 'str' or (
                isinstance(t, tuple) and t[0] == 'lit') else self.add(
                    key, 'unk') if t == 'unk' else None)
            if name in ('format', 'join', 'replace'):
                self.add(key, 'str')
            return
        if name in STR_LISTS:
            t = self.obj('list', n, f)
            self.add(key, t)
            self.add(('el', t), 'str')
            return
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'issubset',
                    'issuperset', 'is_alive'):
            self.add(key, 'bool')
            return
        if name in ('count', 'index', 'find', 'rfind'):
            self.add(key, 'int')
            return
        if name in MUTATORS and f is not None:
            self.mut.append((f, n, recv, name))

        def on(t):
            if t == 'unk':
                self.add(key, 'unk')
            if isinstance(t, tuple) and t[0] in ('i', 'c', 'm'):
                if t[0] == 'm':
                    return
                g = self.proj.find_method(t[1], name)
                if g is None:
                    self.add(key, 'unk')
                else:
                    self.bind(g, n, args, kws, g.kind != 'staticmethod', recv)
                    self.edge(('r', g.qual), key)
                return
            if not (isinstance(t, tuple) and t[0] == 'o'):
                return
            if name in ('append', 'add', 'appendleft') and args:
                self.edge(args[0], ('el', t))
            elif name == 'insert' and len(args) > 1:
                self.edge(args[1], ('el', t))
            elif name in ('extend', 'update', 'union', 'difference',
                          'intersection', 'symmetric_difference', 'copy'):
                tgt = t
                if name not in ('extend', 'update'):
                    tgt = ('o', t[1], id(n))
                    self.sites[id(n)] = (f, n)
                    self.add(key, tgt)
                    self.copied(t, tgt)
                for a in args:
                    if t[1] == 'dict':
                        self.copy_into(a, tgt)
                    else:
                        self.iter_into(a, ('el', tgt))
                for k in kws.values():
                    self.edge(k, ('dv', tgt))
            elif name in ('get', 'setdefault'):
                self.fetch(t, self.text(m, n.args[0], cls) if n.args else None,
                           key)
                if len(args) > 1:
                    self.edge(args[1], key)
                    if name == 'setdefault':
                        self.put(t, args[0], n.args[0], m, cls, args[1])
                elif name == 'get':
                    self.add(key, 'none')
            elif name in ('pop', 'popleft'):
                if t[1] == 'dict':
                    self.fetch(t, self.text(m, n.args[0], cls)
                               if n.args else None, key)
                else:
                    self.edge(('el', t), key)
                if len(args) > 1:
                    self.edge(args[1], key)
            elif name in ('keys', 'iterkeys'):
                u = self.obj('list', n, f)
                self.add(key, u)
                self.edge(('el', t), ('el', u))
            elif name in ('values', 'itervalues'):
                u = self.obj('list', n, f)
                self.add(key, u)
                self.fetch(t, None, ('el', u))
            elif name in ('items', 'iteritems'):
                u = self.obj('list', n, f)
                p = ('o', 'tuple', ('item', id(n)))
                self.sites[('item', id(n))] = (f, n)
                self.add(key, u)
                self.add(('el', u), p)
                self.edge(('el', t), ('ix', p, 0))
                self.fetch(t, None, ('ix', p, 1))
                self.edge(('el', t), ('el', p))
                self.fetch(t, None, ('el', p))
        self.con(recv, on)
        if name == 'get' and len(args) > 1:
            self.edge(args[1], key)

    def builtin(self, m, f, n, d, last, args, kws, key, r):
        if last in COPIES and (r is None or r[0] == 'ext'):
            kind = COPIES[last]

            def mk(k):
                t = ('o', k, id(n))
                self.sites[id(n)] = (f, n)
                self.add(key, t)
                return t
            if kind is not None:
                t = mk(kind)
                if args:
                    if kind == 'dict':
                        self.copy_into(args[0], t)
                    else:
                        self.iter_into(args[0], ('el', t))
                for k in kws.values():
                    if kind == 'dict':
                        self.edge(k, ('dv', t))
            elif args:
                def on(x):
                    if isinstance(x, tuple) and x[0] == 'o':
                        self.copied(x, mk(x[1]))
                    else:
                        self.add(key, x)
                self.con(args[0], on)
            return
        if last in STR_CALLS:
            self.add(key, 'str')
        elif last in ('len', 'int', 'sum', 'abs', 'round', 'ord', 'hash', 'id'):
            self.add(key, 'int')
        elif last in ('isinstance', 'issubclass', 'bool', 'all', 'any',
                      'callable', 'isfile', 'isdir', 'exists', 'isabs'):
            self.add(key, 'bool')
        elif last == 'range':
            t = self.obj('list', n, f)
            self.add(key, t)
            self.add(('el', t), 'int')
        elif last in ('max', 'min', 'next') and args:
            if len(args) == 1 or last == 'next':
                self.iter_into(args[0], key)
            else:
                for a in args:
                    self.edge(a, key)
        elif last in ('filter', 'map', 'zip', 'enumerate'):
            t = self.obj('list', n, f)
            self.add(key, t)
            if last == 'filter' and len(args) > 1:
                self.iter_into(args[1], ('el', t))
            elif last == 'map':
                self.con(args[0] if args else None, lambda x: self.edge(
                    ('r', x[1]), ('el', t)) if isinstance(x, tuple) and
                    x[0] == 'fn' else None)
            else:
                p = ('o', 'tuple', ('zip', id(n)))
                self.sites[('zip', id(n))] = (f, n)
                self.add(('el', t), p)
                for i, a in enumerate(args):
                    self.iter_into(a, ('ix', p, i + (last == 'enumerate')))
                    self.iter_into(a, ('el', p))
        else:
            self.add(key, 'unk')

    # --------------------------------------------------------- statements
    def assign(self, m, f, t, k, cls=None):
        if isinstance(t, ast.Name):
            v = self.var(m, f, t.id, cls)
            if v[0] != 'fnref':
                self.edge(k, v)
        elif isinstance(t, ast.Attribute):
            self.edge(k, ('f', t.attr))
            self.ex(m, f, t.value, cls)
        elif isinstance(t, ast.Subscript):
            b = self.ex(m, f, t.value, cls)
            if isinstance(t.slice, ast.Slice):
                def on(x):
                    if isinstance(x, tuple) and x[0] == 'o':
                        self.iter_into(k, ('el', x))
                self.con(b, on)
            else:
                i = self.ex(m, f, t.slice, cls)

                def on(x):
                    if isinstance(x, tuple) and x[0] == 'o':
                        if x[1] == 'dict':
                            self.put(x, i, t.slice, m, cls, k)
                        else:
                            self.edge(k, ('el', x))
                self.con(b, on)
            if f is not None:
                self.mut.append((f, t, b, '[]='))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    u = self.obj('list', x, f)
                    self.iter_into(k, ('el', u))
                    self.add(('x', id(x), 's'), u)
                    self.assign(m, f, x.value, ('x', id(x), 's'), cls)
                    continue
                kk = ('x', id(x), 'un')

                def on(tok, i=i, kk=kk):
                    if isinstance(tok, tuple) and tok[0] == 'o':
                        self.edge(('ix', tok, i) if tok[1] == 'tuple'
                                  else ('el', tok), kk)
                    elif tok == 'unk':
                        self.add(kk, 'unk')
                    elif tok == 'str':
                        self.add(kk, 'str')
                self.con(k, on)
                self.assign(m, f, x, kk, cls)

    def body(self, m, f, body, cls=None):
        if f is not None and f.node is not None and \
                not isinstance(f.node, ast.Lambda):
            a = f.node.args
            pos = a.posonlyargs + a.args
            for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)
                             ) + [(p, d) for p, d in zip(a.kwonlyargs,
                                                         a.kw_defaults) if d]:
                self.edge(self.ex(m, f.parent, d, f.cls),
                          ('v', f.qual, p.arg))
            if f.vararg:
                self.vararg(f)
            if f.kwarg:
                self.add(('v', f.qual, f.kwarg), ('o', 'dict', 'kw:' + f.qual))
        for st in body:
            self.stmt(m, f, st, cls)

    def stmt(self, m, f, st, cls):
        ev = lambda x: self.ex(m, f, x, cls)
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        if isinstance(st, ast.Assign):
            k = ev(st.value)
            for t in st.targets:
                self.assign(m, f, t, k, cls)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(m, f, st.target, ev(st.value), cls)
        elif isinstance(st, ast.AugAssign):
            k = ev(st.value)
            load = ast.copy_location(ast.parse(
                ast.unparse(st.target), mode='eval').body, st.target)
            self._keep = getattr(self, '_keep', [])
            self._keep.append(load)
            b = ev(load)
            if f is not None:
                self.mut.append((f, st, b, '+='))

            def on(t):
                if isinstance(t, tuple) and t[0] == 'o' and t[1] != 'tuple':
                    self.iter_into(k, ('el', t))
                elif t == 'str' or (isinstance(t, tuple) and t[0] == 'lit'):
                    self.add(('x', id(st), 'aug'), 'str')
                elif isinstance(t, tuple) and t[0] == 'o':
                    u = ('o', 'tuple', id(st))
                    self.sites[id(st)] = (f, st)
                    self.add(('x', id(st), 'aug'), u)
                    self.edge(('el', t), ('el', u))
                    self.iter_into(k, ('el', u))
            self.con(b, on)
            self.assign(m, f, st.target, ('x', id(st), 'aug'), cls)
            if isinstance(st.target, ast.Subscript):
                self.mut.pop()
        elif isinstance(st, ast.Return):
            if f is not None:
                k = ev(st.value) if st.value is not None else None
                if k is None:
                    self.add(('r', f.qual), 'none')
                self.edge(k, ('r', f.qual))
                self.rets.setdefault(f.qual, []).append((st, k))
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    b = ev(t.value)
                    if f is not None:
                        self.mut.append((f, st, b, 'del []'))
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            self.loop(m, f, st.target, st.iter, cls)
            for x in st.body + st.orelse:
                self.stmt(m, f, x, cls)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                ev(it.context_expr)
                if it.optional_vars is not None:
                    u = ('x', id(it), 'w')
                    self.add(u, 'unk')
                    self.assign(m, f, it.optional_vars, u, cls)
            for x in st.body:
                self.stmt(m, f, x, cls)
        elif isinstance(st, ast.Try):
            for x in st.body + st.orelse + st.finalbody:
                self.stmt(m, f, x, cls)
            for h in st.handlers:
                if h.name:
                    v = self.var(m, f, h.name, cls)
                    self.add(v, 'unk')
                for x in h.body:
                    self.stmt(m, f, x, cls)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            if f is not None:
                for nm, b in self.proj.import_bindings(m, st):
                    if nm in f.locals:
                        v = ('v', f.qual, nm)
                        if b[0] == 'mod':
                            self.add(v, ('m', b[1]))
                        elif b[0] == 'from':
                            self.static(self.proj.member(('mod', b[1]), b[2]),
                                        v)
                        else:
                            self.add(v, 'unk')
        else:
            for fld, val in ast.iter_fields(st):
                for x in val if isinstance(val, list) else [val]:
                    if isinstance(x, ast.expr):
                        ev(x)
                    elif isinstance(x, ast.stmt):
                        self.stmt(m, f, x, cls)
                    elif isinstance(x, ast.AST):
                        for y in ast.walk(x):
                            if isinstance(y, ast.stmt):
                                self.stmt(m, f, y, cls)

    # ------------------------------------------------------------ queries
    def of(self, node):
        return self.pts.get(('x', id(node)), set())

    def show(self, toks):
        out = []
        for t in toks:
            if isinstance(t, tuple) and t[0] == 'o':
                s = self.sites.get(t[2])
                out.append('%s@%s:%s' % (t[1], s[0].name if s and s[0] else '?',
                                         getattr(s[1], 'lineno', '?')
                                         if s else t[2]))
            else:
                out.append(str(t))
        return sorted(out)
