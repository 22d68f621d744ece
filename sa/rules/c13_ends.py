"""C13: a loop that has to find its own end gets on towards it each time round.

Every way round the body of a `while` (or of a `for` over a source without an
end) is enumerated and each name's value at its end is put down in terms of the
values at its beginning.  Going round again with nothing moved that a way out
depends on goes on for good.  What a stream yields is taken to be its end."""
import ast

from ..core import Rule
from ..project import own_walk, dotted

ENV, CLOCK = '<outside>', '<clock>'
CLOCKS = {'time', 'monotonic', 'perf_counter', 'now', 'clock', 'process_time'}
READS = {'recv', 'recvfrom', 'read', 'readline', 'read1', 'readexactly'}
# the value is the argument's again, once it has been through it
SAME = {'list', 'tuple', 'sorted', 'str', 'int', 'float', 'bool', 'set', 'abs',
        'frozenset', 'copy', 'copy.copy', 'copy.deepcopy', 'dict', 'reversed',
        'os.path.abspath', 'os.path.normpath', 'os.path.realpath',
        'os.path.expanduser', 'os.path.expandvars'}
SAME_METHODS = {'strip', 'copy', 'lower', 'upper', 'casefold', 'lstrip',
                'rstrip', 'title', 'capitalize'}
# says the same of the same
PURE = SAME | {
    'len', 'getattr', 'hasattr', 'isinstance', 'issubclass', 'type', 'range',
    'enumerate', 'zip', 'max', 'min', 'sum', 'any', 'all', 'map', 'filter',
    'repr', 'ord', 'chr', 'hash', 'id', 'callable', 'divmod', 'round', 'bytes',
    'OrderedDict', 'vars', 'dir', 'super', 'format', 'iter', 'slice',
    'os.path.dirname', 'os.path.join', 'os.path.basename', 'os.path.split',
    'os.path.splitext', 'os.path.isabs', 'struct.unpack', 'struct.pack'}
MUTATES = {'append', 'extend', 'insert', 'remove', 'pop', 'popleft', 'add',
           'appendleft', 'discard', 'update', 'clear', 'popitem', 'setdefault',
           'sort', 'reverse', 'difference_update', 'intersection_update'}
GROWS = {'append', 'extend', 'insert', 'appendleft'}
QUIET = {'debug', 'info', 'warning', 'error', 'exception', 'critical', 'log',
         'format', 'grapherror', 'execinfo', 'compinfo', 'setLevel'}
ENDLESS = {'itertools.count', 'itertools.cycle', 'itertools.repeat', 'iter2'}
PURE_METHODS = {m for t in (str, bytes, list, dict, set, tuple)
                for m in dir(t) if not m.startswith('__')} - MUTATES
MAX = 4000


class TooMany(Exception):
    pass


class V(object):
    """deps: the names whose value at the beginning it is made of; form: what
    is known of it - ('c', x), ('same', name), ('step', name, k), ('eof',)."""
    __slots__ = ('deps', 'form')

    def __init__(self, deps, form=None):
        self.deps, self.form = frozenset(deps), form

    def key(self):
        return (self.deps, repr(self.form))


def const(x):
    return V((), ('c', x))


EOF = V((), ('eof',))
EMPTY = (b'', '', 0, None)


class Path(object):
    __slots__ = ('env', 'tests', 'memo', 'waited')

    def __init__(self):
        self.env, self.tests, self.memo, self.waited = {}, [], {}, False

    def copy(self):
        p = Path()
        p.env, p.tests = dict(self.env), list(self.tests)
        p.memo, p.waited = dict(self.memo), self.waited
        return p


class Loops(object):
    def __init__(self, ctx):
        self.ctx, self.proj, self.cg = ctx, ctx.proj, ctx.cg
        self.impure = self._impure()
        self.stored = {}
        for f in self.proj.funcs.values():
            for n in own_walk(f.node):
                if isinstance(n, ast.Attribute) and \
                        isinstance(n.ctx, (ast.Store, ast.Del)):
                    mine = isinstance(n.value, ast.Name) and \
                        n.value.id == 'self'
                    self.stored.setdefault(n.attr, set()).add(
                        (f.qual, mine and f.cls and f.cls.qual))
        self.loops = self.ways = 0

    # ------------------------------------------------------------- purity
    def _impure(self):
        """Functions that change or ask something outside themselves."""
        direct = set()
        for f in self.proj.funcs.values():
            fresh = set(f.locals) - set(f.params)
            for n in own_walk(f.node):
                hit = False
                if isinstance(n, (ast.Attribute, ast.Subscript)) and \
                        isinstance(n.ctx, (ast.Store, ast.Del)):
                    hit = not (isinstance(n, ast.Subscript) and
                               isinstance(n.value, ast.Name) and
                               n.value.id in fresh)
                elif isinstance(n, (ast.Global, ast.Yield, ast.YieldFrom)):
                    hit = True
                elif isinstance(n, ast.Call):
                    fn = n.func
                    if isinstance(fn, ast.Attribute) and fn.attr in MUTATES:
                        hit = not (isinstance(fn.value, ast.Name) and
                                   fn.value.id in fresh)
                    else:
                        hit = any(k == 'ext' and not self.quiet(q, n)
                                  for k, q in self.cg.resolve_call(f, n))
                if hit:
                    direct.add(f.qual)
                    break
        return self.cg.callers_closure(direct)

    @staticmethod
    def quiet(q, call):
        last = q.split('.')[-1]
        return (q.startswith('new:') or q in PURE or q.lstrip('?') in PURE or
                last in PURE or last in PURE_METHODS or last in QUIET or
                last in ('getLogger', 'namedtuple') or
                last.endswith(('Error', 'Exception', 'Warning')))

    # -------------------------------------------------------------- values
    def val(self, f, p, n):
        """The value of an expression on this path."""
        c = self.konst(f, p, n)
        if c is not None:
            return c
        if isinstance(n, (ast.Name, ast.Attribute)):
            d = dotted(n)
            if d:
                if d in p.env:
                    return p.env[d]
                if isinstance(n, ast.Name):
                    return V({d}, ('same', d))
                base = self.val(f, p, n.value)
                deps = set(base.deps)
                same = base.form == ('same', dotted(n.value))
                if same:
                    # the field as it was, unless others change it meanwhile
                    deps.add(d)
                if self.calls_out and self.elsewhere(f, n):
                    deps.add(ENV)
                elif self.props(f, n):
                    deps.add(ENV)
                return V(deps, ('same', d) if same and ENV not in deps else None)
        if isinstance(n, ast.Call):
            return self.call(f, p, n)
        if isinstance(n, ast.BinOp):
            a, b = self.val(f, p, n.left), self.val(f, p, n.right)
            return self.binop(n.op, a, b)
        if isinstance(n, ast.Subscript):
            if isinstance(n.slice, ast.Slice) and not (
                    n.slice.lower or n.slice.upper or n.slice.step):
                return self.val(f, p, n.value)
        if isinstance(n, ast.IfExp):
            a, b = self.val(f, p, n.body), self.val(f, p, n.orelse)
            t = self.val(f, p, n.test)
            return V(a.deps | b.deps | t.deps)
        if isinstance(n, (ast.List, ast.Dict, ast.Set, ast.Tuple)) and \
                not list(ast.iter_child_nodes(n))[:-1]:
            if isinstance(n, ast.Dict) or not n.elts:
                return const(())
        deps, forms = set(), 0
        bound = {x.id for g in ast.walk(n) if isinstance(g, ast.comprehension)
                 for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        for a in (x.arg for l in ast.walk(n) if isinstance(l, ast.Lambda)
                  for x in l.args.args):
            bound.add(a)
        saved = {b: p.env.get(b) for b in bound}
        for b in bound:
            p.env[b] = const('?')
            p.env[b] = V(())
        for c in ast.iter_child_nodes(n):
            deps |= self.parts(f, p, c)
        for b, v in saved.items():
            if v is None:
                p.env.pop(b, None)
            else:
                p.env[b] = v
        return V(deps)

    def parts(self, f, p, n):
        if isinstance(n, ast.expr):
            return self.val(f, p, n).deps
        out = set()
        for c in ast.iter_child_nodes(n):
            out |= self.parts(f, p, c)
        return out

    def elsewhere(self, f, n):
        """Others set the field, for objects made before."""
        kin = None
        if dotted(n.value) == 'self' and f.cls is not None:
            kin = set(self.proj.mro(f.cls.qual)) | \
                set(self.proj.subclasses(f.cls.qual))
        for q, owner in self.stored.get(n.attr, ()):
            if q.endswith('.__init__') or q == f.qual:
                continue
            if owner and kin is not None and owner not in kin:
                continue
            return True
        return False

    def props(self, f, n):
        return any(q in self.impure for q in self.cg.resolve_ref(f, n))

    @staticmethod
    def binop(op, a, b):
        if a.form == ('eof',) and isinstance(op, ast.Add):
            return b
        if b.form == ('eof',) and isinstance(op, ast.Add):
            return a
        k = b.form[1] if b.form and b.form[0] == 'c' else None
        if isinstance(k, (int, float)) and isinstance(op, (ast.Add, ast.Sub)):
            k = k if isinstance(op, ast.Add) else -k
            if a.form and a.form[0] == 'same':
                return V(a.deps, ('step', a.form[1], k) if k else a.form)
            if a.form and a.form[0] == 'step':
                return V(a.deps, ('step', a.form[1], a.form[2] + k)
                         if a.form[2] + k else ('same', a.form[1]))
        if k in ('', (), 0) and isinstance(op, ast.Add) and a.form and \
                a.form[0] == 'same':
            return a
        return V(a.deps | b.deps)

    def konst(self, f, p, n):
        if isinstance(n, ast.Constant):
            return const(n.value)
        if isinstance(n, (ast.Name, ast.Attribute)):
            d = dotted(n)
            if not d or d in p.env or d.split('.')[0] in f.locals:
                return None
            try:
                return const(self.proj.const(f.module, n, f.cls))
            except (ValueError, KeyError, RecursionError):
                r = self.proj.lookup(f.module, d)
                return V(()) if r is not None else None
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and \
                isinstance(n.operand, ast.Constant) and \
                isinstance(n.operand.value, (int, float)):
            return const(-n.operand.value)
        return None

    def call(self, f, p, n):
        fn = n.func
        d = dotted(fn)
        last = fn.attr if isinstance(fn, ast.Attribute) else d
        args = [self.val(f, p, a) for a in n.args] + \
               [self.val(f, p, k.value) for k in n.keywords]
        deps = set().union(*[a.deps for a in args]) if args else set()
        kinds = self.cg.resolve_call(f, n)
        mine = [q for k, q in kinds if k == 'fn']
        if isinstance(fn, ast.Attribute):
            base = self.val(f, p, fn.value)
            if not mine or d.split('.')[0] in f.locals or not d:
                deps |= base.deps
            if not mine and last in READS:
                return EOF
            if not mine and last in SAME_METHODS and not n.args:
                return base
        if mine:
            for q in mine:
                g = self.proj.funcs[q]
                if q in self.impure:
                    deps.add(ENV)
                if g.parent is not None:
                    for x in ast.walk(g.node):
                        if isinstance(x, ast.Name) and x.id not in g.locals \
                                and x.id in p.env:
                            deps |= p.env[x.id].deps
            return V(deps)
        names = {q for k, q in kinds} | {q.lstrip('?.') for k, q in kinds}
        if names & SAME and len(args) == 1:
            return args[0]
        if names & {'len'} and args and args[0].form == ('eof',):
            return const(0)
        if names & {'len'} and args and args[0].form == ('c', ()):
            return const(0)
        if last in CLOCKS:
            deps.add(CLOCK)
        elif not (isinstance(fn, ast.Attribute) and last in PURE_METHODS) and \
                not all(self.quiet(q, n) for k, q in kinds):
            deps.add(ENV)
        if isinstance(fn, ast.Attribute) and last in MUTATES:
            deps.add(ENV)
        return V(deps)

    # --------------------------------------------------------------- tests
    def truth(self, f, p, n):
        """True, False or None."""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t = self.truth(f, p, n.operand)
            return None if t is None else not t
        if isinstance(n, ast.BoolOp):
            ts = [self.truth(f, p, v) for v in n.values]
            if isinstance(n.op, ast.And):
                return False if False in ts else None if None in ts else True
            return True if True in ts else None if None in ts else False
        m = p.memo.get(self.mkey(f, p, n))
        if m is not None:
            return m
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = self.val(f, p, n.left), self.val(f, p, n.comparators[0])
            op = n.ops[0]
            if a.form and a.form == b.form and a.form[0] in ('same', 'step'):
                if isinstance(op, (ast.Eq, ast.Is, ast.LtE, ast.GtE)):
                    return True
                if isinstance(op, (ast.NotEq, ast.IsNot, ast.Lt, ast.Gt)):
                    return False
            for x, y in ((a, b), (b, a)):
                if x.form == ('eof',):
                    if y.form and y.form[0] == 'c' and y.form[1] in EMPTY:
                        if isinstance(op, ast.Eq):
                            return True
                        if isinstance(op, ast.NotEq):
                            return False
                    return None
            if a.form and b.form and a.form[0] == b.form[0] == 'c':
                x, y = a.form[1], b.form[1]
                try:
                    if isinstance(op, (ast.Eq, ast.Is)):
                        return x == y
                    if isinstance(op, (ast.NotEq, ast.IsNot)):
                        return x != y
                    if isinstance(op, ast.Lt):
                        return x < y
                    if isinstance(op, ast.LtE):
                        return x <= y
                    if isinstance(op, ast.Gt):
                        return x > y
                    if isinstance(op, ast.GtE):
                        return x >= y
                    if isinstance(op, ast.In):
                        return x in y
                    if isinstance(op, ast.NotIn):
                        return x not in y
                except TypeError:
                    return None
            if b.form == ('c', ()):
                if isinstance(op, ast.In):
                    return False
                if isinstance(op, ast.NotIn):
                    return True
            return None
        v = self.val(f, p, n)
        if v.form == ('eof',):
            return False
        if v.form and v.form[0] == 'c' and not isinstance(v.form[1], type(self)):
            try:
                return bool(v.form[1])
            except Exception:
                return None
        return None

    def mkey(self, f, p, n):
        names = {d for d in (dotted(x) for x in ast.walk(n)
                             if isinstance(x, (ast.Name, ast.Attribute))) if d}
        if ENV in self.val(f, p, n).deps:
            return None
        return (ast.dump(n), tuple(sorted(
            (x,) + p.env[x].key()[1:] + (tuple(sorted(p.env[x].deps)),)
            for x in names if x in p.env)))

    def assume(self, f, p, n, yes):
        """-> False when the path cannot be."""
        t = self.truth(f, p, n)
        if t is not None:
            return t == yes
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return self.assume(f, p, n.operand, not yes)
        if isinstance(n, ast.BoolOp):
            if isinstance(n.op, ast.And) == yes:
                return all([self.assume(f, p, v, yes) for v in n.values])
            return True
        k = self.mkey(f, p, n)
        if k is not None:
            p.memo[k] = yes
        # a test for a value leaves a name with that value
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                isinstance(n.ops[0], (ast.Is, ast.Eq) if yes
                           else (ast.IsNot, ast.NotEq)):
            v = self.val(f, p, n.comparators[0])
            d = dotted(n.left)
            if d and v.form and v.form[0] == 'c' and d in p.env and \
                    p.env[d].form is None:
                p.env[d] = V(p.env[d].deps, v.form)
        if isinstance(n, ast.Name) and not yes and n.id in p.env and \
                p.env[n.id].form is None:
            p.env[n.id] = V(p.env[n.id].deps, ('c', ()))
        return True

    # --------------------------------------------------------------- paths
    def run(self, f, paths, body):
        """-> {'next': [...], 'back': [...], 'brk': [...]}; ends are dropped"""
        out = {'next': paths, 'back': [], 'brk': []}
        for st in body:
            if not out['next']:
                break
            if len(out['next']) > MAX:
                raise TooMany()
            nxt = []
            for p in out['next']:
                r = self.stmt(f, p, st)
                nxt += r['next']
                out['back'] += r['back']
                out['brk'] += r['brk']
            out['next'] = self.merge(nxt)
        return out

    @staticmethod
    def merge(ps):
        seen, out = set(), []
        for p in ps:
            k = (tuple(sorted((n, str(sorted(v.deps)), repr(v.form))
                              for n, v in p.env.items())),
                 tuple(sorted(t[0] for t in p.tests)), p.waited)
            if k not in seen:
                seen.add(k)
                out.append(p)
        return out

    def stmt(self, f, p, st):
        out = {'next': [], 'back': [], 'brk': []}
        if isinstance(st, (ast.Return, ast.Raise)):
            return out
        if isinstance(st, ast.Break):
            out['brk'] = [p]
            return out
        if isinstance(st, ast.Continue):
            out['back'] = [p]
            return out
        if isinstance(st, ast.If):
            for yes, body in ((True, st.body), (False, st.orelse)):
                q = p.copy()
                self.note(f, q, st.test, st, yes)
                if not self.assume(f, q, st.test, yes):
                    continue
                r = self.run(f, [q], body)
                for k in out:
                    out[k] += r[k]
            return out
        if isinstance(st, (ast.For, ast.While)):
            return self.inner(f, p, st)
        if isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                if i.optional_vars is not None:
                    self.assign(f, p, i.optional_vars,
                                self.val(f, p, i.context_expr))
            return self.run(f, [p], st.body)
        if isinstance(st, ast.Try):
            return self.tried(f, p, st)
        if isinstance(st, ast.Assign):
            v = self.val(f, p, st.value)
            self.effects(f, p, st.value)
            for t in st.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and \
                        isinstance(st.value, (ast.Tuple, ast.List)) and \
                        len(t.elts) == len(st.value.elts):
                    vs = [self.val(f, p, x) for x in st.value.elts]
                    for x, y in zip(t.elts, vs):
                        self.assign(f, p, x, y)
                else:
                    self.assign(f, p, t, v)
        elif isinstance(st, ast.AugAssign):
            self.effects(f, p, st.value)
            ld = ast.copy_location(ast.parse(ast.unparse(st.target),
                                             mode='eval').body, st.target)
            v = self.binop(st.op, self.val(f, p, ld), self.val(f, p, st.value))
            self.assign(f, p, st.target, v)
        elif isinstance(st, ast.AnnAssign) and st.value is not None:
            self.assign(f, p, st.target, self.val(f, p, st.value))
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.assign(f, p, t, V(()))
        elif isinstance(st, ast.Expr):
            self.effects(f, p, st.value)
            if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
                p.waited = True
        out['next'] = [p]
        return out

    def effects(self, f, p, n):
        """Calls that change what they are called on or given."""
        for c in ast.walk(n):
            if isinstance(c, ast.NamedExpr):
                self.assign(f, p, c.target, self.val(f, p, c.value))
            if not isinstance(c, ast.Call):
                continue
            if isinstance(c.func, ast.Attribute) and c.func.attr in MUTATES:
                d = dotted(c.func.value)
                if d:
                    old = self.val(f, p, c.func.value)
                    new = set().union(*[self.val(f, p, a).deps
                                        for a in c.args]) if c.args else set()
                    p.env[d] = V(old.deps | new | {d})
            mine = [q for k, q in self.cg.resolve_call(f, c) if k == 'fn']
            if any(q in self.impure for q in mine) or (not mine and any(
                    not self.quiet(q, c) for k, q in self.cg.resolve_call(f, c))):
                # what is handed over may be changed
                for a in c.args:
                    if isinstance(a, ast.Name) and p.env.get(a.id) is not None:
                        v = p.env[a.id]
                        if v.form is None:
                            p.env[a.id] = V(v.deps | {ENV})

    def assign(self, f, p, t, v):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(f, p, x, V(v.deps))
        elif isinstance(t, ast.Starred):
            self.assign(f, p, t.value, V(v.deps))
        elif isinstance(t, ast.Name):
            self.put(p, t.id, v)
        elif isinstance(t, ast.Attribute):
            d = dotted(t)
            if d:
                self.put(p, d, v)
        elif isinstance(t, ast.Subscript):
            d = dotted(t.value)
            if d:
                old = self.val(f, p, t.value)
                p.env[d] = V(old.deps | v.deps | {d} |
                             self.val(f, p, t.slice).deps)

    @staticmethod
    def put(p, d, v):
        for k in [k for k in p.env if k.startswith(d + '.')]:
            del p.env[k]
        p.env[d] = v

    def source(self, f, p, it):
        """The name whose elements are gone through."""
        while isinstance(it, ast.Call) and it.args and \
                dotted(it.func) in ('list', 'tuple', 'sorted', 'reversed', 'set',
                                    'enumerate', 'iter'):
            it = it.args[0]
        while True:
            if isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice):
                it = it.value
            elif isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) \
                    and it.func.attr in ('keys', 'items', 'values', 'copy'):
                it = it.func.value
            else:
                return it

    def inner(self, f, p, st):
        """A loop inside: not at all, or some number of times."""
        out = {'next': [], 'back': [], 'brk': []}
        test = st.iter if isinstance(st, ast.For) else st.test
        self.effects(f, p, test)
        none, some = p.copy(), p.copy()
        self.note(f, none, test, st, False)
        self.note(f, some, test, st, True)
        ok = True
        if isinstance(st, ast.For):
            s = dotted(self.source(f, none, st.iter))
            v = self.val(f, none, self.source(f, none, st.iter))
            if s and v.form != ('c', ()):
                none.env[s] = V(v.deps, ('c', ()))
            if v.form == ('c', ()):
                some = None
            if some is not None:
                self.assign(f, some, st.target, self.val(f, some, st.iter))
        else:
            ok = self.assume(f, none, test, False)
            if not self.assume(f, some, test, True):
                some = None
        ended = [none] if ok else []
        broke = []
        if some is not None:
            was = dict(some.env)
            r = self.run(f, [some], st.body)
            for q in r['next'] + r['back']:
                # any number of times more
                for k, v in list(q.env.items()):
                    o = was.get(k)
                    if o is None or o.key() != v.key():
                        deps = v.deps | (o.deps if o else {k})
                        if o is None and v.form and v.form[0] == 'c':
                            deps = v.deps
                        q.env[k] = V(deps, v.form if v.form and
                                     v.form[0] in ('c', 'eof') and
                                     not self.counted(v) else None)
                ended.append(q)
            broke = r['brk']
        r = self.run(f, self.merge(ended), st.orelse) if st.orelse else \
            {'next': self.merge(ended), 'back': [], 'brk': []}
        out['next'] = r['next'] + broke
        out['back'], out['brk'] = r['back'], r['brk']
        return out

    @staticmethod
    def counted(v):
        return isinstance(v.form[1], (int, float)) and \
            not isinstance(v.form[1], bool) if v.form[0] == 'c' else False

    def tried(self, f, p, st):
        out = {'next': [], 'back': [], 'brk': []}

        def add(r):
            for k in out:
                out[k] += r[k]
        r = self.run(f, [p.copy()], st.body)
        if st.orelse:
            e = self.run(f, r['next'], st.orelse)
            r = {'next': e['next'], 'back': r['back'] + e['back'],
                 'brk': r['brk'] + e['brk']}
        add(r)
        for h in st.handlers:
            q = p.copy()
            done = self.run(f, [p.copy()], st.body)
            after = done['next'] + done['back'] + done['brk']
            # some of the body has been done, or none of it
            starts = [q]
            for x in ast.walk(ast.Module(st.body, [])):
                if isinstance(x, ast.Call) and (
                        isinstance(x.func, ast.Attribute) and
                        x.func.attr in READS or
                        ENV in self.val(f, p.copy(), x).deps):
                    q.waited = True
            if len(st.body) > 1:
                for a in after[:6]:
                    b = a.copy()
                    b.waited = b.waited or q.waited
                    starts.append(b)
            if h.name:
                for s in starts:
                    s.env[h.name] = V(())
            add(self.run(f, self.merge(starts), h.body))
        if st.finalbody:
            for k in out:
                fin = self.run(f, out[k], st.finalbody)
                keep = fin['next']
                out[k] = keep
        return out

    def note(self, f, p, test, st, yes):
        if id(st) in self.exits:
            p.tests.append((id(test), yes, test, self.val(f, p, test), dict(
                (d, self.val(f, p, x)) for x in ast.walk(test)
                if isinstance(x, ast.Name) for d in [x.id])))

    # ------------------------------------------------------------- verdict
    def relevant(self, loop):
        """Statements that say whether a way out is taken."""
        names, out = set(), set()

        def loads(n):
            return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}

        def leaves(sts, depth):
            for s in sts:
                for x in [s] + list(own_walk(s)):
                    if isinstance(x, (ast.Return, ast.Raise, ast.Break,
                                      ast.Continue, ast.Yield)):
                        return True
            return False
        if isinstance(loop, ast.While):
            names |= loads(loop.test)
        inside = [n for n in own_walk(ast.Module(loop.body, []))
                  if isinstance(n, (ast.If, ast.For, ast.While))]
        changed = True
        while changed:
            changed = False
            for n in inside:
                if id(n) in out:
                    continue
                sets = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)
                        and isinstance(x.ctx, ast.Store)}
                sets |= {x.func.value.id for x in ast.walk(n)
                         if isinstance(x, ast.Call) and
                         isinstance(x.func, ast.Attribute) and
                         x.func.attr in MUTATES and
                         isinstance(x.func.value, ast.Name)}
                if leaves([n], 0) or sets & names:
                    out.add(id(n))
                    names |= loads(n.iter if isinstance(n, ast.For) else n.test)
                    changed = True
        return out

    def moving(self, p, waits):
        """Names whose value differs from one time round to the next."""
        move = set()
        for n, v in p.env.items():
            if v.form and v.form[0] == 'step' and v.form[1] == n:
                move.add(n)
            elif CLOCK in v.deps or ENV in v.deps and not waits:
                move.add(n)
        real = {n: v for n, v in p.env.items()
                if v.form is None or v.form[0] in ('same', 'step')}
        reach = {n: set(v.deps) for n, v in real.items()
                 if v.form != ('same', n)}
        changed = True
        while changed:
            changed = False
            for n, r in reach.items():
                new = set(r)
                for x in r:
                    new |= reach.get(x, set())
                if new != r:
                    reach[n] = new
                    changed = True
        for n, r in reach.items():
            if n in r or r & move or CLOCK in r or \
                    ENV in r and not waits:
                move.add(n)
        return move

    def loop(self, f, loop):
        self.loops += 1
        self.calls_out = any(
            isinstance(c, ast.Call) and any(
                (k == 'fn' and q in self.impure) or
                (k == 'ext' and not self.quiet(q, c) and
                 isinstance(c.func, ast.Attribute) and
                 c.func.attr not in MUTATES)
                for k, q in self.cg.resolve_call(f, c))
            for c in ast.walk(loop))
        # one that sleeps is waiting: the wait itself has to be bounded
        waits = any(isinstance(c, ast.Call) and any(
            q == 'time.sleep' for k, q in self.cg.resolve_call(f, c))
            for c in own_walk(loop))
        self.exits = self.relevant(loop)
        p = Path()
        if isinstance(loop, ast.While):
            if self.truth(f, p, loop.test) is False:
                return
            self.exits.add(id(loop))
            self.note(f, p, loop.test, loop, True)
            self.assume(f, p, loop.test, True)
        else:
            self.assign(f, p, loop.target, V({ENV}))
        r = self.run(f, [p], loop.body)
        ways = self.merge(r['next'] + r['back'])
        self.ways += len(ways)
        for q in ways:
            if q.waited:
                continue
            if isinstance(loop, ast.While):
                t = self.truth(f, self.fresh(q), loop.test)
                if t is False:
                    continue
            move = self.moving(q, waits)
            good = wrong = None
            for _, yes, test, v, named in q.tests:
                hit = (v.deps & move) or (ENV in v.deps and not waits) or \
                    CLOCK in v.deps
                if not hit:
                    continue
                bad = self.away(f, loop, q, test, yes, v, move)
                if bad:
                    wrong = bad
                else:
                    good = test
                    break
            if good is not None:
                continue
            self.report(f, loop, q, wrong)
            break

    @staticmethod
    def fresh(q):
        p = Path()
        p.env = q.env
        return p

    def away(self, f, loop, q, test, yes, v, move):
        """A counter that goes the wrong way, or may go past its mark."""
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, yes = test.operand, not yes
        if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
            return None
        l, r = test.left, test.comparators[0]
        op = type(test.ops[0])
        if not isinstance(l, ast.Name):
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
                    ast.GtE: ast.LtE}
            l, r, op = r, l, flip.get(op, op)
        if not isinstance(l, ast.Name):
            return None
        e = q.env.get(l.id)
        if e is None or not e.form or e.form[0] != 'step' or e.form[1] != l.id:
            return None
        rv = self.val(f, Path(), r)
        if rv.deps & move or {ENV, CLOCK} & rv.deps:
            return None
        k = e.form[2]
        neg = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE,
               ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
        if not yes:
            op = neg.get(op)
        if op in (ast.Lt, ast.LtE):
            return None if k > 0 else '`%s` goes down' % l.id
        if op in (ast.Gt, ast.GtE):
            return None if k < 0 else '`%s` goes up' % l.id
        if op is ast.NotEq:
            a, b = self.start(f, loop, l.id), rv.form
            if a is not None and b and b[0] == 'c':
                try:
                    gap = b[1] - a
                    if gap == 0 or (gap / k > 0 and gap % k == 0):
                        return None
                except TypeError:
                    pass
            return '`%s` may go past `%s`' % (l.id, ast.unparse(r))
        return None

    def start(self, f, loop, name):
        best = None
        for n in own_walk(f.node):
            if isinstance(n, ast.Assign) and n.lineno < loop.lineno and any(
                    isinstance(t, ast.Name) and t.id == name
                    for t in n.targets):
                if best is None or n.lineno > best.lineno:
                    best = n
        node = best.value if best is not None else None
        if node is None and name in f.params:
            node = f.defaults.get(name) if isinstance(f.defaults, dict) else None
            i = f.params.index(name)
            for a in self.cg.rev.get(f.qual, ()):
                for c in self.cg.edges[a][f.qual]:
                    if isinstance(c, ast.Call) and (len(c.args) > i or any(
                            x.arg in (name, None) for x in c.keywords)):
                        return None
        if node is None:
            return None
        try:
            return self.proj.const(f.module, node, f.cls)
        except ValueError:
            return None

    def report(self, f, loop, q, wrong):
        what = ast.unparse(loop.test) if isinstance(loop, ast.While) else \
            ast.unparse(loop.iter)
        taken = ['%s %s at line %d' % (ast.unparse(t)[:60],
                                       'holds' if y else 'does not hold',
                                       t.lineno)
                 for _, y, t, _, _ in q.tests]
        self.ctx.violation(
            '%s/goes-on' % f.qual, f,
            'the loop `%s` can go round again %s' % (
                what[:80],
                'and never end: %s' % wrong if wrong else
                'with nothing changed that a way out of it depends on'),
            loop, taken)


def endless(proj, f, n):
    if isinstance(n, ast.While):
        return True
    if isinstance(n, ast.For) and isinstance(n.iter, ast.Call):
        d = dotted(n.iter.func)
        r = proj.lookup(f.module, d) if d else None
        if r and r[0] == 'ext' and r[1] in ENDLESS:
            return True
        return d == 'iter' and len(n.iter.args) == 2
    return False


def growing(ctx, f, loop):
    """`for x in xs` that adds to xs with no test on the way."""
    d = dotted(loop.iter)
    if not d:
        return

    def look(sts, guarded):
        for s in sts:
            if isinstance(s, ast.If):
                g = guarded or any(
                    isinstance(x, (ast.In, ast.NotIn, ast.Lt, ast.LtE, ast.Gt,
                                   ast.GtE)) for x in ast.walk(s.test))
                yield from look(s.body, g)
                yield from look(s.orelse, g)
                # leaving early guards what comes after
                if any(isinstance(x, (ast.Continue, ast.Break, ast.Return))
                       for b in (s.body, s.orelse) for x in b[-1:]):
                    guarded = g
                continue
            grows = False
            if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and \
                    dotted(s.target) == d:
                grows = True
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                    isinstance(s.value.func, ast.Attribute) and \
                    s.value.func.attr in GROWS and \
                    dotted(s.value.func.value) == d:
                grows = True
            if grows and not guarded:
                yield s
            for b in ('body', 'orelse', 'finalbody'):
                yield from look(getattr(s, b, ()) or (), guarded)
            for h in getattr(s, 'handlers', ()):
                yield from look(h.body, guarded)
    for s in look(loop.body, False):
        ctx.violation('%s/grows' % f.qual, f,
                      'the loop over `%s` adds to it as it goes' % d, s)


def run(ctx):
    lp = Loops(ctx)
    fors = 0
    for q in sorted(ctx.proj.funcs):
        f = ctx.proj.funcs[q]
        if '.test' in q:
            continue
        for n in own_walk(f.node):
            if endless(ctx.proj, f, n):
                ctx.analysed([q])
                try:
                    lp.loop(f, n)
                except TooMany:
                    ctx.note('%s: too many ways round to follow' % q)
            elif isinstance(n, ast.For):
                fors += 1
                growing(ctx, f, n)
    ctx.count('loops that end by a test', lp.loops, 5)
    ctx.count('ways round them', lp.ways, 8)
    ctx.count('loops over what is given', fors, 60)
    ctx.obligation('every way round a loop moves something one of its ways '
                   'out depends on')
    ctx.obligation('counters go towards the bound they are tested against and '
                   'cannot step past a bound tested by equality')
    ctx.obligation('a stream that has ended ends the loop that reads it')
    ctx.obligation('no list is added to without a test while it is gone through')


RULE = Rule('C13', run, __doc__)
