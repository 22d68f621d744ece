"""Abstract interpreter over the syntax trees of the analysed package.

Property simulation in the style of ESP: an abstract state is
(rule state, environment, heap, branch facts); states with the same rule state
are joined, states with different rule states are kept apart.  Values are sets
of origin terms (where a value came from), never run-time values.  Calls to
project functions are interpreted in place (up to a depth, no recursion), so a
helper extracted from, or folded into, a function changes nothing.  Exceptions
are first-class: every statement that may raise contributes an exceptional exit
with the state at that point.
"""
import ast
import operator
import builtins

from .project import dotted, AnalysisBroken, BUILTIN_METHODS, own_walk

MAX_TERMS = 14
MAX_DEPTH = 7
TOPT = ('top',)
TOP = frozenset([TOPT])
NONE = frozenset([('c', 'NoneType', None)])


def const(v):
    return frozenset([('c', type(v).__name__, v)])


def val(*terms):
    return frozenset(terms)


def tdepth(t, limit=MAX_DEPTH):
    if limit < 0:
        return 99
    if isinstance(t, (tuple, frozenset)):
        d = 0
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                d = max(d, tdepth(x, limit - 1))
        return d + 1
    return 0


def cap(t):
    return t if tdepth(t) <= MAX_DEPTH else shrink(t, MAX_DEPTH)


def shrink(t, limit):
    """A term too deep to keep.  Where it was made tells a call apart, so its
    arguments can go."""
    if t[0] == 'a':
        b = t[1] if tdepth(t[1]) < limit else shrink(t[1], limit - 1)
        return TOPT if b == TOPT else ('a', b, t[2])
    if t[0] == 'r' and t[-1] and limit > 2:
        room = limit - 3
        cut = [TOP if any(tdepth(u) > room for u in a) else a
               for a in (t[2],) + t[3]]
        return ('r', t[1], cut[0], tuple(cut[1:]), t[4])
    return TOPT


def join_val(a, b):
    if a == b:
        return a
    r = a | b
    if len(r) > MAX_TERMS or TOPT in r:
        return TOP
    return r


def mentions(t, x):
    if t == x:
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(mentions(y, x) for y in t if isinstance(y, (tuple, frozenset)))
    return False


def mentions_kind(t, kinds):
    if isinstance(t, tuple) and t and t[0] in kinds:
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(mentions_kind(y, kinds) for y in t
                   if isinstance(y, (tuple, frozenset)))
    return False


def consts_of(v):
    """The Python constants of a Val, or None if any term is not constant."""
    out = []
    for t in v:
        if t[0] != 'c':
            return None
        out.append(t[2])
    return out


class State(object):
    __slots__ = ('env', 'heap', 'facts', 'rs')

    def __init__(self, env=None, heap=None, facts=None, rs=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.rs = rs

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.facts), self.rs)

    def with_rs(self, rs):
        s = self.copy()
        s.rs = rs
        return s

    def same(self, o):
        return (self.rs == o.rs and self.env == o.env and self.heap == o.heap
                and self.facts == o.facts)


def join_state(a, b):
    env = dict(a.env)
    for k, v in b.env.items():
        env[k] = join_val(env[k], v) if k in env else unassigned(k, v)
    for k in a.env:
        if k not in b.env:
            env[k] = unassigned(k, a.env[k])
    heap = {}
    for k in set(a.heap) | set(b.heap):
        va, vb = a.heap.get(k), b.heap.get(k)
        if va is None:
            va = default_field(k)
        if vb is None:
            vb = default_field(k)
        if va is None or vb is None:
            if k[1] == '$lit':
                continue
            heap[k] = va if vb is None else vb
            if isinstance(k[1], tuple) and k[1][0] == 'k':
                heap[k] = heap[k] | frozenset([('maybe',)])
            continue
        if k[1] == '$lit':
            if va == vb:
                heap[k] = va
            continue
        heap[k] = join_val(va, vb)
    facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v
             and k in b.facts}
    return State(env, heap, facts, a.rs)


def age(st, t, vals):
    """The list made here before, still in use, is another one."""
    old = (t[0], t[1] + ('old',))

    def rename(x):
        if x == t:
            return old
        if isinstance(x, tuple):
            return tuple(rename(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(rename(y) for y in x)
        return x

    heap = {}
    for k, v in st.heap.items():
        k = rename(k)
        v = rename(v)
        if k in heap or k in st.heap and k[0] == old:
            was = heap.get(k, st.heap.get(k))
            if k[1] == '$lit':
                continue
            v = v | was
        heap[k] = v
    return State({k: rename(v) for k, v in st.env.items()}, heap,
                 {rename(k): v for k, v in st.facts.items()},
                 rename(st.rs)), rename(vals)


def unassigned(k, v):
    """A name that was only assigned on one of two ways here."""
    if k[0].startswith('mod:'):
        return join_val(v, frozenset([('gvar', k[0][4:], k[1])]))
    return v


def default_field(k):
    base, field = k
    if isinstance(field, str) and not field.startswith('$'):
        return frozenset([cap(('a', base, field))])
    return None


def merge(states):
    out = {}
    for s in states:
        if s.rs in out:
            o = out[s.rs]
            if o is not s and not o.same(s):
                out[s.rs] = join_state(o, s)
        else:
            out[s.rs] = s
    return list(out.values())


def merge_pairs(pairs):
    """[(State, Val)] joined by rule state."""
    out = {}
    for s, v in pairs:
        if s.rs in out:
            o, ov = out[s.rs]
            out[s.rs] = (o if o is s or o.same(s) else join_state(o, s),
                         join_val(ov, v))
        else:
            out[s.rs] = (s, v)
    return list(out.values())


class Flow(object):
    __slots__ = ('norm', 'brk', 'cont', 'ret')

    def __init__(self, norm=()):
        self.norm = list(norm)
        self.brk, self.cont, self.ret = [], [], []

    def absorb(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret


class CallInfo(object):
    __slots__ = ('node', 'func', 'name', 'recv', 'args', 'kw', 'targets', 'term',
                 'star')

    def arg(self, i, name=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if name is not None and name in self.kw:
            return self.kw[name]
        return default


class Client(object):
    """A rule.  Override what it needs."""
    max_inline = 9
    exact_exc = False        # a raised class is that class, not a subclass
    small = 14               # inline any project function this short

    def setup(self, it):
        pass

    def is_event_func(self, f):
        """Syntactic: does this function itself contain a rule-relevant event."""
        return False

    def never_inline(self, f):
        return False

    def on_call(self, it, st, ci):
        return None

    def after_call(self, it, st, ci, result):
        """Sees every call's outcome pair; may return a replacement pair."""
        return None

    def on_enter(self, it, st, f, node):
        return st

    def on_leave(self, it, st, f, value):
        return st

    def attr_store(self, it, st, recv, attr, value, node):
        return st

    def attr_del(self, it, st, recv, attr, node):
        return st

    def item_store(self, it, st, recv, key, value, node):
        return st

    def item_del(self, it, st, recv, key, node):
        return st

    def falsy(self, v):
        """What is known of a value that is not true."""
        return v

    def failed(self, it, st, test):
        """The test did not hold."""
        return st

    none_is_none = False    # what is compared with None and is it, becomes it

    def attr_load(self, it, st, recv, attr, node):
        return None

    def item_load(self, it, st, recv, key, node):
        return None

    def name_load(self, it, st, name, node):
        return None

    def with_enter(self, it, st, ctx, node):
        return None

    def with_exit(self, it, st, ctx, node, exc):
        return st

    def exceptions(self, it, st, ci):
        """Exception types an un-inlined call may raise."""
        return ('*',)

    def call_result(self, it, st, ci):
        return None

    def branch(self, it, st, test, truth):
        return st

    def yield_point(self, it, st, node, value):
        return None

    def lookup_exc(self, it, st, recv, key, node):
        """What `recv[key]` may raise; None: nothing worth following."""
        return 'LookupError'

    def list_made(self, it, st, term, values):
        return st

    def binop_result(self, it, st, left, right):
        return None

    def joined(self, it, st, vs, node):
        """(State, value) of a text filled with these."""
        return None

    def augmented(self, it, st, target, value, node):
        """`target op= value` is about to happen."""
        return st

    def growing(self, it, st, coll, value):
        """`value` is about to be added to `coll`."""
        return st

    def loop_test(self, it, st, node):
        """The test of a `while` is about to be evaluated."""
        return st

    def loop_iter(self, it, st, node, first):
        """The body of a `while` is about to be entered."""
        return st

    def tested(self, it, st, item, coll, result):
        """`item in coll` was seen to be `result`."""
        return st

    def loop_exit(self, it, st, node):
        return st

    def contains(self, it, st, item, coll):
        """Whether `item in coll`, where the rule knows."""
        return None

    def after_for(self, it, st, node):
        """The loop ran to its end, after any number of iterations."""
        return st

    aging = False       # lists made in one place, one after another
    comp_loops = False      # follow comprehensions as the loops they are

    def literal(self, it, st, v):
        """The elements of a collection, in order, when all are known."""
        return None

    def elements(self, it, st, coll, node):
        """[(State, element)] of the next round, where the rule knows."""
        return None

    def loop_end(self, it, st, coll, node):
        """The loop over `coll` ran to its end; None: it can not have."""
        return st

    def truth(self, it, st, term):
        """Whether a term is true, where the rule knows."""
        return None

    def new_list(self, it, st, term):
        return st


# External calls that do not raise for the arguments this package passes.
NORAISE = {
    'isinstance', 'len', 'type', 'id', 'repr', 'str', 'bool', 'list', 'dict',
    'tuple', 'set', 'enumerate', 'zip', 'reversed', 'range', 'callable',
    'hasattr', 'print', 'super', 'object', 'frozenset', 'max', 'min', 'sorted',
    'partial', 'functools.partial', 'time.time', 'time.sleep', 'os.getpid',
    'threading.Lock', 'collections.OrderedDict', 'OrderedDict', 'locals',
    'globals', 'iter', 'gc.disable', 'gc.enable', 'os.environ.get',
    'os.environ.copy', 'os.path.join', 'os.path.isfile', 'os.path.exists',
    'os.path.isdir', 'os.path.dirname', 'os.path.basename', 'os.path.splitext',
    'os.path.normpath', 'sys.exc_info', 'traceback.format_exc', 'getattr3',
    'uuid.uuid4', 'vars', 'dir', 'any', 'all', 'map', 'filter', 'hash', 'abs',
    'copy.copy', 'callable', 'issubclass', 'format', 'ascii', 'itertools.chain', 'sys.stdout.flush', 'round', 'os.getenv',
    'os.getcwd', 'os.path.abspath', 'math.ceil', 'datetime.datetime.now',
}
NORAISE_METHODS = {
    'append', 'extend', 'add', 'get', 'items', 'keys', 'values', 'setdefault',
    'discard', 'copy', 'clear', 'startswith', 'endswith', 'strip', 'lstrip',
    'rstrip', 'split', 'rsplit', 'replace', 'lower', 'upper', 'join',
    'partition', 'rpartition', 'update', 'info', 'debug', 'warning', 'error',
    'exception', 'critical', 'log', 'setLevel', 'union', 'intersection',
    'difference', 'issubset', 'sort', 'reverse', 'splitlines', 'title',
    'capitalize', 'count', 'insert', 'format', 'find', 'rfind', 'isdigit',
    'getEffectiveLevel', 'isEnabledFor',
    # the project's own log levels
    'execinfo', 'grapherror', 'compinfo', 'compdebug', 'socket', 'deprecated',
    'startexec', 'stopexec', 'eventinfo', 'nxtlog',
}
MUTATORS = {'append', 'extend', 'add', 'pop', 'remove', 'update', 'clear',
            'insert', 'setdefault', 'discard', 'popitem', 'sort', 'reverse',
            'appendleft', 'popleft'}

EXC_FALLBACK = {'IOError': 'OSError', 'EnvironmentError': 'OSError',
                'socket.error': 'OSError', 'WindowsError': 'OSError',
                'select.error': 'OSError', 'json.JSONDecodeError': 'ValueError',
                'subprocess.CalledProcessError': 'Exception'}


class Interp(object):
    def __init__(self, proj, client, cg=None, hints=None, budget=400000):
        self.proj = proj
        self.client = client
        self.cg = cg
        self.hints = hints or {}
        self.excs = [[]]          # stack of exception collectors
        self.stack = []           # [(Func, call node)]
        self.yields = []          # contextmanager continuations
        self.cur_exc = []
        self.budget = budget
        self.unsettled = set()    # loops given up on
        self.steps = 0
        self.inlined = set()
        self.seen_calls = set()
        self.reports = {}
        self.interesting = None
        self.clo_env = {}
        self.stmt = None
        self._small = {}
        client.setup(self)
        if cg is not None:
            seeds = [f.qual for f in proj.funcs.values()
                     if client.is_event_func(f)]
            self.interesting = cg.callers_closure(seeds)

    # --------------------------------------------------------------- report
    def report(self, key, msg, node=None):
        f = self.stack[-1][0] if self.stack else None
        chain = []
        for fn, n in self.stack:
            chain.append('%s:%s' % (fn.module.rel, fn.name))
        loc = ''
        if f is not None:
            line = getattr(node, 'lineno', f.node.lineno)
            loc = '%s:%d' % (f.module.rel, line)
        self.reports.setdefault(key, {'key': key, 'message': msg, 'at': loc,
                                      'path': chain})

    # ------------------------------------------------------------ exceptions
    def raise_(self, st, exc):
        self.excs[-1].append((exc, st))

    def exc_of(self, v):
        out = set()
        for t in v:
            if t[0] == 'o':
                out.add(t[1].split('.')[-1])
            elif t[0] == 'cls':
                out.add(t[1].split('.')[-1])
            elif t[0] == 'exc':
                out.add(t[1])
            elif t[0] == 'ext':
                out.add(t[1].split('.')[-1])
            elif t[0] == 'r' and isinstance(t[1], str):
                nm = t[1].split('.')[-1]
                out.add(nm if self.is_exc_name(nm) else '*')
            else:
                out.add('*')
        return out or {'*'}

    def is_exc_name(self, n):
        b = getattr(builtins, n, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return True
        return any(self.exc_mro(c.name) for c in self.proj.cls_by_name.get(n, ()))

    def exc_mro(self, name, _n=0):
        """Names of all base exception classes (with itself), or []."""
        name = name.split('.')[-1]
        name = {'IOError': 'OSError', 'EnvironmentError': 'OSError',
                'WindowsError': 'OSError'}.get(name, name)
        if name == 'error' or name == 'timeout':
            name = 'OSError'
        if name in ('JSONDecodeError',):
            return ['JSONDecodeError', 'ValueError', 'Exception', 'BaseException']
        if name in ('CalledProcessError',):
            return [name, 'Exception', 'BaseException']
        b = getattr(builtins, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return [c.__name__ for c in b.__mro__ if c is not object]
        for c in self.proj.cls_by_name.get(name, ()):
            out = [name]
            for base in c.bases:
                bn = base[4:] if base.startswith('ext:') else base
                if _n < 8:
                    out += self.exc_mro(bn.split('.')[-1], _n + 1)
            if 'BaseException' in out:
                return out
        return []

    def handler_types(self, h, st):
        """Class names a handler names; None for a bare except."""
        if h.type is None:
            return None
        m = self.stack[-1][0].module if self.stack else None
        if isinstance(h.type, ast.Name) and self.stack:
            names, todo = [], list(st.env.get(self.key(h.type.id), ()))
            while todo:
                t = todo.pop()
                if t[0] == 'T':
                    todo += [y for e in t[1] for y in e]
                elif t[0] in ('cls', 'ext'):
                    names.append(t[1].split('.')[-1])
                else:
                    names = []
                    break
            if names:
                return sorted(names)
        return self.type_names(h.type, m)

    def type_names(self, n, m, depth=0):
        out = []
        for e in n.elts if isinstance(n, (ast.Tuple, ast.List)) else [n]:
            d = dotted(e)
            r = None
            if d:
                if m is not None:
                    r = self.proj.lookup(m, d)
                    if r and r[0] == 'gvar' and depth < 4:
                        g = self.proj.modules.get(r[1])
                        vs = g.assigns.get(r[2], []) if g else []
                        if vs and all(isinstance(v, (ast.Tuple, ast.Name,
                                                     ast.Attribute))
                                      for v in vs):
                            for v in vs:
                                out += self.type_names(v, g, depth + 1)
                            continue
                    if r and r[0] == 'gvar':
                        r = None
                if r and r[0] in ('cls', 'ext'):
                    out.append(r[1].split('.')[-1])
                    continue
                out.append(d.split('.')[-1])
            else:
                out.append('?')
        return out

    def exc_match(self, exc, types):
        """'yes' | 'maybe' | 'no'"""
        if types is None:
            return 'yes'
        best = 'no'
        for t in types:
            tm = self.exc_mro(t)
            if t in ('BaseException',):
                return 'yes'
            if exc == '*':
                # an unknown Exception
                if t == 'Exception':
                    return 'yes'
                if 'Exception' in tm or not tm:
                    best = 'maybe'
                continue
            em = self.exc_mro(exc)
            canon = tm[0] if tm else t
            if canon in em:
                return 'yes'
            if not em or not tm:
                best = 'maybe'
            elif em[0] in tm and not self.client.exact_exc:
                best = 'maybe'     # raised as a base class: may be the subclass
        return best

    # ------------------------------------------------------------ entry point
    def run(self, f, st=None, bind=None):
        """Interpret `f` with symbolic parameters.
        -> (returns [(State, Val)], raises [(exc, State)])"""
        st = st or State(rs=None)
        st = st.copy()
        argv = {}
        for i, p in enumerate(f.params):
            if bind and p in bind:
                argv[p] = bind[p]
            elif i == 0 and f.kind in ('method', 'setter') and f.cls is not None:
                argv[p] = val(('self', f.cls.qual))
            elif i == 0 and f.kind == 'classmethod':
                argv[p] = val(('cls', f.cls.qual))
            else:
                argv[p] = val(('p', p))
        for p in f.kwonly:
            argv[p] = (bind or {}).get(p, val(('p', p)))
        if f.vararg:
            argv[f.vararg] = val(('p', '*' + f.vararg))
        if f.kwarg:
            argv[f.kwarg] = val(('p', '**' + f.kwarg))
        self.excs.append([])
        pairs = self.exec_func(f, st, argv, f.node)
        raised = self.excs.pop()
        return pairs, self.merge_exc(raised)

    def merge_exc(self, excs):
        out = {}
        for e, s in excs:
            k = (e, s.rs)
            if k in out:
                if not out[k].same(s):
                    out[k] = join_state(out[k], s)
            else:
                out[k] = s
        return [(k[0], s) for k, s in out.items()]

    def exec_func(self, f, st, argv, node):
        self.stack.append((f, node))
        self.inlined.add(f.qual)
        try:
            st = st.copy()
            for k in [k for k in st.env if k[0] == f.qual]:
                del st.env[k]
            for p, v in argv.items():
                st.env[(f.qual, p)] = v
            st = self.client.on_enter(self, st, f, node)
            base = len(self.excs[-1])
            flow = self.exec_block(f.node.body, [st])
            out = list(flow.ret)
            for s in flow.norm:
                out.append((s, NONE))
            out = merge_pairs(out)
            res = []
            keep = bool(f.nested) or f.parent is not None
            for s, v in out:
                if not keep:
                    s = s.copy()
                    for k in [k for k in s.env if k[0] == f.qual]:
                        del s.env[k]
                s = self.client.on_leave(self, s, f, v)
                res.append((s, v))
            mine = self.merge_exc(self.excs[-1][base:])
            if not keep:
                clean = []
                for e, s in mine:
                    s = s.copy()
                    for k in [k for k in s.env if k[0] == f.qual]:
                        del s.env[k]
                    clean.append((e, s))
                mine = clean
            self.excs[-1][base:] = self.merge_exc(mine)
            return merge_pairs(res)
        finally:
            self.stack.pop()

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, states):
        flow = Flow(states)
        for s in stmts:
            if not flow.norm:
                break
            nxt = []
            for st in merge(flow.norm):
                fl = self.exec_stmt(s, st)
                flow.absorb(fl)
                nxt += fl.norm
            flow.norm = merge(nxt)
        return flow

    def exec_stmt(self, s, st):
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisBroken('analysis budget exceeded in %s'
                                 % (self.stack[-1][0].qual if self.stack else '?'))
        self.stmt = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken('unsupported statement %s at %s:%s'
                                 % (type(s).__name__, self.stack[-1][0].qual,
                                    s.lineno))
        return m(s, st)

    def s_Expr(self, s, st):
        return Flow([x for x, _ in self.ev(s.value, st)])

    def s_Pass(self, s, st):
        return Flow([st])

    s_Nonlocal = s_Pass
    s_Global = s_Pass

    def s_ClassDef(self, s, st):
        st = st.copy()
        self.bind_name(st, s.name, val(('localcls', s.name)))
        return Flow([st])

    def s_FunctionDef(self, s, st):
        f = self.proj.node_func.get(id(s))
        st = st.copy()
        self.bind_name(st, s.name, val(('fn', f.qual)))
        return Flow([st])

    def s_Import(self, s, st):
        st = st.copy()
        f = self.stack[-1][0]
        for nm, b in self.proj.import_bindings(f.module, s):
            v = b
            if b[0] == 'from':
                v = self.proj.lookup_name(self.proj.modules[b[1]], b[2]) or \
                    ('ext', b[1] + '.' + b[2])
            self.bind_name(st, nm, val(v))
        return Flow([st])

    s_ImportFrom = s_Import

    def s_Return(self, s, st):
        fl = Flow()
        if s.value is None:
            fl.ret = [(st, NONE)]
        else:
            fl.ret = self.ev(s.value, st)
        return fl

    def s_Break(self, s, st):
        fl = Flow()
        fl.brk = [st]
        return fl

    def s_Continue(self, s, st):
        fl = Flow()
        fl.cont = [st]
        return fl

    def s_Raise(self, s, st):
        if s.exc is None:
            cur = self.cur_exc[-1] if self.cur_exc else '*'
            self.raise_(st, cur)
            return Flow()
        for x, v in self.ev(s.exc, st):
            for e in self.exc_of(v):
                self.raise_(x, e)
        return Flow()

    def s_Assert(self, s, st):
        t, f = self.cond(s.test, st)
        for x in f:
            self.raise_(x, 'AssertionError')
        return Flow(t)

    def s_Assign(self, s, st):
        out = []
        for x, v in self.ev(s.value, st):
            xs = [x]
            for t in s.targets:
                nx = []
                for y in xs:
                    nx += self.assign(t, v, y, s)
                xs = nx
            out += xs
        return Flow(merge(out))

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return Flow([st])
        out = []
        for x, v in self.ev(s.value, st):
            out += self.assign(s.target, v, x, s)
        return Flow(merge(out))

    def s_AugAssign(self, s, st):
        out = []
        load = ast.copy_location(_as_load(s.target), s.target)
        for x, cur in self.ev(load, st):
            for y, v in self.ev(s.value, x):
                y = self.client.augmented(self, y, cur, v, s)
                if isinstance(s.op, ast.Add) and self.is_container(cur):
                    y = self.add_elems(y, cur, self.elems(y, v))
                    y2 = self.client.on_call(self, y, self.mk_ci(
                        s, '+=', cur, [v]))
                    if y2 is not None:
                        for z, _ in y2:
                            out += self.assign(s.target, cur, z, s)
                        continue
                    out += self.assign(s.target, cur, y, s)
                    continue
                if isinstance(s.op, ast.Add) and consts_of(cur) is None and \
                        v and all(t[0] == 'L' for t in v):
                    # a list that grows in place
                    y = self.add_elems(y, cur, self.elems(y, v))
                    out += self.assign(s.target, cur, y, s)
                    continue
                nv = self.binop(s.op, cur, v)
                out += self.assign(s.target, nv, y, s)
        return Flow(merge(out))

    def mk_ci(self, node, name, recv, args, kw=None):
        ci = CallInfo()
        ci.node, ci.name, ci.recv, ci.args = node, name, recv, args
        ci.kw, ci.targets, ci.term = kw or {}, [], None
        ci.func = self.stack[-1][0] if self.stack else None
        ci.star = False
        return ci

    def s_Delete(self, s, st):
        xs = [st]
        for t in s.targets:
            nx = []
            for x in xs:
                if isinstance(t, ast.Name):
                    x = x.copy()
                    x.env.pop(self.key(t.id), None)
                    nx.append(x)
                elif isinstance(t, ast.Attribute):
                    for y, r in self.ev(t.value, x):
                        y = self.client.attr_del(self, y, r, t.attr, t)
                        for b in r:
                            y = y.copy()
                            y.heap[(b, t.attr)] = val(('deleted',))
                        nx.append(y)
                elif isinstance(t, ast.Subscript):
                    for y, r in self.ev(t.value, x):
                        for z, k in self.ev_slice(t.slice, y):
                            le = self.client.lookup_exc(self, z, r, k, t)
                            if le:
                                self.raise_(z, le)
                            z = self.mutated(z, r)
                            for b in r:
                                for kk in k:
                                    z.heap.pop((b, ('k', kk)), None)
                            z = self.client.item_del(self, z, r, k, t)
                            nx.append(z)
                else:
                    nx.append(x)
            xs = nx
        return Flow(merge(xs))

    def s_If(self, s, st):
        t, f = self.cond(s.test, st)
        # a rule may refute a branch by answering None
        t = [y for y in (self.client.branch(self, x, s.test, True)
                         for x in t) if y is not None]
        f = [y for y in (self.client.branch(self, x, s.test, False)
                         for x in f) if y is not None]
        fl = Flow()
        if t:
            a = self.exec_block(s.body, t)
            fl.absorb(a)
            fl.norm += a.norm
        if f:
            b = self.exec_block(s.orelse, f)
            fl.absorb(b)
            fl.norm += b.norm
        fl.norm = merge(fl.norm)
        return fl

    def s_While(self, s, st):
        fl = Flow()
        head = [st]
        exits = []
        outer = ([], [])
        seen = {}       # what each state led to, to do none twice
        for n in range(60):
            nxt, ex = [], []
            for h0 in head:
                was = seen.get(h0.rs)
                if n > 1 and was is not None and (was[0] is h0 or
                                                  was[0].same(h0)):
                    ex += was[1]
                    nxt += was[2]
                    continue
                h = self.client.loop_test(self, h0, s)
                t, f = self.cond(s.test, h)
                ex += f
                t = [self.client.loop_iter(self, x, s, n == 0) for x in t]
                b = self.exec_block(s.body, t)
                fl.brk += b.brk
                fl.ret += b.ret
                nxt += b.norm + b.cont
                seen[h0.rs] = (h0, f, b.norm + b.cont)
            exits = ex
            new = merge(head + self.drop_stale(nxt))
            if _same_states(new, head):
                break
            head = new
        else:
            self.unsettled.add((self.stack[-1][0].qual, s.lineno))
        exits = merge([self.client.loop_exit(self, x, s) for x in exits])
        fl.brk = [self.client.loop_exit(self, x, s) for x in fl.brk]
        if s.orelse and exits:
            o = self.exec_block(s.orelse, exits)
            fl.ret += o.ret
            outer = (o.brk, o.cont)
            exits = o.norm
        fl.norm = merge(exits + fl.brk)
        fl.brk, fl.cont = outer
        fl.ret = merge_pairs(fl.ret)
        return fl

    def drop_stale(self, states):
        return states

    def s_For(self, s, st):
        fl = Flow()
        out = []
        for x, itv in self.ev(s.iter, st):
            lit = self.literal_elems(x, itv)
            if lit is not None and len(lit) <= 40:
                cur, done = [x], []
                for e in lit:
                    nx = []
                    for c in cur:
                        for y in self.assign(s.target, e, c, s):
                            b = self.exec_block(s.body, [y])
                            fl.ret += b.ret
                            done += b.brk
                            nx += b.norm + b.cont
                    cur = merge(nx)
                if s.orelse and cur:
                    o = self.exec_block(s.orelse, cur)
                    fl.ret += o.ret
                    fl.brk += o.brk
                    fl.cont += o.cont
                    cur = o.norm
                out += cur + done
                continue
            el = self.elems(x, itv)
            head, done = [x], []
            seen = {}
            for n in range(60):
                nxt = []
                for h0 in head:
                    was = seen.get(h0.rs)
                    if was is not None and (was is h0 or was.same(h0)):
                        continue
                    seen[h0.rs] = h0
                    opts = self.client.elements(self, h0, itv, s)
                    for h, e in [(h0, el)] if opts is None else opts:
                        h = self.forget(h, e)
                        for y in self.assign(s.target, e, h, s):
                            b = self.exec_block(s.body, [y])
                            fl.ret += b.ret
                            done += b.brk
                            nxt += b.norm + b.cont
                new = merge(head + nxt)
                if _same_states(new, head):
                    break
                head = new
            else:
                self.unsettled.add((self.stack[-1][0].qual, s.lineno))
            ex = [self.client.loop_end(self, h, itv, s) for h in head]
            ex = merge([self.client.after_for(self, h, s) for h in ex
                        if h is not None])
            if s.orelse and ex:
                o = self.exec_block(s.orelse, ex)
                fl.ret += o.ret
                fl.brk += o.brk
                fl.cont += o.cont
                ex = o.norm
            out += ex + done
        fl.norm = merge(out)
        fl.ret = merge_pairs(fl.ret)
        return fl

    s_AsyncFor = s_For

    def forget(self, st, v):
        """Drop facts about per-iteration terms that are being rebound."""
        if not st.facts:
            return st
        s = st.copy()
        s.facts = {k: b for k, b in s.facts.items()
                   if not any(t[0] != 'c' and mentions(k, t) for t in v)}
        return s

    def s_With(self, s, st):
        return self._with(s.items, s.body, st, s)

    s_AsyncWith = s_With

    def _with(self, items, body, st, s):
        if not items:
            return self.exec_block(body, [st])
        it, rest = items[0], items[1:]
        fl = Flow()
        # a project context-manager generator: interpret it around the body
        if isinstance(it.context_expr, ast.Call):
            if self.suppresses(it.context_expr, st):
                return self.s_Try(self.suppressed(it, rest, body, s), st)
            res = self.ctxmgr_call(it, rest, body, st, s)
            if res is not None:
                return res
        for x, cv in self.ev(it.context_expr, st):
            entered = self.client.with_enter(self, x, cv, it.context_expr)
            bound = cv
            if entered is not None:
                x, bound = entered
            else:
                m = self.class_method(cv, '__enter__')
                if m is not None:
                    rs = self.invoke(m, x, cv, [], {}, it.context_expr)
                    pairs = rs
                    for x2, b2 in pairs:
                        fl2 = self._with_body(it, rest, body, x2, b2, cv, s)
                        fl.absorb(fl2)
                        fl.norm += fl2.norm
                    continue
            fl2 = self._with_body(it, rest, body, x, bound, cv, s)
            fl.absorb(fl2)
            fl.norm += fl2.norm
        fl.norm = merge(fl.norm)
        return fl

    def suppresses(self, call, st):
        d = dotted(call.func)
        r = self.proj.lookup(self.stack[-1][0].module, d) if d else None
        return bool(r) and r[0] == 'ext' and r[1] == 'contextlib.suppress'

    def suppressed(self, it, rest, body, s):
        """`with suppress(X): body` is `try: body except X: pass`."""
        call = it.context_expr
        if not hasattr(it, '_try'):
            if rest:
                body = [ast.copy_location(ast.With(rest, body, None), s)]
            h = ast.ExceptHandler(ast.copy_location(
                ast.Tuple(list(call.args), ast.Load()), call), None,
                [ast.copy_location(ast.Pass(), call)])
            it._try = ast.copy_location(
                ast.Try(body, [ast.copy_location(h, call)], [], []), s)
        return it._try

    def _with_body(self, it, rest, body, x, bound, cv, s):
        xs = [x]
        if it.optional_vars is not None:
            xs = self.assign(it.optional_vars, bound, x, s)
        self.excs.append([])
        fl = Flow()
        for y in xs:
            f2 = self._with(rest, body, y, s)
            fl.absorb(f2)
            fl.norm += f2.norm
        raised = self.merge_exc(self.excs.pop())

        def leave(z, exc):
            m = self.class_method(cv, '__exit__')
            if m is not None:
                given = [NONE] * 3 if exc is None else \
                    [val(('exctype', exc)), val(('exc', exc)), TOP]
                rs = self.invoke(m, z, cv, given, {}, it.context_expr)
                if exc is None:
                    return [p for p, _ in rs]
                kept = []
                for p, v in rs:
                    ts = {self.truth(t) for t in v}
                    if ts != {False}:       # swallows it
                        out.norm.append(p)
                    if ts != {True}:
                        kept.append(p)
                return kept
            return [self.client.with_exit(self, z, cv, it.context_expr, exc)]
        out = Flow()
        for z in merge(fl.norm):
            out.norm += leave(z, None)
        for z in merge(fl.brk):
            out.brk += leave(z, None)
        for z in merge(fl.cont):
            out.cont += leave(z, None)
        for z, v in merge_pairs(fl.ret):
            for w in leave(z, None):
                out.ret.append((w, v))
        for e, z in raised:
            for w in leave(z, e):
                self.raise_(w, e)
        return out

    def ctxmgr_call(self, it, rest, body, st, s):
        call = it.context_expr
        pairs = self.ev_callee(call, st)
        if len(pairs) != 1:
            return None
        x, fv, recv, name = pairs[0]
        targets = self.targets(x, fv, recv, name)
        if len(targets) != 1 or not targets[0].ctxmgr:
            return None
        f = targets[0]
        if any(fr[0] is f for fr in self.stack):
            return None
        out = Flow()
        for y, args, kw, star in self.ev_args(call, x):
            argv = self.bind_args(f, recv, args, kw, y)

            depth = len(self.stack)

            def body_cont(z, yv, it=it, rest=rest, body=body, s=s):
                """Run the with-body in the caller's frame."""
                saved = self.stack[depth:]
                del self.stack[depth:]
                ys, self.yields = self.yields, []
                try:
                    zs = [z]
                    if it.optional_vars is not None:
                        zs = self.assign(it.optional_vars, yv, z, s)
                    fl = Flow()
                    for w in zs:
                        f2 = self._with(rest, body, w, s)
                        fl.absorb(f2)
                        fl.norm += f2.norm
                    return fl
                finally:
                    self.stack.extend(saved)
                    self.yields = ys
            # non-normal completions of the body travel through the generator
            # as if it had completed, tagged so they can be told apart after it.
            pending = []
            self.yields.append((f, body_cont, pending))
            try:
                tag_rs = []
                res = self._run_ctx(f, y, argv, call, pending)
            finally:
                self.yields.pop()
            out.norm += res.norm
            out.absorb(res)
        out.norm = merge(out.norm)
        return out

    def _run_ctx(self, f, st, argv, call, pending):
        """Interpret a context-manager generator; the with-body's kind of
        completion is carried in the environment under '$ctx'."""
        pairs = self.exec_func(f, st, argv, call)
        out = Flow()
        for s, v in pairs:
            kinds = s.env.pop(('$ctx', f.qual), None) if False else \
                s.env.get(('$ctx', f.qual))
            kinds = kinds or frozenset([('norm', NONE)])
            s = s.copy()
            s.env.pop(('$ctx', f.qual), None)
            for k in kinds:
                if k[0] == 'norm':
                    out.norm.append(s)
                elif k[0] == 'brk':
                    out.brk.append(s)
                elif k[0] == 'cont':
                    out.cont.append(s)
                elif k[0] == 'ret':
                    out.ret.append((s, k[1]))
        return out

    def e_Yield(self, n, st):
        pairs = self.ev(n.value, st) if n.value is not None else [(st, NONE)]
        f = self.stack[-1][0]
        for i in range(len(self.yields) - 1, -1, -1):
            if self.yields[i][0] is f:
                out = []
                for x, v in pairs:
                    fl = self.yields[i][1](x, v)
                    for kind, lst in (('norm', fl.norm), ('brk', fl.brk),
                                      ('cont', fl.cont)):
                        for z in merge(lst):
                            z = z.copy()
                            z.env[('$ctx', f.qual)] = frozenset([(kind, NONE)])
                            out.append((z, NONE))
                    for z, rv in merge_pairs(fl.ret):
                        z = z.copy()
                        z.env[('$ctx', f.qual)] = frozenset([('ret', rv)])
                        out.append((z, NONE))
                return out
        out = []
        for x, v in pairs:
            self.client.yield_point(self, x, n, v)
            out.append((x, NONE))
        return out

    def e_YieldFrom(self, n, st):
        return [(x, TOP) for x, _ in self.ev(n.value, st)]

    def e_Await(self, n, st):
        return self.ev(n.value, st)

    def s_Try(self, s, st):
        self.excs.append([])
        body = self.exec_block(s.body, [st])
        raised = self.merge_exc(self.excs.pop())
        # everything below may raise past us: collect it when there is a finally
        self.excs.append([])
        fl = Flow()
        fl.absorb(body)
        if s.orelse and body.norm:
            o = self.exec_block(s.orelse, merge(body.norm))
            fl.absorb(o)
            fl.norm += o.norm
        else:
            fl.norm += body.norm
        for e, x in raised:
            live = True
            for h in s.handlers:
                types = self.handler_types(h, x)
                m = self.exc_match(e, types)
                if m == 'no':
                    continue
                got = e
                if e == '*' and types and len(types) == 1 and m == 'maybe':
                    got = types[0]
                y = x
                if h.name:
                    y = x.copy()
                    self.bind_name(y, h.name, val(('exc', got)))
                self.cur_exc.append(got)
                hf = self.exec_block(h.body, [y])
                self.cur_exc.pop()
                fl.absorb(hf)
                fl.norm += hf.norm
                if m == 'yes':
                    live = False
                    break
            if live:
                self.raise_(x, e)
        escaped = self.merge_exc(self.excs.pop())
        if not s.finalbody:
            self.excs[-1].extend(escaped)
            fl.norm = merge(fl.norm)
            return fl
        out = Flow()

        def fin(x):
            r = self.exec_block(s.finalbody, [x])
            out.ret += r.ret
            out.brk += r.brk
            out.cont += r.cont
            return r.norm
        for x in merge(fl.norm):
            out.norm += fin(x)
        for x in merge(fl.brk):
            out.brk += fin(x)
        for x in merge(fl.cont):
            out.cont += fin(x)
        for x, v in merge_pairs(fl.ret):
            for y in fin(x):
                out.ret.append((y, v))
        for e, x in escaped:
            self.cur_exc.append(e)
            ys = fin(x)
            self.cur_exc.pop()
            for y in ys:
                self.raise_(y, e)
        out.norm = merge(out.norm)
        return out

    s_TryStar = s_Try

    def s_Match(self, s, st):
        fl = Flow()
        cur = [x for x, _ in self.ev(s.subject, st)]
        for c in s.cases:
            b = self.exec_block(c.body, cur)
            fl.absorb(b)
            fl.norm += b.norm
        fl.norm = merge(fl.norm + cur)
        return fl

    # ------------------------------------------------------------- assignment
    def key(self, name):
        """Environment key of a name in the current frame."""
        f = self.stack[-1][0] if self.stack else None
        g = f
        while g is not None:
            if name in g.globals:
                return ('mod:' + g.module.name, name)
            if name in g.locals:
                return (g.qual, name)
            g = g.parent
        return ('mod:' + (f.module.name if f else '?'), name)

    def bind_name(self, st, name, v):
        st.env[self.key(name)] = v

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st = st.copy()
            st.env[self.key(t.id)] = v
            st.facts = {k: b for k, b in st.facts.items()}
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            xs = [st]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    ev = self.elems(st, v)
                    e = e.value
                else:
                    ev = self.component(st, v, i, n)
                nx = []
                for x in xs:
                    nx += self.assign(e, ev, x, node)
                xs = nx
            return xs
        if isinstance(t, ast.Attribute):
            out = []
            for x, r in self.ev(t.value, st):
                out.append(self.store_attr(x, r, t.attr, v, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, r in self.ev(t.value, st):
                for y, k in self.ev_slice(t.slice, x):
                    out.append(self.store_item(y, r, k, v, t))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        raise AnalysisBroken('assignment target ' + type(t).__name__)

    def store_attr(self, st, recv, attr, v, node):
        # property setter of a known class
        m = self.class_method(recv, attr + '.setter')
        if m is not None and not any(fr[0] is m for fr in self.stack):
            res = self.invoke(m, st, recv, [v], {}, node)
            st = merge([x for x, _ in res])
            if not st:
                return State(rs=None)
            st = st[0] if len(st) == 1 else _force(st)
        st = st.copy()
        strong = len(recv) == 1
        for b in recv:
            k = (b, attr)
            if strong:
                st.heap[k] = v
            else:
                old = st.heap.get(k) or default_field(k)
                st.heap[k] = join_val(old, v)
        return self.client.attr_store(self, st, recv, attr, v, node)

    def store_item(self, st, recv, key, v, node):
        st = self.client.growing(self, st, recv, key)
        st = self.mutated(st, recv)
        if 1 < len(recv) <= 4 and len(key) == 1:
            kk = next(iter(key))
            if kk[0] == 'c':    # whichever of them it is, this is what it has
                st.heap[(('u', recv), ('k', kk))] = v
        for b in recv:
            for kk in key:
                if kk[0] == 'c' and len(key) == 1 and len(recv) == 1:
                    st.heap[(b, ('k', kk))] = v
                    st.facts.pop(('in', kk, b), None)
                elif kk[0] == 'c' and len(key) == 1 and b[0] == 'D':
                    k = (b, ('k', kk))
                    st.heap[k] = join_val(
                        st.heap[k] if k in st.heap else
                        st.heap.get((b, '$v'), frozenset()) | val(('maybe',)),
                        v)
                    st.facts.pop(('in', kk, b), None)
                else:
                    k = (b, '$v')
                    st.heap[k] = join_val(st.heap.get(k, frozenset()), v) \
                        if k in st.heap else v
                    kk2 = (b, '$k')
                    st.heap[kk2] = join_val(st.heap[kk2], key) \
                        if kk2 in st.heap else key
        return self.client.item_store(self, st, recv, key, v, node)

    def mutated(self, st, recv):
        st = st.copy()
        for k in [k for k in st.heap if k[0][0] == 'u' and k[0][1] & recv]:
            del st.heap[k]
        for b in recv:
            st.heap.pop((b, '$lit'), None)
            if st.facts:
                st.facts = {k: x for k, x in st.facts.items()
                            if not (k[0] in ('in', 't', 'eqlen')
                                    and mentions(k, b))}
        return st

    def is_container(self, v):
        return bool(v) and all(t[0] in ('L', 'D') for t in v)

    def add_elems(self, st, recv, ev):
        st = self.client.growing(self, st, recv, ev)
        st = self.mutated(st, recv)
        for b in recv:
            k = (b, '$e')
            st.heap[k] = join_val(st.heap[k], ev) if k in st.heap else ev
        return st

    def component(self, st, v, i, n=None):
        out = frozenset()
        for t in v:
            if t[0] == 'T' and i < len(t[1]):
                out |= t[1][i]
            elif t[0] == 'L':
                lit = st.heap.get((t, '$lit'))
                if lit is not None and i < len(lit):
                    out |= lit[i]
                else:
                    out |= st.heap.get((t, '$e'), frozenset([cap(('i', t, i))]))
            elif t[0] == 'c' and isinstance(t[2], (tuple, str)) and \
                    i < len(t[2]):
                out |= const(t[2][i])
            else:
                out |= frozenset([cap(('i', t, ('c', 'int', i)))])
        return out if len(out) <= MAX_TERMS else TOP

    def literal_elems(self, st, v):
        r = self.client.literal(self, st, v)
        if r is not None:
            return r
        if len(v) != 1:
            return None
        t = next(iter(v))
        if t[0] == 'T':
            return list(t[1])
        if t[0] == 'c' and isinstance(t[2], (tuple, list)):
            return [const(x) if _hashable(x) else TOP for x in t[2]]
        if t[0] == 'L':
            lit = st.heap.get((t, '$lit'))
            if lit is not None:
                return list(lit)
        if t[0] == 'r' and t[1] in ('reversed', 'list', 'tuple', 'sorted', 'iter',
                                    'set') and len(t) > 3 and len(t[3]) == 1:
            r = self.literal_elems(st, t[3][0])
            if r is not None and t[1] == 'reversed':
                r = list(reversed(r))
            return r
        if t[0] == 'r' and t[1] == 'enumerate' and len(t[3]) == 1:
            r = self.literal_elems(st, t[3][0])
            if r is not None:
                return [val(('T', (const(i), e))) for i, e in enumerate(r)]
        if t[0] == 'r' and t[1] == 'items' and t[2]:
            return None
        return None

    def elems(self, st, v):
        """Value of an arbitrary element of an iterable value."""
        out = frozenset()
        for t in v:
            if t[0] == 'T':
                for x in t[1]:
                    out |= x
            elif t[0] == 'c' and isinstance(t[2], (tuple, list)):
                for x in t[2]:
                    out |= const(x) if _hashable(x) else TOP
            elif t[0] == 'L':
                e = st.heap.get((t, '$e'))
                lit = st.heap.get((t, '$lit'))
                if lit:
                    for x in lit:
                        out |= x
                if e is not None:
                    out |= e
                if not lit and e is None:
                    out |= frozenset([cap(('e', t))])
            elif t[0] == 'D':
                ks = [k[1][1] for k in st.heap
                      if k[0] == t and isinstance(k[1], tuple)]
                out |= frozenset(ks)
                out |= st.heap.get((t, '$k'), frozenset())
                if not out:
                    out |= frozenset([cap(('e', t))])
            elif t[0] == 'r' and t[1] in ('list', 'tuple', 'set', 'sorted',
                                          'reversed', 'iter', 'copy',
                                          'frozenset', 'copy.copy') \
                    and (t[3] or t[2]):
                src = t[3][0] if t[3] else t[2]
                out |= self.elems(st, src)
            elif t[0] == 'r' and t[1] == 'enumerate' and t[3]:
                out |= frozenset([('T', (val(('idx',)),
                                         self.elems(st, t[3][0])))])
            elif t[0] == 'r' and t[1] == 'zip' and t[3]:
                out |= frozenset([cap(('T', tuple(self.elems(st, a)
                                                  for a in t[3])))])
            elif t[0] == 'r' and t[1] == 'keys' and t[2]:
                out |= self.elems(st, t[2])
            else:
                out |= frozenset([cap(('e', t))])
        if not out:
            return frozenset([('e', TOPT)])
        return out if len(out) <= MAX_TERMS else TOP

    # ------------------------------------------------------------- expressions
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise AnalysisBroken('unsupported expression ' + type(n).__name__)
        r = m(n, st)
        if len(r) > 1:
            r = merge_pairs(r)
        return r

    def evs(self, nodes, st):
        """Evaluate in order -> [(State, [Val])]"""
        cur = [(st, [])]
        for n in nodes:
            nx = []
            for x, vs in cur:
                if isinstance(n, ast.Starred):
                    for y, v in self.ev(n.value, x):
                        nx.append((y, vs + [('*', v)]))
                else:
                    for y, v in self.ev(n, x):
                        nx.append((y, vs + [v]))
            cur = nx
        return cur

    def e_Constant(self, n, st):
        return [(st, const(n.value) if n.value is not Ellipsis else TOP)]

    def e_Name(self, n, st):
        r = self.client.name_load(self, st, n.id, n)
        if r is not None:
            return [(st, r)]
        k = self.key(n.id)
        if k in st.env:
            return [(st, st.env[k])]
        f = self.stack[-1][0]
        if not k[0].startswith('mod:'):
            return [(st, val(('unbound', n.id)))]
        r = self.proj.lookup_name(f.module, n.id)
        return [(st, self.global_val(r, n.id))]

    def global_val(self, r, name):
        if r is None:
            return val(('name', name))
        if r[0] in ('fn', 'cls', 'mod', 'ext'):
            if r == ('ext', 'True'):
                return const(True)
            return val(r)
        try:
            c = self.proj.const_of(r)
        except ValueError:
            return val(r)
        return self.lift(c, r)

    def lift(self, c, r=None):
        if _hashable(c) and not isinstance(c, type):
            return const(c)
        if isinstance(c, list) and _hashable(tuple(c)):
            return frozenset([('c', 'list', tuple(c))])
        return val(r) if r else TOP

    def e_Attribute(self, n, st):
        out = []
        for x, v in self.ev(n.value, st):
            out += self.load_attr(x, v, n.attr, n)
        return out

    def load_attr(self, x, v, attr, n):
        h = self.client.attr_load(self, x, v, attr, n)
        if h is not None:
            return [h] if isinstance(h, tuple) else h
        res = frozenset()
        pend = []
        for t in v:
            r, prop = self.attr1(x, t, attr)
            if prop is not None:
                pend.append((t, prop))
            else:
                res |= r
        if len(res) > MAX_TERMS:
            res = TOP
        if not pend:
            return [(x, res)]
        out = []
        if res:
            out.append((x, res))
        for t, prop in pend:
            if self.should_inline(prop):
                out += self.invoke(prop, x, val(t), [], {}, n)
            else:
                out.append((x, val(cap(('a', t, attr)))))
        return merge_pairs(out)

    def attr1(self, st, t, attr):
        """-> (Val, property Func or None)"""
        k = (t, attr)
        if k in st.heap:
            return st.heap[k], None
        if t[0] == 'mod':
            r = self.proj.member(t, attr)
            if r is not None:
                mk = ('mod:' + t[1], attr)
                if mk in st.env:
                    return st.env[mk], None
                return self.global_val(r, attr), None
            return val(('a', t, attr)), None
        if t[0] == 'ext':
            return val(('ext', t[1] + '.' + attr)), None
        if t[0] == 'cls':
            r = self.proj.member(t, attr)
            if r is not None:
                if r[0] == 'fn':
                    f = self.proj.funcs[r[1]]
                    if f.kind == 'classmethod':
                        return val(('bm', t, r[1])), None
                    return val(r), None
                return self.global_val(r, attr), None
            return val(cap(('a', t, attr))), None
        c = self.type_of(st, t)
        if c is not None:
            f = self.proj.find_method(c, attr)
            if f is not None:
                if f.is_property:
                    return frozenset(), f
                if f.kind == 'staticmethod':
                    return val(('fn', f.qual)), None
                return val(cap(('bm', t, f.qual))), None
            r = self.proj.member(('cls', c), attr)
            if r is not None and r[0] in ('cls', 'cvar'):
                # class-level default; an instance may have shadowed it
                gv = self.global_val(r, attr)
                if attr.isupper() or r[0] == 'cls':
                    return gv, None
        return val(cap(('a', t, attr))), None

    def type_of(self, st, t):
        k = t[0]
        if k == 'self':
            return t[1]
        if k == 'o':
            return t[1]
        if k == 'a':
            b = self.type_of(st, t[1]) if isinstance(t[1], tuple) else None
            if b is not None:
                for c in self.proj.mro(b):
                    ts = self.proj.attr_types().get((c, t[2]))
                    if ts and len(ts) == 1:
                        return next(iter(ts))
            h = self.hints.get(t[2])
            if h:
                return h
        if k == 'p':
            h = self.hints.get(t[1])
            if h:
                return h
        return None

    def class_method(self, v, name):
        fs = set()
        for t in v:
            c = self.type_of(None, t)
            f = self.proj.find_method(c, name) if c else None
            fs.add(f)
        if len(fs) == 1:
            return fs.pop()
        return None

    def e_Subscript(self, n, st):
        out = []
        for x, v in self.ev(n.value, st):
            for y, k in self.ev_slice(n.slice, x):
                h = self.client.item_load(self, y, v, k, n)
                if h is not None:
                    out += [h] if isinstance(h, tuple) else h
                    continue
                if not isinstance(n.slice, ast.Slice):
                    le = self.client.lookup_exc(self, y, v, k, n)
                    if le:
                        self.raise_(y, le)
                    out.append((y, self.item(y, v, k)))
                else:
                    out.append((y, frozenset(
                        t if t[:2] == ('r', 'slice') else
                        cap(('r', 'slice', val(t), (), 0)) for t in v)))
        return out

    def item(self, st, v, k):
        out = frozenset()
        if len(v) > 1 and len(k) == 1:
            hk = (('u', v), ('k', next(iter(k))))
            if hk in st.heap and ('maybe',) not in st.heap[hk]:
                return st.heap[hk]
        for t in v:
            for kk in k:
                hk = (t, ('k', kk))
                if hk in st.heap:
                    out |= st.heap[hk] - frozenset([('maybe',)])
                elif t[0] == 'T' and kk[0] == 'c' and isinstance(kk[2], int) \
                        and -len(t[1]) <= kk[2] < len(t[1]):
                    out |= t[1][kk[2]]
                elif t[0] == 'c' and kk[0] == 'c':
                    try:
                        r = t[2][kk[2]]
                        out |= const(r) if _hashable(r) else TOP
                    except Exception:
                        out |= val(('i', t, kk))
                elif t[0] == 'L' and (t, '$lit') in st.heap and kk[0] == 'c' \
                        and isinstance(kk[2], int) and \
                        -len(st.heap[(t, '$lit')]) <= kk[2] < \
                        len(st.heap[(t, '$lit')]):
                    out |= st.heap[(t, '$lit')][kk[2]]
                elif t[0] == 'L' and (t, '$e') in st.heap:
                    out |= st.heap[(t, '$e')]
                elif t[0] == 'D' and (t, '$v') in st.heap:
                    out |= st.heap[(t, '$v')]
                else:
                    out |= val(cap(('i', t, kk)))
        return out if 0 < len(out) <= MAX_TERMS else TOP

    def ev_slice(self, n, st):
        if isinstance(n, ast.Slice):
            xs = [st]
            for p in (n.lower, n.upper, n.step):
                if p is not None:
                    xs = [y for x in xs for y, _ in self.ev(p, x)]
            return [(x, val(('slice',))) for x in xs]
        if isinstance(n, ast.Index):
            n = n.value
        return self.ev(n, st)

    def e_Tuple(self, n, st):
        out = []
        for x, vs in self.evs(n.elts, st):
            if any(isinstance(v, tuple) for v in vs):
                out.append((x, TOP))
            else:
                out.append((x, val(cap(('T', tuple(vs))))))
        return out

    def e_List(self, n, st):
        out = []
        t = ('L', (self.stack[-1][0].qual if self.stack else '',
                   n.lineno, n.col_offset))
        for x, vs in self.evs(n.elts, st):
            x = x.copy()
            if self.client.aging and any(t in v for v in x.env.values()):
                x, vs = age(x, t, vs)
            for k in [k for k in x.heap if k[0] == t]:
                del x.heap[k]
            if any(isinstance(v, tuple) for v in vs):
                e = frozenset()
                for v in vs:
                    e |= self.elems(x, v[1]) if isinstance(v, tuple) else v
                x.heap[(t, '$e')] = e
            else:
                x.heap[(t, '$lit')] = tuple(vs)
                if vs:
                    e = frozenset()
                    for v in vs:
                        e = join_val(e, v)
                    x.heap[(t, '$e')] = e
            x = self.client.list_made(self, x, t, vs)
            out.append((x, val(t)))
        return out

    def e_Set(self, n, st):
        return self.e_List(n, st)

    def e_Dict(self, n, st):
        t = new = ('D', (self.stack[-1][0].qual if self.stack else '',
                         n.lineno, n.col_offset))
        if None in n.keys:      # may be made from what it made before
            t = ('D', t[1] + ('new',))
        x0 = st.copy()
        for k in [k for k in x0.heap if k[0] == t]:
            del x0.heap[k]
        cur = [x0]
        for kn, vn in zip(n.keys, n.values):
            nx = []
            for x in cur:
                if kn is None:
                    for y, v in self.ev(vn, x):
                        y = y.copy()
                        for b in v:
                            if b[0] == 'D':
                                for hk in list(y.heap):
                                    if hk[0] == b:
                                        y.heap[(t, hk[1])] = y.heap[hk]
                            else:
                                y.heap[(t, '$v')] = val(cap(('e', b)))
                                y.heap[(t, '$k')] = TOP
                        nx.append(y)
                    continue
                for y, k in self.ev(kn, x):
                    for z, v in self.ev(vn, y):
                        nx.append(self.store_item(z, val(t), k, v, n))
            cur = nx
        if t != new:
            for x in cur:
                for k in [k for k in x.heap if k[0] == new]:
                    del x.heap[k]
                for k in [k for k in x.heap if k[0] == t]:
                    x.heap[(new, k[1])] = x.heap.pop(k)
        return [(x, val(new)) for x in cur]

    def binop(self, op, a, b):
        ca, cb = consts_of(a), consts_of(b)
        if ca and cb and len(ca) * len(cb) <= 8:
            try:
                out = frozenset()
                for p in ca:
                    for q in cb:
                        if isinstance(op, ast.Add):
                            r = p + q
                        elif isinstance(op, ast.Sub):
                            r = p - q
                        elif isinstance(op, ast.Mult):
                            r = p * q
                        elif isinstance(op, ast.Mod):
                            r = p % q
                        else:
                            raise TypeError
                        if not _hashable(r) or isinstance(r, int) and \
                                not isinstance(r, bool) and abs(r) > 8:
                            raise TypeError
                        out |= const(r)
                return out
            except Exception:
                pass
        nm = type(op).__name__
        return val(cap(('b', nm, a, b)))

    def e_BinOp(self, n, st):
        out = []
        for x, vs in self.evs([n.left, n.right], st):
            self.binop_node = n
            r = self.client.binop_result(self, x, vs[0], vs[1])
            if isinstance(r, tuple):
                x, r = r
            out.append((x, self.binop(n.op, vs[0], vs[1])
                        if r is None else r))
        return out

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            t, f = self.cond(n.operand, st)
            return [(x, const(False)) for x in merge(t)] + \
                [(x, const(True)) for x in merge(f)]
        out = []
        for x, v in self.ev(n.operand, st):
            c = consts_of(v)
            if c and len(c) == 1 and isinstance(n.op, ast.USub) and \
                    isinstance(c[0], (int, float)):
                out.append((x, const(-c[0])))
            else:
                out.append((x, val(cap(('u', type(n.op).__name__, v)))))
        return out

    def e_BoolOp(self, n, st):
        is_or = isinstance(n.op, ast.Or)
        out, cur = [], [st]
        for i, e in enumerate(n.values):
            nx = []
            for x in cur:
                for y, v in self.ev(e, x):
                    if i == len(n.values) - 1:
                        out.append((y, v))
                        continue
                    t, f = self.split_truth(y, v, e)
                    stop, go = (t, f) if is_or else (f, t)
                    for z, vv in stop:
                        out.append((z, vv if is_or else
                                    self.client.falsy(vv)))
                    nx += [z for z, _ in go]
            cur = nx
        return merge_pairs(out)

    def e_Compare(self, n, st):
        t, f = self.cond(n, st)
        return [(x, const(True)) for x in merge(t)] + \
            [(x, const(False)) for x in merge(f)]

    def e_IfExp(self, n, st):
        t, f = self.cond(n.test, st)
        out = []
        for x in t:
            out += self.ev(n.body, x)
        for x in f:
            out += self.ev(n.orelse, x)
        return out

    def e_JoinedStr(self, n, st):
        parts = [p.value for p in n.values if isinstance(p, ast.FormattedValue)]
        out = []
        for x, vs in self.evs(parts, st):
            r = self.client.joined(self, x, vs, n)
            out.append(r if r is not None else (
                x, val(cap(('r', 'fstr', frozenset(), tuple(vs), 0)))))
        return out

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_NamedExpr(self, n, st):
        out = []
        for x, v in self.ev(n.value, st):
            for y in self.assign(n.target, v, x, n):
                out.append((y, v))
        return out

    def e_Lambda(self, n, st):
        return [(st, val(('lambda', n.lineno, n.col_offset)))]

    def e_Slice(self, n, st):
        return self.ev_slice(n, st)

    def _comp(self, gens, st, leaf):
        """Interpret comprehension generators; leaf(st) -> [(State, Val)]"""
        if not gens:
            return leaf(st)
        g, rest = gens[0], gens[1:]
        out = []
        for x, itv in self.ev(g.iter, st):
            lit = self.literal_elems(x, itv)
            els = lit if lit is not None and len(lit) <= 40 else \
                [self.elems(x, itv)]
            cur = x
            for el in els:
                cur2 = self.forget(cur, el)
                for y in self.assign(g.target, el, cur2, g):
                    ok = [y]
                    for c in g.ifs:
                        nx = []
                        for z in ok:
                            t, f = self.cond(c, z)
                            nx += t
                        ok = nx
                    for z in ok:
                        out += self._comp(rest, z, leaf)
            if not els:
                out.append((x, None))
        return out

    def _comp_collect(self, n, st, kind):
        t = (kind, (self.stack[-1][0].qual if self.stack else '',
                    n.lineno, n.col_offset))
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        f = self.stack[-1][0] if self.stack else None
        added = set()
        if f is not None:
            added = names - f.locals
            f.locals |= added
        if kind == 'L' and self.client.comp_loops:
            try:
                return self._comp_list(n, st, t)
            finally:
                if f is not None:
                    f.locals -= added
        try:
            if kind == 'D':
                def leaf(z):
                    out = []
                    for y, vs in self.evs([n.key, n.value], z):
                        out.append((y, (vs[0], vs[1])))
                    return out
            else:
                def leaf(z):
                    return self.ev(n.elt, z)
            pairs = self._comp(n.generators, st, leaf)
        finally:
            if f is not None:
                f.locals -= added
        by = {}
        for x, v in pairs:
            by.setdefault(x.rs, []).append((x, v))
        if not by or not any(x.rs == st.rs for x, _ in pairs):
            by.setdefault(st.rs, []).append((st, None))
        out = []
        for rs, lst in by.items():
            s = lst[0][0]
            for o, _ in lst[1:]:
                if not s.same(o):
                    s = join_state(s, o)
            s = s.copy()
            for k in [k for k in s.heap if k[0] == t]:
                del s.heap[k]
            e = frozenset()
            kk = frozenset()
            for _, v in lst:
                if v is None:
                    continue
                if kind == 'D':
                    kk = join_val(kk, v[0])
                    e = join_val(e, v[1])
                else:
                    e = join_val(e, v)
            if e:
                s.heap[(t, '$v' if kind == 'D' else '$e')] = e
            if kk:
                s.heap[(t, '$k')] = kk
            s.facts = {k: b for k, b in s.facts.items() if k in st.facts}
            out.append((s, val(t)))
        return out

    def _comp_list(self, n, st, t):
        st = st.copy()
        for k in [k for k in st.heap if k[0] == t]:
            del st.heap[k]
        st = self.client.new_list(self, st, t)

        def walk(gens, x):
            if not gens:
                return [self.add_elems(y, val(t), v)
                        for y, v in self.ev(n.elt, x)]
            g, rest = gens[0], gens[1:]
            out = []
            for y, itv in self.ev(g.iter, x):
                lit = self.literal_elems(y, itv)
                if lit is not None and len(lit) <= 40:
                    cur = [y]
                    for e in lit:
                        cur = merge([z for c in cur
                                     for z in step(g, rest, c, e)])
                    out += cur
                    continue
                el = self.elems(y, itv)
                head = [y]
                for _ in range(12):
                    nxt = []
                    for h in head:
                        opts = self.client.elements(self, h, itv, g)
                        for z, e in [(h, el)] if opts is None else opts:
                            nxt += step(g, rest, z, e)
                    new = merge(head + nxt)
                    if _same_states(new, head):
                        break
                    head = new
                ex = [self.client.loop_end(self, h, itv, g) for h in head]
                out += [h for h in ex if h is not None]
            return merge(out)

        def step(g, rest, x, e):
            out = []
            for y in self.assign(g.target, e, self.forget(x, e), g):
                ok = [y]
                for c in g.ifs:
                    nx = []
                    for z in ok:
                        a, b = self.cond(c, z)
                        nx += a
                        out += b
                    ok = nx
                for z in ok:
                    out += walk(rest, z)
            return out
        return [(x, val(t)) for x in walk(n.generators, st)]

    def e_ListComp(self, n, st):
        return self._comp_collect(n, st, 'L')

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, n, st):
        return self._comp_collect(n, st, 'D')

    # --------------------------------------------------------------- branches
    def truth(self, t):
        """Known truth of a term, or None."""
        k = t[0]
        if k == 'c':
            return bool(t[2])
        if k in ('fn', 'bm', 'cls', 'mod', 'o', 'R', 'lambda', 'exc', 'self',
                 'exctype'):
            return True
        if k == 'T':
            return bool(t[1])
        return None

    def split_truth(self, st, v, expr=None):
        """-> ([(State, Val)] when true, [(State, Val)] when false)"""
        tv = frozenset(t for t in v if self.truth(t) is not False)
        fv = frozenset(t for t in v if self.truth(t) is not True)
        unknown = frozenset(t for t in v if self.truth(t) is None)
        if len(v) == 1 and unknown:
            t = next(iter(v))
            known = st.facts.get(('t', t))
            if known is None and st.facts.get(('==', t, NONE_T)) is True:
                known = False
            if t[0] == 'L' and (t, '$lit') in st.heap:
                known = bool(st.heap[(t, '$lit')])
            if known is None or t[0] == 'L':
                told = self.client.truth(self, st, t)
                known = known if told is None else told
            if known is True:
                return [(st, v)], []
            if known is False:
                return [], [(st, v)]
            if t == TOPT:
                return [(st, v)], [(st, v)]
            a, b = st.copy(), st.copy()
            a.facts[('t', t)] = True
            a.facts[('==', t, NONE_T)] = False
            b.facts[('t', t)] = False
            return [(a, v)], [(b, v)]
        ts, fs = [], []
        if tv:
            a = st
            if tv != v and isinstance(expr, ast.Name):
                a = st.copy()
                a.env[self.key(expr.id)] = tv
            if len(tv) == 1 and tv & unknown:
                a = a.copy() if a is st else a
                a.facts[('t', next(iter(tv)))] = True
            ts = [(a, tv)]
        if fv:
            b = st
            if fv != v and isinstance(expr, ast.Name):
                b = st.copy()
                b.env[self.key(expr.id)] = fv
            fs = [(b, fv)]
        return ts, fs

    def cond(self, n, st):
        """-> (true states, false states)"""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t, f = self.cond(n.operand, st)
            return f, t
        if isinstance(n, ast.BoolOp):
            is_or = isinstance(n.op, ast.Or)
            acc, cur = [], [st]
            for e in n.values:
                nx = []
                for x in cur:
                    t, f = self.cond(e, x)
                    if is_or:
                        acc += t
                        nx += f
                    else:
                        acc += f
                        nx += t
                cur = merge(nx)
            return (merge(acc), cur) if is_or else (cur, merge(acc))
        ts, fs = self.cond1(n, st)
        return ts, [self.client.failed(self, x, n) for x in fs]

    def cond1(self, n, st):
        if isinstance(n, ast.Compare):
            return self.compare(n, st)
        if isinstance(n, ast.Call) and dotted(n.func) == 'bool' and \
                len(n.args) == 1 and not n.keywords:
            return self.cond(n.args[0], st)
        ts, fs = [], []
        for x, v in self.ev(n, st):
            t, f = self.split_truth(x, v, n)
            ts += [a for a, _ in t]
            fs += [a for a, _ in f]
        return merge(ts), merge(fs)

    def compare(self, n, st):
        ts, fs = [], []
        if len(n.ops) != 1:
            for x, vs in self.evs([n.left] + n.comparators, st):
                ts.append(x)
                fs.append(x)
            return merge(ts), merge(fs)
        op = n.ops[0]
        for x, vs in self.evs([n.left, n.comparators[0]], st):
            a, b = self.cmp1(x, op, vs[0], vs[1], n)
            if isinstance(op, (ast.In, ast.NotIn)):
                isin = isinstance(op, ast.In)
                a = [self.client.tested(self, y, vs[0], vs[1], isin)
                     for y in a]
                b = [self.client.tested(self, y, vs[0], vs[1], not isin)
                     for y in b]
            ts += a
            fs += b
        return merge(ts), merge(fs)

    def cmp1(self, st, op, l, r, n):
        neg = isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn))
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            kind = '=='
        elif isinstance(op, (ast.In, ast.NotIn)):
            kind = 'in'
        else:
            kind = type(op).__name__
        known = None
        cl, cr = consts_of(l), consts_of(r)
        if kind == '==':
            if cl is not None and cr is not None and cl and cr:
                rs = {a == b and type(a) == type(b) or a == b
                      for a in cl for b in cr}
                if len(rs) == 1:
                    known = rs.pop()
            elif r == NONE or l == NONE:
                o = l if r == NONE else r
                ks = {self.is_none(t) for t in o}
                if ks == {False}:
                    known = False
            elif len(l) == len(r) == 1 and all(
                    t[0] == 'o' and isinstance(t[2], str) for t in l | r):
                known = l == r      # objects a rule tells apart
        elif kind in ('Lt', 'LtE', 'Gt', 'GtE') and cl and cr and all(
                isinstance(x, (int, float)) for x in cl + cr):
            fn = getattr(operator, {'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt',
                                    'GtE': 'ge'}[kind])
            rs = {fn(a, b) for a in cl for b in cr}
            if len(rs) == 1:
                known = rs.pop()
        elif kind == 'in' and self.client.contains(self, st, l, r) is not None:
            known = self.client.contains(self, st, l, r)
        elif kind == 'in':
            lit = self.literal_elems(st, r)
            if cl is not None and lit is not None and len(cl) == 1 and \
                    all(consts_of(e) is not None for e in lit):
                known = any(cl[0] in consts_of(e) for e in lit)
            elif cl is not None and len(cl) == 1 and len(r) == 1:
                b = next(iter(r))
                hk = (b, ('k', ('c', type(cl[0]).__name__, cl[0])))
                if b[0] == 'D':
                    if hk in st.heap and ('maybe',) not in st.heap[hk]:
                        known = True
                    elif hk not in st.heap and (b, '$v') not in st.heap:
                        known = False
        if known is None and len(l) == 1 and len(r) == 1:
            a, b = next(iter(l)), next(iter(r))
            fk = (kind, a, b)
            if kind == '==' and repr(a) > repr(b):
                fk = (kind, b, a)
            if b == NONE_T and kind == '==':
                fk = ('==', a, b)
            if a == b and a != TOPT and kind == '==' and a[0] not in ('top',):
                known = True
            elif TOPT not in (a, b):
                known = st.facts.get(fk)
                if known is None and b == NONE_T and kind == '==' and \
                        st.facts.get(('t', a)) is True:
                    known = False
                if known is None:
                    x, y = st.copy(), st.copy()
                    x.facts[fk] = True
                    y.facts[fk] = False
                    if kind == '==' and b == NONE_T:
                        x.facts[('t', a)] = False
                        if self.client.none_is_none and \
                                isinstance(n.left, ast.Name):
                            x.env[self.key(n.left.id)] = NONE
                    return ([y], [x]) if neg else ([x], [y])
        if known is not None:
            if neg:
                known = not known
            return ([st], []) if known else ([], [st])
        # refine a multi-term variable against None / a constant
        t, f = st, st
        if kind == '==' and r == NONE and isinstance(n.left, ast.Name):
            tv = frozenset(a for a in l if self.is_none(a) is not False)
            if tv and self.client.none_is_none:
                tv = NONE
            fv = frozenset(a for a in l if self.is_none(a) is not True)
            k = self.key(n.left.id)
            t, f = st.copy(), st.copy()
            t.env[k], f.env[k] = tv, fv
            t, f = ([t] if tv else []), ([f] if fv else [])
            return (f, t) if neg else (t, f)
        return [st], [st]

    def is_none(self, t):
        if t[0] == 'c':
            return t[2] is None
        if t[0] in ('fn', 'bm', 'cls', 'mod', 'o', 'R', 'L', 'D', 'T', 'self', 'exc',
                    'lambda', 'b', 'exctype'):
            return False
        return None

    # ------------------------------------------------------------------ calls
    def ev_callee(self, n, st):
        """-> [(State, callee Val, receiver Val or None, name)]"""
        fn = n.func
        if isinstance(fn, ast.Attribute):
            out = []
            for x, r in self.ev(fn.value, st):
                for y, v in self.load_attr(x, r, fn.attr, fn):
                    out.append((y, v, r, fn.attr))
            return out
        out = []
        for x, v in self.ev(fn, st):
            nm = fn.id if isinstance(fn, ast.Name) else '?'
            out.append((x, v, None, nm))
        return out

    def ev_args(self, n, st):
        out = []
        kwn = [k for k in n.keywords]
        for x, vs in self.evs(list(n.args) + [k.value for k in kwn], st):
            args, star = [], False
            na = len(n.args)
            for v in vs[:na]:
                if isinstance(v, tuple):
                    lit = self.literal_elems(x, v[1])
                    if lit is not None:
                        args += lit
                    else:
                        star = True
                else:
                    args.append(v)
            kw = {}
            for k, v in zip(kwn, vs[na:]):
                if k.arg is None:
                    got = False
                    for t in v:
                        if t[0] == 'D':
                            for hk in x.heap:
                                if hk[0] == t and isinstance(hk[1], tuple) and \
                                        hk[1][1][0] == 'c':
                                    kw[hk[1][1][2]] = x.heap[hk]
                                    got = True
                    if not got:
                        star = True
                else:
                    kw[k.arg] = v
            out.append((x, args, kw, star))
        return out

    def targets(self, st, fv, recv, name, node=None):
        """Project functions a callee value may denote."""
        out = []
        for t in fv:
            if t[0] == 'fn':
                out.append(self.proj.funcs[t[1]])
            elif t[0] == 'bm':
                out.append(self.proj.funcs[t[2]])
        if out:
            return out
        if recv is not None and name not in BUILTIN_METHODS and \
                all(t[0] in ('a', 'p', 'e', 'i', 'r', 'top', 'gvar', 'name',
                             'unbound', 'o', 'self', 's', 'c') for t in recv):
            cands = [f for f in self.proj.by_name.get(name, ())
                     if f.cls is not None and not f.is_property]
            if node is not None and isinstance(node.func, ast.Attribute) and \
                    self.stack:
                cands = self.proj.narrow(self.stack[-1][0], node.func.value,
                                         cands)
            return cands
        return []

    def display_name(self, fv, recv, name):
        for t in fv:
            if t[0] == 'ext':
                return t[1]
            if t[0] == 'cls':
                return t[1]
            if t[0] in ('fn', 'bm'):
                return self.proj.funcs[t[-1]].qual
        return name

    def e_Call(self, n, st):
        out = []
        for x, fv, recv, name in self.ev_callee(n, st):
            for y, args, kw, star in self.ev_args(n, x):
                out += self.call(n, y, fv, recv, name, args, kw, star)
        return out

    def call(self, n, st, fv, recv, name, args, kw, star):
        ci = CallInfo()
        ci.node, ci.recv, ci.args, ci.kw, ci.star = n, recv, args, kw, star
        ci.func = self.stack[-1][0] if self.stack else None
        ci.term = fv
        # functools.partial objects
        for t in fv:
            if t[0] == 'r' and t[1] in ('functools.partial', 'partial') and t[3]:
                return self.call(n, st, t[3][0], None, name,
                                 list(t[3][1:]) + args, kw, star)
        # unresolved local holding one of several functions: handled as a union
        ci.targets = self.targets(st, fv, recv, name, n)
        ci.name = self.display_name(fv, recv, name)
        r = self.client.on_call(self, st, ci)
        if r is None:
            r = self.default_call(st, ci, fv, recv, name, args, kw, star)
        res = []
        for p in r:
            q = self.client.after_call(self, p[0], ci, p[1])
            res.append(q if q is not None else p)
        return merge_pairs(res)

    def default_call(self, st, ci, fv, recv, name, args, kw, star):
        n = ci.node
        b = self.builtin(st, ci, fv, recv, name, args, kw)
        if b is not None:
            return b
        out = []
        handled = False
        for t in fv:
            if t[0] == 'cls':
                handled = True
                out += self.construct(t[1], st, args, kw, n, ci)
        if handled and len(fv) == 1:
            return out
        tg = ci.targets
        inl = [f for f in tg if self.should_inline(f)]
        if tg and len(inl) <= 4:
            for f in tg:
                if f in inl:
                    rv = recv
                    bound = frozenset(t[1] for t in fv if t[0] == 'bm' and
                                      t[2] == f.qual)
                    if bound:
                        rv = bound | frozenset(
                            t for t in recv or () if t[0] not in
                            ('o', 'self', 'cls', 'mod', 'ext'))
                    out += self.invoke(f, st, rv, args, kw, n, star)
                else:
                    out += self.opaque(st, ci, project=True, target=f)
            if out or handled or inl:
                return merge_pairs(out)
            return []
        return out + self.opaque(st, ci, project=bool(tg))

    def construct(self, cq, st, args, kw, n, ci):
        t = ('o', cq, (self.stack[-1][0].qual if self.stack else '', n.lineno,
                       n.col_offset))
        st = st.copy()
        for k in [k for k in st.heap if k[0] == t]:
            del st.heap[k]
        init = self.proj.find_method(cq, '__init__')
        if init is not None and self.should_inline(init):
            res = self.invoke(init, st, val(t), args, kw, n)
            return [(x, val(t)) for x, _ in res]
        if init is not None:
            for e in self.client.exceptions(self, st, ci):
                self.raise_(st, e)
        return [(st, val(t))]

    def should_inline(self, f):
        if any(fr[0] is f for fr in self.stack):
            return False
        if len(self.stack) > self.client.max_inline:
            return False
        if self.client.never_inline(f):
            return False
        if f.is_gen:
            return False
        if self.interesting is not None and f.qual in self.interesting:
            return True
        return self.is_small(f)

    def is_small(self, f):
        r = self._small.get(f.qual)
        if r is None:
            r = sum(1 for x in own_walk(f.node) if isinstance(x, ast.stmt)) \
                <= self.client.small
            self._small[f.qual] = r
        return r

    def bind_args(self, f, recv, args, kw, st, star=False):
        argv = {}
        params = list(f.params)
        args = list(args)
        if f.kind in ('method', 'setter') and params:
            # called through an instance, or through the class with explicit self
            if recv is not None and not all(t[0] in ('cls', 'mod') for t in recv):
                args = [recv] + args
        elif f.kind == 'classmethod' and params:
            args = [val(('cls', f.cls.qual))] + args
        for p, v in zip(params, args):
            argv[p] = v
        for p in params + f.kwonly:
            if p in kw:
                argv[p] = kw[p]
        for p in params + f.kwonly:
            if p not in argv:
                if p in f.defaults and not star:
                    d = f.defaults[p]
                    try:
                        c = self.proj.const(f.module, d)
                        argv[p] = self.lift(c)
                    except ValueError:
                        argv[p] = val(('default', f.qual, p))
                else:
                    argv[p] = TOP
        if f.vararg:
            argv[f.vararg] = val(cap(('T', tuple(args[len(params):]))))
        if f.kwarg:
            argv[f.kwarg] = TOP
        return argv

    def invoke(self, f, st, recv, args, kw, n, star=False):
        return self.exec_func(f, st, self.bind_args(f, recv, args, kw, st, star), n)

    def opaque(self, st, ci, project=False, target=None):
        """A call that is not interpreted."""
        for e in self.client.exceptions(self, st, ci) if not self.noraise(ci) \
                else ():
            self.raise_(st, e)
        st = st.copy()
        name = ci.name.split('.')[-1] if ci.recv is not None else ci.name
        if ci.recv is not None and name in MUTATORS and not project:
            if name in ('append', 'add', 'insert', 'appendleft') and ci.args:
                st = self.add_elems(st, ci.recv, ci.args[-1])
            elif name == 'extend' and ci.args:
                st = self.add_elems(st, ci.recv, self.elems(st, ci.args[0]))
            else:
                st = self.mutated(st, ci.recv)
            if name == 'update' and ci.args:
                for b in ci.recv:
                    for s in ci.args[0]:
                        if s[0] == 'D':
                            for hk in list(st.heap):
                                if hk[0] == s and hk[1] != '$lit':
                                    st.heap[(b, hk[1])] = st.heap[hk]
                        else:
                            st.heap[(b, '$v')] = join_val(
                                st.heap.get((b, '$v'), frozenset()),
                                val(cap(('e', s))))
            elif name == 'setdefault' and ci.args:
                k = ci.args[0]
                st = self.store_item(st, ci.recv, k, ci.args[1]
                                     if len(ci.args) > 1 else NONE, ci.node)
        if project and st.facts:
            st.facts = {k: v for k, v in st.facts.items()
                        if not mentions_kind(k, ('a',))}
        r = self.client.call_result(self, st, ci)
        if r is None:
            nm = name
            rv = ci.recv if ci.recv is not None and not any(
                t[0] in ('mod', 'ext') for t in ci.recv) else frozenset()
            site = 0 if self.pure(nm) else (
                ci.node.lineno, ci.node.col_offset)
            if rv and not self.pure(nm) or project or True:
                t = cap(('r', ci.name if not rv else nm, rv,
                         tuple(ci.args[:4]), site))
            if site and st.facts:
                st.facts = {k: v for k, v in st.facts.items()
                            if not mentions(k, t)}
            r = val(t)
        return [(st, r)]

    def pure(self, name):
        return name in ('list', 'tuple', 'set', 'sorted', 'reversed', 'enumerate',
                        'zip', 'iter', 'str', 'int', 'len', 'items', 'keys',
                        'values', 'isinstance', 'type', 'lower', 'upper',
                        'strip', 'startswith', 'endswith', 'split', 'partition',
                        'rpartition', 'replace', 'os.path.dirname',
                        'os.path.join', 'os.path.splitext', 'copy', 'frozenset',
                        'dirname', 'join', 'splitext')

    def noraise(self, ci):
        nm = ci.name
        if nm in NORAISE:
            return True
        last = nm.split('.')[-1]
        if ci.recv is not None and last in NORAISE_METHODS and not ci.targets:
            return True
        if any(t[0] == 'ext' and self.is_exc_name(t[1].split('.')[-1])
               for t in ci.term or ()):
            return True
        return False

    def builtin(self, st, ci, fv, recv, name, args, kw):
        """Semantics of a handful of builtins the rules look through."""
        t = next(iter(fv)) if len(fv) == 1 else None
        if t is None:
            return None
        if t == ('ext', 'getattr') and len(args) >= 2:
            c = consts_of(args[1])
            if c is not None and all(isinstance(x, str) for x in c):
                out = []
                if len(args) < 3:
                    pass
                for x in c:
                    for y, v in self.load_attr(st, args[0], x, ci.node):
                        out.append((y, v))
                res = merge_pairs(out)
                if len(args) > 2:
                    # the default shows only when the value is unknown
                    res = [(y, v if self.known_attr(y, args[0], c)
                            else join_val(v, args[2])) for y, v in res]
                return res
            return None
        kind = {'isinstance': 'exc', 'issubclass': 'exctype'}.get(t[1]) \
            if t[0] == 'ext' else None
        if kind and len(args) == 2 and args[0] and \
                all(x[0] == kind for x in args[0]):
            names, todo = [], list(args[1])
            while todo:
                c = todo.pop()
                if c[0] == 'T':
                    todo += [y for e in c[1] for y in e]
                elif c[0] in ('cls', 'ext'):
                    names.append(c[1].split('.')[-1])
                else:
                    return None
            got = {self.exc_match(x[1], names) for x in args[0]}
            if got == {'yes'}:
                return [(st, const(True))]
            if got == {'no'}:
                return [(st, const(False))]
            return None
        if t == ('ext', 'setattr') and len(args) == 3:
            c = consts_of(args[1])
            if c is not None and len(c) >= 1 and all(
                    isinstance(x, str) for x in c):
                for x in c:
                    st = self.store_attr(st, args[0], x, args[2], ci.node)
                return [(st, NONE)]
            st = self.client.attr_store(self, st, args[0], None, args[2], ci.node)
            return [(st, NONE)]
        if t == ('ext', 'delattr') and len(args) == 2:
            c = consts_of(args[1])
            for x in (c if c is not None else [None]):
                st = self.client.attr_del(self, st, args[0], x, ci.node)
            return [(st, NONE)]
        if t[0] == 'ext' and t[1] in ('dict', 'collections.OrderedDict',
                                      'OrderedDict', 'collections.defaultdict') :
            d = ('D', (self.stack[-1][0].qual if self.stack else '',
                       ci.node.lineno, ci.node.col_offset))
            st = st.copy()
            old = {k: st.heap.pop(k) for k in [k for k in st.heap
                                               if k[0] == d]}
            if args and not t[1].endswith('defaultdict'):
                for b in args[0]:
                    if b == d:
                        st.heap.update(old)
                    elif b[0] == 'D':
                        for hk in list(st.heap):
                            if hk[0] == b:
                                st.heap[(d, hk[1])] = st.heap[hk]
                    elif b[0] == 'r' and b[1] == 'items' and b[2]:
                        for bb in b[2]:
                            for hk in list(st.heap):
                                if hk[0] == bb:
                                    st.heap[(d, hk[1])] = st.heap[hk]
                    elif b[0] == 'r' and b[1] in ('sorted', 'list', 'reversed') \
                            and b[3]:
                        for bi in b[3][0]:
                            if bi[0] == 'r' and bi[1] == 'items' and bi[2]:
                                for bb in bi[2]:
                                    for hk in list(st.heap):
                                        if hk[0] == bb:
                                            st.heap[(d, hk[1])] = st.heap[hk]
                    else:
                        st.heap[(d, '$v')] = val(cap(('e', b)))
                        st.heap[(d, '$k')] = TOP
            for k, v in kw.items():
                st = self.store_item(st, val(d), const(k), v, ci.node)
            return [(st, val(d))]
        if t == ('ext', 'bool') and len(args) == 1:
            ts, fs = self.split_truth(st, args[0])
            return [(x, const(True)) for x, _ in ts] + \
                [(x, const(False)) for x, _ in fs]
        if recv is not None and name in STR_FOLD and not kw and len(recv) == 1:
            r = next(iter(recv))
            cs = [consts_of(a) for a in args]
            if r[0] == 'c' and isinstance(r[2], str) and \
                    all(c is not None and len(c) == 1 for c in cs):
                try:
                    got = getattr(r[2], name)(*[c[0] for c in cs])
                except Exception:
                    return None
                if isinstance(got, list):
                    return None
                if isinstance(got, tuple):
                    return [(st, val(('T', tuple(const(x) for x in got))))]
                return [(st, const(got))]
        if recv is not None and name == 'get' and args and \
                any(r[0] == 'D' for r in recv):
            out = frozenset()
            for r in recv:
                for k in args[0]:
                    hk = (r, ('k', k))
                    if hk in st.heap:
                        v = st.heap[hk]
                        out |= v - frozenset([('maybe',)])
                        if ('maybe',) in v:
                            out |= args[1] if len(args) > 1 else NONE
                    else:
                        out |= st.heap.get((r, '$v'), frozenset())
                        if r[0] != 'D':
                            out |= val(cap(('i', r, k)))
                        out |= args[1] if len(args) > 1 else NONE
            return [(st, out if len(out) <= MAX_TERMS else TOP)]
        return None

    def known_attr(self, st, recv, names):
        return all((t, n) in st.heap for t in recv for n in names)


NONE_T = ('c', 'NoneType', None)
STR_FOLD = {'partition', 'rpartition', 'strip', 'lstrip', 'rstrip', 'lower',
            'upper', 'replace', 'startswith', 'endswith'}


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def _same_states(a, b):
    if len(a) != len(b):
        return False
    bm = {s.rs: s for s in b}
    for s in a:
        o = bm.get(s.rs)
        if o is None or not (o is s or o.same(s)):
            return False
    return True


def _force(states):
    s = states[0]
    for o in states[1:]:
        s2 = join_state(s, o)
        s = s2
    return s


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return t
