"""What functions change and what their results share with what they were given.

For every function a summary, found to a fixpoint over the call graph:

  effects   (term, what): an object, as a term over the parameters of the
            function, that is changed in place
  result    the terms that may be returned, with what fresh containers hold

A call puts the terms of its arguments for the parameters.  What is made on
the way (displays, comprehensions, sums, slices, copies) is nobody else's.
"""
import ast

from .interp import (Interp, Client, State, NONE, MUTATORS, TOP, TOPT, cap, val,
                     consts_of)
from .project import AnalysisBroken

NONE_T = next(iter(NONE))

SHALLOW = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'dict', 'OrderedDict',
           'copy', 'reversed', 'iter', 'enumerate', 'zip', 'items', 'keys',
           'values', 'filter', 'map', 'chain', 'slice', 'deque', 'defaultdict',
           'from_iterable', 'islice', '__copy__'}
ELEMENT = {'get', 'pop', 'setdefault', 'popleft', 'popitem', 'next', 'max',
           'min', '__getitem__'}
CHANGES = (MUTATORS | {'popitem', 'move_to_end', '__setitem__', '__delitem__', '__iadd__',
                       'difference_update', 'intersection_update',
                       'symmetric_difference_update'})
ORDERED = {'sorted', 'list', 'OrderedDict'}
LIMIT = 12
# What a class made here leads to that was not made here.
BASES = {'__bases__', '__mro__'}


def access(t):
    """-> {(root term, steps)}: what the object is, from where it was got.
    steps: attribute names, '*' (an attribute chosen at run time), '[]' (an
    element), '~' (a new container of the same elements), '!' (it is no list,
    or an empty one)."""
    k = t[0]
    if k in ('p', 'self', 'gvar', 'mod', 'default'):
        return {(t, ())}
    if k in ('cls', 'o'):
        return {(t, ())}
    if k == 'a':
        return {(r, bare(s) + (t[2],)) for r, s in access(t[1])}
    if k in ('e', 'i'):
        out = set()
        bases = t[1] if isinstance(t[1], frozenset) else [t[1]]
        for b in bases:
            for r, s in access(b):
                while s and s[-1] in '~!':
                    s = s[:-1]
                out.add((r, s + ('[]',)))
        return out
    if k == 'r':
        name = t[1].split('.')[-1]
        if name == 'getattr' and t[3]:
            return {(r, bare(s) + ('*',)) for b in t[3][0] for r, s in access(b)}
        src = list(t[2]) or [b for a in t[3][:1] for b in a]
        if t[2] and any(b[0] in ('mod', 'ext') for b in t[2]):
            src = [b for a in t[3][:1] for b in a]
        if name in SHALLOW:
            return {(r, bare(s) + ('~',)) for b in src for r, s in access(b)}
        if name == 'no list':
            return {(r, bare(s) + ('!',)) for b in src for r, s in access(b)}
        if name in ELEMENT:
            out = {(r, bare(s) + ('[]',)) for b in src for r, s in access(b)}
            if name in ('get', 'setdefault', 'pop') and len(t[3]) > 1:
                for b in t[3][1]:
                    out |= access(b)
            return out
    return set()


def bare(s):
    return s[:-1] if s and s[-1] == '!' else s


def no_list(v):
    return frozenset(t if t[0] in ('c', 'top') or t[:2] == ('r', 'no list')
                     else cap(('r', 'no list', val(t), (), 0)) for t in v)


def subst(t, env, lim=LIMIT):
    """The term with the arguments for the parameters -> frozenset."""
    if not isinstance(t, tuple) or not t:
        return frozenset([t])
    if t[0] in ('p', 'self'):
        return env.get(t[1] if t[0] == 'p' else 'self', frozenset([TOPT]))
    if t[0] == 'a':
        return frozenset(cap(('a', b, t[2])) for b in subst(t[1], env))
    if t[0] in ('e', 'i'):
        if isinstance(t[1], frozenset):
            b = frozenset(y for x in t[1] for y in subst(x, env))
            return frozenset([cap((t[0], b) + t[2:])])
        return frozenset(cap((t[0], b) + t[2:]) for b in subst(t[1], env))
    if t[0] == 'r':
        rv = frozenset(y for x in t[2] for y in subst(x, env))
        args = tuple(frozenset(y for x in a for y in subst(x, env))
                     for a in t[3])
        if len(rv) > lim or any(len(a) > lim for a in args):
            return frozenset([TOPT])
        if t[1].split('.')[-1] == 'getattr' and len(args) > 1 and args[1] and \
                all(x[0] == 'c' and isinstance(x[2], str) for x in args[1]):
            return frozenset(cap(('a', b, x[2])) for b in args[0]
                             for x in args[1])
        return frozenset([cap(('r', t[1], rv, args) + t[4:])])
    if t[0] == 'T':
        return frozenset([cap(('T', tuple(
            frozenset(y for x in a for y in subst(x, env)) for a in t[1])))])
    return frozenset([t])


class Summary(object):
    def __init__(self):
        self.effects = {}       # (term, what) -> (Func, node, text)
        self.keeps = {}         # (receiver, attr, value) -> (Func, node)
        self.result = frozenset()
        self.heap = {}
        self.escaped = {}       # made here, kept in state and returned

    def key(self):
        return (frozenset(self.effects), frozenset(self.keeps), self.result,
                frozenset(self.heap.items()))


class Shares(Client):
    max_inline = 1
    small = 12              # and that call nothing of the project
    none_is_none = True

    def __init__(self, sums, f, watch=(), leaves=()):
        self.sums, self.f, self.watch = sums, f, watch
        self.leaves = leaves
        self.out = Summary()
        self.asked = set()      # functions called with switches set

    def falsy(self, v):
        return no_list(v)

    def failed(self, it, st, test):
        x = test
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id == 'isinstance' and len(x.args) == 2:
            kinds = x.args[1].elts if isinstance(x.args[1], ast.Tuple) \
                else [x.args[1]]
            if not any(isinstance(k, ast.Name) and k.id == 'list'
                       for k in kinds):
                return st
            x = x.args[0]
        if not isinstance(x, ast.Name):
            return st
        k = it.key(x.id)
        v = st.env.get(k)
        if not v or no_list(v) == v:
            return st
        st = st.copy()
        st.env[k] = no_list(v)
        return st

    def never_inline(self, f):
        return f.qual not in self.leaves

    def exceptions(self, it, st, ci):
        return ('Exception',)

    def lookup_exc(self, it, st, recv, key, node):
        return None

    # -- effects
    def effect(self, it, st, terms, what, node, text=None, by=None):
        terms = frozenset(u for t in terms for u in self.inside(it, st, t))
        for t in terms:
            if t[0] in ('L', 'D', 'c', 'T', 'ext', 'fn', 'top', 'lambda'):
                continue
            k = (t, what)
            if k not in self.out.effects and any(
                    r[0] != 'o' or BASES & set(s) for r, s in access(t)):
                self.out.effects[k] = by or (it.stack[-1][0], node, text)

    def attr_store(self, it, st, recv, attr, value, node):
        if value and all(self.same(it, st, v, recv, attr) for v in value):
            return st
        self.effect(it, st, recv, ('set', attr), node)
        st = self.escape(st, recv, attr, value)
        self.keep(it, st, recv, attr, value, node)
        return st

    def attr_load(self, it, st, recv, attr, node):
        """A class made from a dictionary has what the dictionary had."""
        if not recv or not all(t[0] == 'r' and t[1].split('.')[-1] == 'type'
                               and len(t[3]) == 3 for t in recv):
            return None
        out, key = frozenset(), ('c', 'str', attr)
        for t in recv:
            for d in t[3][2]:
                v = st.heap.get((d, ('k', key)))
                if d[0] != 'D' or v is None or ('maybe',) in v:
                    return None
                out |= v
            if (t, attr) in st.heap:
                out |= st.heap[(t, attr)]
        return st, out

    def escape(self, st, recv, key, value):
        """Remember what was made here and is now part of something else."""
        into = frozenset((r, key) for r in recv if access(r))
        if not into:
            return st
        todo, made = list(value), set()
        while todo and len(made) < 12:
            t = todo.pop()
            if t[0] in ('L', 'D') and t not in made:
                made.add(t)
                for (b, k), v in st.heap.items():
                    if b == t and k not in ('$lit', '$k'):
                        todo += list(v)
        old = frozenset(x for x in st.rs or () if (x[0], x[1]) not in into)
        new = frozenset((r, k, t) for r, k in into for t in made)
        return st.with_rs(old | new) if (old | new) != (st.rs or frozenset()) \
            else st

    def keep(self, it, st, recv, attr, value, node, by=None):
        if attr not in self.watch:
            return
        for r in recv:
            for v in value:
                for u in self.inside(it, st, v):
                    if len(self.out.keeps) < 200 and access(u):
                        self.out.keeps.setdefault(
                            (r, attr, u), by or (it.stack[-1][0], node))

    def same(self, it, st, v, recv, attr, sort=True):
        """The value is what the attribute holds, or that in order."""
        if v[:2] == ('r', 'no list'):
            return all(self.same(it, st, u, recv, attr) for u in v[2])
        if v[0] == 'r' and v[1].split('.')[-1] in ORDERED and sort and v[3]:
            return bool(v[3][0]) and all(
                self.same(it, st, u, recv, attr) for u in v[3][0])
        return v[0] == 'a' and v[2] == attr and v[1] in recv

    def attr_del(self, it, st, recv, attr, node):
        self.effect(it, st, recv, ('set', attr), node)
        return st

    def item_store(self, it, st, recv, key, value, node):
        self.effect(it, st, recv, ('items', 'put'), node)
        return self.escape(st, recv, key, value)

    def item_del(self, it, st, recv, key, node):
        self.effect(it, st, recv, ('items', 'out'), node)
        return st

    def augmented(self, it, st, target, value, node):
        if isinstance(node.op, (ast.Add, ast.BitOr)) and \
                not isinstance(node.target, ast.Attribute):
            how = [t for t in value if t[0] in ('L', 'D') or t[0] == 'r' and
                   t[1].split('.')[-1] in SHALLOW]
            if how:
                self.effect(it, st, target, ('items', 'in'), node)
        return st

    def binop_result(self, it, st, left, right):
        n = it.binop_node
        both = left | right
        if not isinstance(n.op, ast.Add) or not any(
                t[0] in ('L', 'T', 'a', 'e', 'p', 'r') for t in both) or \
                any(t[0] == 'c' and isinstance(t[2], (str, int, float))
                    for t in both):
            return None
        t = ('L', (it.stack[-1][0].qual, n.lineno, n.col_offset))
        x = st.copy()
        held = frozenset(u for u in it.elems(st, left) | it.elems(st, right)
                         if access(u) or u[0] in ('L', 'D', 'T', 'o'))
        x.heap[(t, '$e')] = x.heap.get((t, '$e'), frozenset()) | held
        if len(x.heap[(t, '$e')]) > LIMIT:
            x.heap[(t, '$e')] = TOP
        return x, val(t)

    def on_call(self, it, st, ci):
        name = ci.name.split('.')[-1]
        if name in CHANGES and ci.recv and not ci.targets:
            self.effect(it, st, ci.recv, ('items', 'order' if name in ('sort', 'reverse') else 'in'),
                        ci.node)
        if not ci.targets:
            if name in ('get', 'pop', 'setdefault') and ci.recv and ci.args \
                    and all(access(b) for b in ci.recv):
                key = next(iter(ci.args[0])) if len(ci.args[0]) == 1 and \
                    next(iter(ci.args[0]))[0] == 'c' else TOPT
                out = frozenset(cap(('i', b, key)) for b in ci.recv)
                out |= ci.args[1] if len(ci.args) > 1 else NONE
                return [(st, out)]
            return None
        if all(it.should_inline(g) for g in ci.targets):
            return None
        res = []
        for g in ci.targets:
            rv = ci.recv
            bound = frozenset(t[1] for t in ci.term or ()
                              if t[0] == 'bm' and t[2] == g.qual)
            if bound:
                rv = bound | frozenset(t for t in ci.recv or ()
                                       if t[0] not in ('o', 'self', 'cls'))
            if any(t[0] == 'cls' for t in ci.term or ()) and \
                    g.name == '__init__':
                continue
            argv = it.bind_args(g, rv, ci.args, ci.kw, st, ci.star)
            s = self.summary(g, argv)
            if s is None:
                res.append((st, TOP))
                continue
            env = {p: frozenset(list(v)[:LIMIT]) for p, v in argv.items()}
            if g.kind in ('method', 'setter') and g.params:
                env['self'] = env.get(g.params[0], frozenset())
            elif g.cls is not None and g.params:
                env['self'] = frozenset([('self', g.cls.qual)])
            self.called(it, st, s, env, ci.node)
            res.append(self.returned(it, st, s, env))
        for x, _ in res[:1]:
            for e in self.exceptions(it, st, ci):
                it.raise_(x, e)
        if not res:
            return None
        return res

    def summary(self, g, argv):
        """What the function does, asked with these switches if it is given
        any and changes something."""
        s = self.sums.get(g.qual)
        if s is None or not s.effects:
            return s
        on = frozenset((p, next(iter(v))) for p, v in argv.items()
                       if len(v) == 1 and next(iter(v))[0] == 'c' and
                       isinstance(next(iter(v))[2], bool))
        if not on:
            return s
        self.asked.add((g.qual, on))
        return self.sums.get((g.qual, on), s)

    def called(self, it, st, s, env, node):
        for (t, what), by in s.effects.items():
            for u in subst(t, env):
                self.effect(it, st, val(u), what, node, by=by)
        for (r, attr, v), by in s.keeps.items():
            self.keep(it, st, frozenset(
                w for u in subst(r, env) for w in self.inside(it, st, u)),
                attr, subst(v, env), node, by)

    def inside(self, it, st, t, n=0):
        """Elements and fields of what was made here are what was put in."""
        if n > 6:
            return frozenset([t])
        if t[0] == 'a':
            out = frozenset()
            for b in self.inside(it, st, t[1], n + 1):
                v = st.heap.get((b, t[2]))
                u = cap(('a', b, t[2]))
                out |= frozenset([u]) if v is None or u in v else frozenset(
                    w for x in v for w in self.inside(it, st, x, n + 1))
            return out
        if t[0] in ('e', 'i'):
            out = frozenset()
            for base in t[1] if isinstance(t[1], frozenset) else [t[1]]:
                for b in self.inside(it, st, base, n + 1):
                    u = cap((t[0], b) + t[2:])
                    if b[0] not in ('L', 'D', 'T'):
                        out |= frozenset([u])
                        continue
                    if b[0] == 'D' and t[0] == 'i':
                        vs = self.held(st, b, t[2])
                    else:
                        vs = it.elems(st, val(b))
                    out |= frozenset(
                        w for x in vs if x not in (t, u)
                        for w in self.inside(it, st, x, n + 1))
            return out
        if t[0] == 'r' and t[1].split('.')[-1] in ELEMENT and t[2]:
            key = next(iter(t[3][0])) if t[3] and len(t[3][0]) == 1 else None
            out = frozenset()
            for base in t[2]:
                for b in self.inside(it, st, base, n + 1):
                    if b[0] == 'D':
                        out |= frozenset(
                            w for x in self.held(st, b, key) if x != t
                            for w in self.inside(it, st, x, n + 1))
                    elif b != base:
                        out |= frozenset([cap(('i', b, key or TOPT))])
                    else:
                        out |= frozenset([t])
            return out or frozenset([t])
        return frozenset([t])

    def held(self, st, b, key=None):
        """The values a dictionary made here may hold for the key."""
        at = {h[1][1]: v for h, v in st.heap.items()
              if h[0] == b and isinstance(h[1], tuple) and h[1][0] == 'k'}
        out = frozenset(st.heap.get((b, '$v'), ()))
        if key in at:
            out = at[key]
        elif key is None or key[0] != 'c':
            for v in at.values():
                out |= v
        return out - frozenset([('maybe',)])

    def now(self, it, st, v, env):
        return frozenset(w for y in v for z in subst(y, env)
                         for w in self.inside(it, st, z))

    def returned(self, it, st, s, env):
        x = st
        if s.heap:
            x = st.copy()
            for (b, k), v in s.heap.items():
                x.heap[(b, k)] = tuple(self.now(it, st, w, env) for w in v) \
                    if k == '$lit' else self.now(it, st, v, env)
        out = self.now(it, x, s.result, env)
        return x, out if len(out) <= 2 * LIMIT else TOP

    def finish(self, rets):
        for st, v in rets:
            v = frozenset(t for t in v
                          if st.facts.get(('==', t, NONE_T)) is not True)
            for r, k, t in st.rs or ():
                if t in v:
                    self.out.escaped[t] = r
            self.out.result |= v
            todo, seen = list(v), set()
            while todo and len(seen) < 20:
                t = todo.pop()
                if t in seen or t[0] not in ('L', 'D', 'T', 'r'):
                    continue
                seen.add(t)
                if t[0] == 'r':
                    if t[1].split('.')[-1] == 'deepcopy':
                        continue
                    for a in t[3] + (t[2],):
                        todo += list(a)
                    continue
                if t[0] == 'T':
                    for a in t[1]:
                        todo += list(a)
                for (b, k), w in st.heap.items():
                    if b != t or k == '$lit':
                        continue
                    old = self.out.heap.get((b, k), frozenset())
                    self.out.heap[(b, k)] = old | w
                    todo += list(w)
        if len(self.out.result) > 2 * LIMIT:
            self.out.result = TOP


def summaries(proj, cg, quals, rounds=5, budget=60000, watch=()):
    """{qual: Summary} of the functions, callees first, to a fixpoint."""
    quals = sorted(quals)
    order, seen = [], set()

    def go(q):
        stack = [(q, iter(sorted(cg.edges.get(q, ()))))]
        seen.add(q)
        while stack:
            u, es = stack[-1]
            for w in es:
                if w in quals_set and w not in seen:
                    seen.add(w)
                    stack.append((w, iter(sorted(cg.edges.get(w, ())))))
                    break
            else:
                stack.pop()
                order.append(u)
    quals_set = set(quals)
    for q in quals:
        if q not in seen:
            go(q)
    sums, failed = {}, set()
    dirty, users = set(order), {}
    leaves = {q for q in quals if not cg.edges.get(q)}
    for _ in range(rounds):
        nxt = set()
        for q in list(order):
            if q not in dirty or q in failed:
                continue
            name, on = q if isinstance(q, tuple) else (q, ())
            f = proj.funcs[name]
            c = Shares(sums, f, watch, leaves)
            it = Interp(proj, c, None, budget=budget)
            try:
                rets, excs = it.run(f, bind={p: val(v) for p, v in on})
            except AnalysisBroken:
                failed.add(q)
                continue
            c.finish(rets)
            for k in c.asked:
                users.setdefault(k, set()).add(q)
                if k not in sums and k not in failed and k not in order:
                    order.insert(order.index(k[0]) + 1, k)
                    nxt.add(k)
            old = sums.get(q)
            sums[q] = c.out
            if old is None or old.key() != c.out.key():
                nxt |= users.get(q, set())
                for p in order:
                    if name in cg.edges.get(
                            p[0] if isinstance(p, tuple) else p, ()):
                        nxt.add(p)
        dirty = nxt
        if not dirty:
            break
    return sums, failed
