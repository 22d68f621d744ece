"""C10: following links that lead back ends."""
import ast

from ..core import Rule
from ..interp import Interp, Client, State, NONE, const
from ..project import AnalysisBroken, own_walk, dotted

LINKS = {'EXECUTE_IN', 'INSTANCE_PATH'}
MAPS = {'_dirty_map'}
SHORTER = ('parent_path', 'parent_layer')


def loads_link(nodes):
    for n in nodes:
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and \
                (n.attr in LINKS or n.attr in MAPS):
            return True
    return False


def strip(t):
    """The term without the places calls in it were made at."""
    if isinstance(t, tuple):
        if t and t[0] == 'r' and len(t) > 4:
            return ('r', t[1], strip(t[2]), strip(t[3]))
        return tuple(strip(x) for x in t)
    if isinstance(t, frozenset):
        return frozenset(strip(x) for x in t)
    return t


def parts(t, out=None):
    out = set() if out is None else out
    if isinstance(t, (tuple, frozenset)):
        if isinstance(t, tuple) and t and isinstance(t[0], str):
            out.add(t)
        if isinstance(t, tuple) and t[:2] == ('r', 'slice'):
            return out  # not in a part of it does not mean not in it
        for x in t:
            parts(x, out)
    return out


class Guard(Client):
    """State: (loops and calls under way with whether this round is new,
    (value, collection it was seen to be missing in), made this round)."""
    small = 20
    exact_exc = True
    aging = True

    def __init__(self, rule, f):
        self.rule, self.f = rule, f
        self.loops, self.calls = {}, {}
        self.growth, self.cats = 0, {}

    def binop_result(self, it, st, left, right):
        if not all(t[0] in ('L', 'r', 'cat', 'p', 'a', 'T')
                   for t in left | right):
            return None
        t = self.cats.setdefault((left, right), ('cat', len(self.cats)))
        return frozenset([t])

    def bases(self, coll):
        out = parts(coll)
        for (a, b), t in list(self.cats.items()):
            if t in out:
                out |= self.bases(a) | self.bases(b)
        return out

    # -- rounds
    def start(self, st, key):
        rounds, pend, fresh = st.rs
        rounds = frozenset(x for x in rounds if x[0] != key) | {(key, False)}
        return st.with_rs((rounds, frozenset(), frozenset()))

    def stop(self, st, key):
        rounds, pend, fresh = st.rs
        rounds = frozenset(x for x in rounds if x[0] != key)
        if not rounds:
            pend = fresh = frozenset()
        return st.with_rs((rounds, pend, fresh))

    def proved(self, st, coll=True):
        rounds, pend, fresh = st.rs
        return st.with_rs((frozenset((k, o if o is True else coll)
                                     for k, o in rounds), pend, fresh))

    def loop_iter(self, it, st, node, first):
        if id(node) not in self.rule.loops:
            return st
        f = it.stack[-1][0]
        ok = dict(st.rs[0]).get(id(node))
        self.loops.setdefault(id(node), [f, node, True])
        if ok is False:
            self.loops[id(node)][2] = False
        # what the test of the loop has shown counts
        return self.start(st, id(node)).with_rs(
            (self.start(st, id(node)).rs[0], st.rs[1], frozenset()))

    def loop_test(self, it, st, node):
        if id(node) not in self.rule.loops:
            return st
        return st.with_rs((st.rs[0], frozenset(), st.rs[2]))

    def loop_exit(self, it, st, node):
        return self.stop(st, id(node))

    def on_leave(self, it, st, f, value):
        rounds, pend, fresh = st.rs
        own = {id(n) for n in own_walk(f.node)}
        return st.with_rs((frozenset(x for x in rounds if x[0] not in own),
                           pend, fresh))

    # -- evidence
    def list_made(self, it, st, term, values):
        rounds, pend, fresh = st.rs
        if not rounds:
            return st
        return st.with_rs((rounds, pend, fresh | {term}))

    def tested(self, it, st, item, coll, result):
        rounds, pend, fresh = st.rs
        vs = {strip(v) for v in item}
        if not result and vs:
            pend |= {(v, strip(b)) for v in vs for b in self.bases(coll)}
        return st.with_rs((rounds, pend, fresh))

    def passing(self, t, rounds):
        """A list that is made anew each time around a loop."""
        if t[0] != 'L' or len(t[1]) < 3:
            return False
        for k, ok in rounds:
            if k in self.loops and not ok:
                f, n = self.loops[k][:2]
                if f.qual == t[1][0] and \
                        n.lineno <= t[1][1] <= n.end_lineno:
                    return True
        return False

    def growing(self, it, st, coll, value):
        rounds, pend, fresh = st.rs
        self.growth += 1
        vs = {strip(v) for v in value}
        for b in coll:
            if b not in fresh and vs and not self.passing(b, rounds) and \
                    all((v, strip(b)) in pend for v in vs):
                return self.proved(st, b)
        for n, name in self.rule.grown.get(it.stack[-1][0].qual, ()):
            cur = st.env.get((it.stack[-1][0].qual, name))
            if cur and cur & coll and not all(
                    (v, strip(b)) in pend for v in vs for b in coll):
                self.loops[id(n)] = [it.stack[-1][0], n, False]
        return st

    def on_call(self, it, st, ci):
        name = ci.name.split('.')[-1]
        if name == 'lookup' and len(ci.args) == 1 and ci.recv and \
                self.rule.adders.get(ci.func.qual):
            # a comp layer is asked for the node at a path
            none = self.tested(it, st, ci.args[0], ci.recv, False)
            return [(none, NONE), (st, frozenset([
                ('R', 'node', ci.node.lineno, ci.node.col_offset)]))]
        if name == 'add_node_to_comp_layer' and len(ci.args) > 2:
            return [(self.growing(it, st, ci.args[2], ci.args[0]), NONE)]
        for g in ci.targets or ():
            if g.qual in self.rule.guards:
                return [(self.proved(st), const(False)), (st, const(True))]
            if g.qual in self.rule.bounded and g is not self.f and \
                    g.qual not in self.rule.recursive:
                return [(self.proved(st), frozenset([
                    ('r', g.name, frozenset(), (), ci.node.lineno)]))]
            if any(fr[0] is g for fr in it.stack) and \
                    g.qual in self.rule.recursive:
                ok = dict(st.rs[0]).get(g.qual)
                if isinstance(ok, tuple) and ok[0] in ('p', 'L', 'o', 'r'):
                    # what was met has to be known in the next call too
                    ok = any(ok in parts(a) for a in
                             list(ci.args) + list(ci.kw.values()))
                names = {x[2] for a in list(ci.args) + list(ci.kw.values())
                         for x in parts(a) if x[0] == 'a' and len(x) > 2}
                if not ok and not any(s in str(n).lower() for n in names
                                      for s in SHORTER):
                    self.calls.setdefault((g.qual, ci.func.qual),
                                          (g, ci.func, ci.node))
                return [(st, NONE), (st, frozenset([('r', g.name, frozenset(),
                                                     (), ci.node.lineno)]))]
        return None

    def on_enter(self, it, st, f, node):
        if f is self.f and f.qual in self.rule.recursive and \
                f.qual not in dict(st.rs[0]):
            return self.start(st, f.qual)
        return st

    def exceptions(self, it, st, ci):
        return ()

    def lookup_exc(self, it, st, recv, key, node):
        return None


class Walk(Client):
    """State: an equal path was met."""

    def branch(self, it, st, test, truth):
        eq = [n for n in ast.walk(test) if isinstance(n, ast.Compare)
              and isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and any(
                  isinstance(x, ast.Attribute) and 'path' in x.attr
                  for x in ast.walk(n))]
        if len(eq) == 1 and eq[0] is test:
            if truth == isinstance(test.ops[0], ast.Eq):
                return st.with_rs(True)
        return st

    def exceptions(self, it, st, ci):
        return ()


class Rules(object):
    pass


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    r = Rules()
    r.loops, r.guards, r.bounded, r.recursive, r.grown = {}, {}, {}, {}, {}
    r.adders = {}
    funcs = {q: f for q, f in proj.funcs.items()
             if '.test.' not in '.%s.' % f.module.name}
    links = {q for q, f in funcs.items() if loads_link(own_walk(f.node))}
    reads = {q for q, f in funcs.items()
             if any(isinstance(n, ast.Call) and
                    (dotted(n.func) or '').endswith('load_file_data')
                    for n in own_walk(f.node))}
    for q, f in funcs.items():
        body = list(own_walk(f.node))
        r.adders[q] = any(isinstance(n, ast.Call) and (dotted(
            n.func) or '').endswith('.add_node_to_comp_layer') for n in body)
        names = {n.attr for n in body if isinstance(n, ast.Attribute)}
        if any(isinstance(n, (ast.While, ast.For)) for n in body) and \
                'parent_layer' in names and any(
                    isinstance(n, ast.Compare) and any(
                        getattr(x, 'attr', None) == 'real_path'
                        for x in ast.walk(n)) for n in body) and \
                all(x.value is not None and (
                    isinstance(x.value, ast.Constant) or
                    any(x.value in ns for ns in
                        [cg.edges.get(q, {}).get(q, ())]))
                    for x in body if isinstance(x, ast.Return)):
            r.guards[q] = 'layers'
        called = {proj.funcs[g].name for g in cg.edges.get(q, ())}
        if {'get_instance_sources', 'is_ancestor'} <= called and any(
                isinstance(x, ast.Return) and x.value is not None and
                getattr(x.value, 'value', 0) is not False for x in body) and \
                any(isinstance(x, ast.Return) and
                    getattr(x.value, 'value', 0) is False for x in body):
            r.guards[q] = 'instances'
    for q, f in funcs.items():
        if any(r.guards.get(g) == 'instances' for g in cg.edges.get(q, ())):
            r.bounded[q] = f
    for q, f in funcs.items():
        for n in own_walk(f.node):
            if isinstance(n, ast.While):
                inner = [x for s in n.body for x in ast.walk(s)]
                calls = {g for g, ns in cg.edges.get(q, {}).items()
                         if any(c in inner for c in ns)}
                counting = isinstance(n.test, ast.Compare) and isinstance(
                    n.test.ops[0], ast.NotEq) and all(
                        isinstance(x, ast.Name) for x in
                        [n.test.left] + n.test.comparators)
                if counting:
                    for g, ns in cg.edges.get(q, {}).items():
                        if q not in r.bounded and any(c in inner for c in ns) and any(
                                isinstance(x, ast.Call) and isinstance(
                                    x.func, ast.Attribute) and
                                x.func.attr == 'children'
                                for x in own_walk(proj.funcs[g].node)):
                            r.bounded[g] = proj.funcs[g]
                    # goes on for as long as nodes were created, `Made` checks
                    # what is to be created
                    continue
                if loads_link(inner) or any(
                        g in links and len(list(ast.walk(
                            proj.funcs[g].node))) < 60 for g in calls):
                    r.loops[id(n)] = (f, n)
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and \
                    q in links:
                nm = n.iter.id
                for x in (y for s in n.body for y in ast.walk(s)):
                    if isinstance(x, ast.AugAssign) and getattr(
                            x.target, 'id', None) == nm or \
                            isinstance(x, ast.Call) and isinstance(
                                x.func, ast.Attribute) and x.func.attr in (
                                    'append', 'extend', 'insert') and getattr(
                                        x.func.value, 'id', None) == nm:
                        r.grown.setdefault(q, set()).add((n, nm))
    for scc in sccs(cg, funcs):
        if len(scc) == 1 and scc[0] not in cg.edges.get(scc[0], ()):
            continue
        if scc[0] == 'nxt.stage.Stage.targeted_uncomp':
            continue  # from a node to descendants of it
        if any(q in links or q in reads for q in scc):
            for q in scc:
                r.recursive[q] = set(scc)
    roots = {f.qual for f, _ in r.loops.values()} | set(r.recursive) | \
        set(r.grown)
    nl, done = 0, set()
    for q in sorted(roots):
        if q in done:
            continue
        scc = r.recursive.get(q, set())
        done |= scc
        best = None
        # it is enough to find each round new when it is seen to start at one
        # of the functions that call each other
        for q1 in [q] + sorted(scc - {q}):
            c, it = explore(proj, r, funcs[q1], q1)
            bad = len(c.calls) + sum(not x[2] for x in c.loops.values())
            if best is None or bad < best[0]:
                best = (bad, q1, c, it)
            if not bad:
                break
        bad, q1, c, it = best
        ctx.analysed(it.inlined)
        for g, n, ok in c.loops.values():
            nl += 1
            ctx.obligation('%s: each round of the loop adds something new'
                           % g.where)
            if not ok:
                ctx.violation('%s:loop' % g.where, g, 'the loop goes round '
                              'without having met anything new', n)
        if scc:
            ctx.obligation('%s: each call of itself has met something new'
                           % funcs[q1].where)
        for g, h, n in c.calls.values():
            ctx.violation('%s:%s' % (h.where, g.name), h, '%s is called again '
                          'without having met anything new' % g.name, n)
    ctx.count('loops along links', nl + len(r.grown), 2)
    ctx.count('recursions along links', len(r.recursive), 4)
    n = 0
    for q, kind in sorted(r.guards.items()):
        f = funcs[q]
        if kind != 'layers':
            continue
        n += 1
        it = Interp(proj, Walk(), None)
        rets, _ = it.run(f, State(rs=False))
        ctx.obligation('%s: tells of every ancestor that is the same' % f.where)
        for s, v in rets:
            if s.rs and v != const(True):
                ctx.violation('%s:tells' % f.where, f, 'an ancestor that is the '
                              'same is not told of')
        steps = [x for x in own_walk(f.node)
                 if isinstance(x, ast.Assign) and isinstance(
                     x.value, ast.Attribute) and x.value.attr == 'parent_layer'
                 or x in cg.edges.get(q, {}).get(q, ())]
        if not steps:
            ctx.violation('%s:walks' % f.where, f, 'does not compare with every '
                          'ancestor')
    # what is created for an instance is created behind the guard
    r.possible = set()
    for q, f in sorted(r.bounded.items()):
        c = Made(r)
        it = Interp(proj, c, None)
        rets, _ = it.run(f, State(rs=(False, frozenset())))
        given = [s.rs[0] for s, v in rets
                 if not all(t in (('c', 'NoneType', None), ('c', 'bool', False))
                            for t in v)]
        if given and all(given) and not c.n:
            r.possible.add(q)
    for q, f in sorted(r.bounded.items()):
        c = Made(r)
        it = Interp(proj, c, None)
        rets, _ = it.run(f, State(rs=(False, frozenset())))
        if c.n:
            ctx.obligation('%s: nothing is to be created unchecked' % f.where)
        if any(v & s.rs[1] for s, v in rets):
            ctx.violation('%s:unchecked' % f.where, f, 'something is to be '
                          'created without its instance trace being checked')



def explore(proj, r, f, q):
    for small in (0, 8, 16):
        c2 = Guard(r, f)
        c2.small = small
        it2 = Interp(proj, c2, None)
        it2.interesting = set(r.recursive.get(q, ()))
        try:
            it2.run(f, State(rs=(frozenset(), frozenset(), frozenset())))
        except AnalysisBroken:
            if small:
                break
            raise
        c, it = c2, it2
        if not c.calls and all(x[2] for x in c.loops.values()):
            break
    return c, it


class Made(Client):
    """State: (whether the guard was False, collections grown without it)."""
    small = 0
    exact_exc = True

    def __init__(self, r):
        self.r, self.n = r, 0

    def on_call(self, it, st, ci):
        if any(g.qual in self.r.guards for g in ci.targets or ()):
            return [(st.with_rs((True, st.rs[1])), const(False)),
                    (st, const(True))]
        if any(g.qual in self.r.possible for g in ci.targets or ()):
            return [(st.with_rs((True, st.rs[1])), frozenset([
                ('R', 'possible', ci.node.lineno, 0)])), (st, NONE)]
        return None

    def growing(self, it, st, coll, value):
        self.n += 1
        return st if st.rs[0] else st.with_rs((False, st.rs[1] | coll))

    def exceptions(self, it, st, ci):
        return ()


def sccs(cg, funcs):
    idx, low, on, st, out = {}, {}, set(), [], []

    def go(v):
        work = [(v, iter(sorted(cg.edges.get(v, ()))))]
        idx[v] = low[v] = len(idx)
        st.append(v)
        on.add(v)
        while work:
            u, es = work[-1]
            for w in es:
                if w not in funcs:
                    continue
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(cg.edges.get(w, ())))))
                    break
                if w in on:
                    low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == u:
                            break
                    out.append(c)
    for q in sorted(funcs):
        if q not in idx:
            go(q)
    return out


RULE = Rule('C10', run, 'progress of every loop and recursion along links: each '
            'round meets something tested to be new')
