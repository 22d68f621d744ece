"""C22: disabled nodes do not run, all other listed nodes do."""
import ast

from ..core import Rule
from ..interp import (Interp, Client, State, val, const, NONE, consts_of,
                      mentions)
from ..project import dotted
from .c06_run_state import calls_exec, graph_errors

EXECUTE = 'Stage.execute_nodes'
ORDER = 'SpecLayer.get_exec_order'
ENABLED = '_enabled'
ON, OFF, UNSET = 'enabled', 'disabled', 'without an enabled state'
HIERARCHY = {'is_ancestor', 'startswith', 'all_ancestor_paths',
             'get_parent_path', 'commonprefix'}


class Enabled(Client):
    """rule state: ({(node, its enabled state)}, node not run yet, blocked)"""
    small = 14
    exact_exc = True
    failing = frozenset()

    def __init__(self, runners, skip, asker):
        self.runners, self.skip, self.asker = runners, skip, asker
        self.asked = self.ran = self.consulted = 0
        self.bad = {}
        self.vals = []
        self.sites = set()

    def never_inline(self, f):
        return f.qual in self.runners or f.qual in self.skip

    def intern(self, v):
        self.vals.append(v)
        return self.vals.index(v)

    def lookup_exc(self, it, st, recv, key, node):
        return None

    def exceptions(self, it, st, ci):
        # what runs a node may fail before the code is entered
        return ('GraphError',) if any(f.qual in self.failing
                                      for f in ci.targets or ()) else ()

    def ask(self, it, st, node):
        self.asked += 1
        got = {n: s for n, s in st.rs[0]}
        out = []
        for how, v in ((ON, True), (OFF, False), (UNSET, None)):
            if got.get(node, how) != how:
                continue
            rs = (st.rs[0] | {(node, how)},) + st.rs[1:]
            out.append((st.with_rs(rs), const(v)))
        return out

    def status(self, st, v):
        return {s for n, s in st.rs[0] if n == v or any(
            mentions(x, t) for x in n for t in v)}

    def close(self, st):
        """The node looked up before is done with."""
        p = st.rs[1]
        if p is not None:
            how = self.status(st, p) - {OFF}
            if how and not all(st.facts.get(('t', t)) is False for t in p):
                self.bad[('skipped', sorted(how)[0])] = (
                    'a node %s is skipped' % sorted(how)[0])
        return st

    def on_call(self, it, st, ci):
        tq = {f.qual for f in ci.targets or ()}
        last = ci.name.split('.')[-1]
        if last == 'lookup' and ci.args:
            st = self.close(st)
            self.sites.add((it.stack[-1][0].qual, ci.node.lineno))
            v = val(('node', self.intern(ci.args[0])))
            keep = frozenset((n, s) for n, s in st.rs[0] if n != v)
            st = st.with_rs((keep, v, False))
            st.facts = {k: b for k, b in st.facts.items()
                        if not any(mentions(k, t) for t in v)}
            return [(st, v)]
        if self.asker in tq and ci.args:
            return self.ask(it, st, ci.args[0])
        if ci.name == 'getattr' and len(ci.args) >= 2 and \
                consts_of(ci.args[1]) == [ENABLED]:
            return self.ask(it, st, ci.args[0])
        if tq & self.runners:
            self.ran += 1
            node = st.rs[1]
            if node is not None:
                got = self.status(st, node)
                if not got:
                    self.bad['unasked'] = ('a node is run without asking '
                                           'whether it is enabled')
                if OFF in got:
                    self.bad['run'] = 'a disabled node is run'
            st = st.with_rs((st.rs[0], None, st.rs[2]))
            it.raise_(st, 'GraphError')
            it.raise_(st, 'ExitNode')
            it.raise_(st, 'ExitGraph')
            return [(st, NONE)]
        if last in HIERARCHY:
            self.consulted += 1
            if last in ('is_ancestor', 'startswith'):
                if any(t[0] == 'e' and "'slice'" in repr(t)
                       for a in ci.args for t in a):
                    self.bad['some'] = ('only some of the disabled nodes are '
                                        'compared with a node after them')
                return [(st.with_rs(st.rs[:2] + (True,)), const(True)),
                        (st, const(False))]
        if ci.name == 'any':
            inside = any(getattr(n, 'func', None) is not None and
                         (dotted(n.func) or '?').split('.')[-1] in HIERARCHY
                         for n in ast.walk(ci.node))
            return [(st, const(st.rs[2]) if inside else val(('any',)))]
        return None

    def after_for(self, it, st, node):
        q = it.stack[-1][0].qual
        if any(x == q and node.lineno <= n <= node.end_lineno
               for x, n in self.sites):
            return self.close(st)
        return st


class Order(Enabled):
    """What get into the execution order."""
    def __init__(self, runners, skip, asker, start, from_root):
        Enabled.__init__(self, runners, skip, asker)
        self.start, self.from_root = start, from_root
        self.added = {}
        self.adds = 0
        self.order = None       # the lists that are the order, once known

    def close(self, st):
        if self.from_root and not st.rs[2]:
            return Enabled.close(self, st)
        return st

    def branch(self, it, st, test, truth):
        if self.from_root:
            # the start is the first root
            for k, v in st.facts.items():
                if k[0] == '==' and v is False and self.start in k[1:] and \
                        not any(t[0] == 'c' or "'desc'" in repr(t)
                                for t in k[1:]):
                    return None
        return st

    def on_call(self, it, st, ci):
        last = ci.name.split('.')[-1]
        if last in ('+=', 'append', 'extend', 'insert') and ci.recv and ci.args:
            x = ci.args[-1]
            e = x if last in ('append', 'insert') else it.elems(st, x)
            self.add(it, st, ci.recv, e)
            if last == '+=':
                return [(self.put(st, ci.recv, e), NONE)]
        if last == 'descendants':
            of = ci.arg(0, 'node_path')
            if of is not None:
                return [(st, val(('desc', self.intern(of))))]
        if last == 'get_root_exec_order':
            return [(st, val(('roots',)))]
        return Enabled.on_call(self, it, st, ci)

    def status(self, st, v):
        return {s for n, s in st.rs[0] if n == v or any(
            y[0] == 'node' and self.vals[y[1]] & v for y in n)}

    def put(self, st, lists, elem):
        if self.order is not None and not self.order & lists:
            return st
        p = st.rs[1]
        if p is not None and any(y[0] == 'node' and self.vals[y[1]] & elem
                                 for y in p):
            return st.with_rs((st.rs[0], None, st.rs[2]))
        return st

    def after_call(self, it, st, ci, result):
        last = ci.name.split('.')[-1]
        if last in ('append', 'extend', 'insert') and ci.recv and ci.args:
            x = ci.args[-1]
            return self.put(st, ci.recv, it.elems(st, x) if last == 'extend'
                            else x), result
        return None

    def root_off(self, st, elem):
        off = {n for n, s in st.rs[0] if s == OFF}
        return any(mentions(t, ('desc', y[1])) for t in elem for n in off
                   for y in n if y[0] == 'node')

    def add(self, it, st, lists, elem):
        self.adds += 1
        own = self.status(st, elem)
        why = None
        if OFF in own:
            why = 'a disabled node is put in the execution order'
        elif not own:
            why = ('a node is put in the execution order without asking '
                   'whether it is enabled')
        elif st.rs[2]:
            why = ('a node under a disabled node is put in the execution '
                   'order')
        elif self.from_root and self.root_off(st, elem):
            why = ('a node under a disabled root is put in the execution '
                   'order')
        if why:
            for t in lists:
                self.added.setdefault(t, set()).add(why)


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    asker = proj.func('nxt_node.get_node_enabled').qual
    f = proj.func(EXECUTE)
    runners = {q for q in cg.reachable([f.qual])
               if calls_exec(proj, proj.funcs[q])}
    skip = {proj.func(x).qual for x in (
        'Stage.setup_runtime_layer', 'Stage.build_stage',
        'Stage.set_runtime_parameters')}
    c = Enabled(runners, skip, asker)
    c.failing = graph_errors(proj, cg)
    it = Interp(proj, c, None)
    it.interesting = cg.callers_closure(runners | {asker})
    it.run(f, State(rs=(frozenset(), None, False)))
    ctx.analysed(it.inlined)
    ctx.count('node executions interpreted', c.ran, 1)
    ctx.obligation('%s: each listed node is run unless it is disabled' % f.where)
    for k, why in sorted(c.bad.items(), key=repr):
        ctx.violation('%s:%s' % (f.where, k if isinstance(k, str) else
                                 '-'.join(k).replace(' ', '-')), f, why)
    g = proj.func(ORDER)
    adds = 0
    for from_root in (False, True):
        start = ('p', 'start_path')
        c = Order(runners, skip, asker, start, from_root)
        for _ in range(2 if from_root else 1):
            it = Interp(proj, c, None)
            it.interesting = {asker}
            c.bad = {}
            rets, _x = it.run(g, State(rs=(frozenset(), None, False)),
                              bind={'start_path': val(start)})
            c.order = {t for _, v in rets for t in v}
        ctx.analysed(it.inlined)
        adds += c.adds
        ctx.obligation('%s%s: every path put in the order was asked for its '
                       'enabled state' % (g.where, ' from a root' if from_root
                                          else ''))
        for k, why in sorted(c.bad.items(), key=repr):
            if k == 'some':
                ctx.violation('%s:%s' % (g.where, k), g, why)
            if k[0] == 'skipped':
                ctx.violation('%s:%s' % (g.where, '-'.join(k)), g,
                              why.replace('skipped', 'left out of the '
                                          'execution order'))
        lists = {t for _, v in rets for t in v}
        for t in lists:
            for why in sorted(c.added.get(t, ())):
                ctx.violation('%s:%s' % (g.where, why.replace(' ', '-')), g, why)
        if c.asked and not c.consulted:
            ctx.violation('%s:descendants' % g.where, g, 'the nodes under a '
                          'disabled node are not kept out of the execution '
                          'order')
    ctx.counts['additions to the execution order'] = adds


RULE = Rule('C22', run, 'path sensitive interpretation over the three enabled '
            'states of every node looked up')
