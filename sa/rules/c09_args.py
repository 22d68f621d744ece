"""C09: what an execution is asked for is what is executed."""
import ast

from ..core import Rule
from ..interp import (Interp, Client, State, val, const, NONE, TOPT, consts_of)
from ..project import own_walk, dotted
from .c06_run_state import calls_exec

RUN_PROCESS = {'subprocess.' + x for x in (
    'call', 'Popen', 'run', 'check_call', 'check_output')}
FALSE = const(False)


def P(x):
    return ('p', x)


class Flow(Client):
    """rule state: (sinks reached, {(list, label)} put in it for certain,
    {(file term, label)} written to it)"""
    small = 0

    def __init__(self, proj, sources, sinks, given):
        self.proj, self.sources, self.sinks = proj, sources, sinks
        self.given = given
        self.reached = 0
        self.bad = {}
        self.loopy = set()
        self.lists = set()

    def never_inline(self, f):
        if f.qual in self.skip:
            return True
        if not self.small:
            return False
        return f.cls is not None and f.cls.name not in self.where or \
            f.cls is None and f.module.name not in self.where

    # ---------------------------------------------------------------- labels
    def labels(self, it, st, v, depth=0, any_=False):
        """Labels every / any of the alternatives of a value carries;
        None when a value is not known."""
        out = None
        for t in v:
            if t == TOPT or t == ('maybe',):
                continue
            g = self.of(it, st, t, depth)
            if g is None:
                continue
            out = g if out is None else (out | g if any_ else out & g)
        return out

    def of(self, it, st, t, depth=0):
        if t in self.sources:
            return frozenset([t])
        k = t[0]
        if k == 'from':
            return t[1]
        if t == TOPT:
            return None
        out = frozenset()
        if depth > 5:
            return out
        if k in ('L', 'D', 'o'):
            if t in self.lists:
                out |= {q for x, q in st.rs[1] if x == t}
                out |= {q for x, q in self.loopy if x == t}
                return out
            unknown = False
            for hk, hv in st.heap.items():
                if hk[0] == t and hk[1] != '$lit':
                    g = self.labels(it, st, hv, depth + 1, any_=True)
                    unknown = unknown or g is None
                    out |= g or frozenset()
            return None if unknown and not out else out
        out |= {q for x, q in st.rs[2] if x == t}
        for x in t[1:]:
            if isinstance(x, frozenset):
                g = self.labels(it, st, x, depth + 1, any_=True)
                out |= g or frozenset()
            elif isinstance(x, tuple) and x:
                if isinstance(x[0], str):
                    g = self.of(it, st, x, depth + 1)
                    out |= g or frozenset()
                else:
                    for y in x:
                        if isinstance(y, frozenset):
                            g = self.labels(it, st, y, depth + 1, any_=True)
                            out |= g or frozenset()
        return out

    def every(self, it, st, vals):
        out = frozenset()
        for v in vals:
            out |= self.labels(it, st, v) or frozenset()
        return out

    # ----------------------------------------------------------------- lists
    def list_made(self, it, st, term, values):
        self.lists.add(term)
        got = {(term, q) for v in values
               for q in ((self.labels(it, st, v[1], any_=True)
                          if isinstance(v, tuple) else
                          self.labels(it, st, v)) or ())}
        keep = {x for x in st.rs[1] if x[0] != term}
        return st.with_rs((st.rs[0], frozenset(keep | got), st.rs[2]))

    def grow(self, it, st, recv, elem, node):
        got = self.labels(it, st, elem) or frozenset()
        new = {(t, q) for t in recv for q in got if t[0] == 'L'}
        f = it.stack[-1][0]
        if any(isinstance(x, (ast.For, ast.While)) and
               x.lineno <= node.lineno <= x.end_lineno
               for x in own_walk(f.node)):
            self.loopy |= new
        if len(recv) == 1 and new:
            return st.with_rs((st.rs[0], st.rs[1] | new, st.rs[2]))
        return st

    def binop_result(self, it, st, left, right):
        a, b = self.labels(it, st, left), self.labels(it, st, right)
        if not a and not b:
            return None
        return val(('from', (a or frozenset()) | (b or frozenset())))

    # ----------------------------------------------------------------- calls
    def sink(self, it, ci):
        tq = {f.qual for f in ci.targets or ()}
        last = ci.name.split('.')[-1]
        for s in self.sinks:
            f, want = s
            if f == 'process':
                if ci.name in RUN_PROCESS:
                    return s, None
            elif f.qual in tq or (not tq and last == f.node.name and
                                  ci.recv is not None):
                return s, f
        return None, None

    def on_call(self, it, st, ci):
        s, f = self.sink(it, ci)
        last = ci.name.split('.')[-1]
        if s is not None:
            self.reached += 1
            if f is None:
                argv = {'command': ci.args[0] if ci.args else NONE}
            else:
                argv = it.bind_args(f, ci.recv, ci.args, ci.kw, st)
                if f.kind == 'method' and (ci.recv is None or any(
                        t[0] in ('mod', 'cls') for t in ci.recv)):
                    argv = it.bind_args(f, None, ci.args, ci.kw, st)
            st, carried = self.check(it, st, s, f, argv, ci.node)
            r = val(('from', frozenset(carried) | {('sink',)}))
            return [(st.with_rs((True,) + st.rs[1:]), r)]
        if ci.name == 'hasattr' and ci.args and ci.args[0] == \
                val(P('args')):
            return [(st, const(True))]
        if ci.name == 'getattr' and len(ci.args) > 1 and ci.args[0] == \
                val(P('args')) and consts_of(ci.args[1]):
            return [(st, val(('a', P('args'), consts_of(ci.args[1])[0])))]
        if last in ('+=', 'append', 'extend', 'insert') and ci.recv and ci.args:
            x = ci.args[-1]
            e = x if last in ('append', 'insert') else it.elems(st, x)
            if last in ('+=', 'extend') and any(
                    t in self.lists for t in x):
                got = self.labels(it, st, x) or frozenset()
                e = val(('from', got)) if got else e
            st2 = self.grow(it, st, ci.recv, e, ci.node)
            if st2 is not st:
                if last == '+=':
                    return [(st2, NONE)]
                return [(it.add_elems(st2, ci.recv, e), NONE)]
        if last in ('dump', 'write', 'writelines'):
            # written to a file that was opened
            fp = ci.recv if last != 'dump' else (
                ci.args[1] if len(ci.args) > 1 else ci.kw.get('fp'))
            got = self.labels(it, st, ci.args[0]) if ci.args else None
            if fp and got:
                new = set()
                for t in fp:
                    for a in self.opened(t):
                        new |= {(a, q) for q in got}
                if new:
                    st = st.with_rs(st.rs[:2] + (st.rs[2] | new,))
                    for a, _ in new:
                        st.facts[('t', a)] = True
                    return [(st, NONE)]
        return None

    def opened(self, t):
        """The file names an open file came from."""
        if t[0] == 'r' and t[1] in ('open', 'io.open', 'codecs.open') and t[3]:
            return set(t[3][0])
        if t[0] == 'r' and t[1] == 'fdopen':
            return set(t[3][0])
        out = set()
        for x in t[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                out |= self.opened(x)
        return out

    def call_result(self, it, st, ci):
        last = ci.name.split('.')[-1]
        if last == 'open':
            return None
        got = self.every(it, st, list(ci.args) + list(ci.kw.values()) +
                         ([ci.recv] if ci.recv is not None else []))
        if got:
            return val(('from', got))
        return None

    def check(self, it, st, s, f, argv, node):
        want = s[1]
        carried = set()
        for p, q in sorted(want.items(), key=repr):
            v = argv.get(p)
            name = f.name if f is not None else 'the process'
            qs = q if isinstance(q, list) else [q]
            if v is None:
                continue
            if qs == ['given']:
                if v == NONE or consts_of(v) == [None] or any(
                        t[0] == 'default' for t in v):
                    self.bad[(p, name)] = '%s gets no %s' % (name, p)
                continue
            got = self.labels(it, st, v)
            if got is None:
                carried |= set(qs)
                continue
            for x in qs:
                if x not in got:
                    self.bad[(p, name, x)] = (
                        'the %s given to it does not decide the %s of %s'
                        % (x[-1], p, name))
                else:
                    carried.add(x)
        return st, carried

    def lookup_exc(self, it, st, recv, key, node):
        return None

    def exceptions(self, it, st, ci):
        return ()


def flow(ctx, fn, sinks, truthy=(), none=(), returns=False, skip=()):
    """`sinks`: [(function or 'process', {its parameter: source})]"""
    proj, cg = ctx.proj, ctx.cg
    f = proj.func(fn)
    srcs = {q for _, w in sinks for x in w.values()
            for q in (x if isinstance(x, list) else [x]) if q != 'given'}
    c = Flow(proj, srcs, sinks, truthy)
    c.skip = {proj.func(x).qual for x in skip}
    # helpers beside the function are looked into
    if any(s == 'process' for s, _ in sinks):
        c.small = 12
    c.where = {f.cls.name if f.cls is not None else f.module.name}
    it = Interp(proj, c, None)
    seeds = {s.qual for s, _ in sinks if s != 'process'}
    it.interesting = cg.callers_closure(seeds) if seeds else set()
    if any(s == 'process' for s, _ in sinks):
        it.interesting |= cg.callers_closure({
            g.qual for g in proj.funcs.values() for n in own_walk(g.node)
            if isinstance(n, ast.Call) and dotted(n.func) in RUN_PROCESS})
    st = State(rs=(False, frozenset(), frozenset()))
    for t in truthy:
        st.facts[('t', t)] = True
    bind = {p: NONE for p in none}
    rets, _ = it.run(f, st, bind=bind)
    ctx.analysed(it.inlined)
    names = ', '.join(sorted(s if s == 'process' else s.name
                             for s, _ in sinks))
    how = ' without %s' % '/'.join(none) if none else ''
    ctx.obligation('%s%s: arguments reach %s' % (f.where, how, names))
    if not c.reached:
        ctx.violation('%s%s:never-reached' % (f.where, how), f, 'with what is '
                      'needed for it given, it never comes to %s' % names)
    for s, v in rets:
        if not s.rs[0]:
            ctx.violation('%s%s:not-reached' % (f.where, how), f,
                          'it can return without %s' % names)
        elif returns:
            got = c.labels(it, s, v)
            if got is not None and returns not in got:
                ctx.violation('%s%s:result' % (f.where, how), f,
                              'it does not return the result of %s' % names)
    for k, why in sorted(c.bad.items(), key=repr):
        ctx.violation('%s%s:%s' % (f.where, how, '-'.join(
            str(x[-1] if isinstance(x, tuple) else x) for x in k)), f, why)
    return c.reached


class Params(Client):
    """rule state: have the parameters been applied"""
    small = 14

    def __init__(self, runners, setter):
        self.runners, self.setter = runners, setter
        self.ran = 0
        self.bad = {}

    def never_inline(self, f):
        return f.qual in self.runners or f.qual == self.setter.qual or \
            f.qual in self.skip

    def mention(self, v, p):
        s = repr(p)
        return any(t == TOPT or s in repr(t) for t in v)

    def on_call(self, it, st, ci):
        tq = {f.qual for f in ci.targets or ()}
        if tq & self.runners:
            self.ran += 1
            if not st.rs:
                self.bad['late'] = ('node code runs before the parameters are '
                                    'applied')
            if ci.recv is not None and not self.mention(ci.recv, P('layer')):
                self.bad['layer'] = ('the nodes are not run in the layer that '
                                     'was given')
            return [(st, NONE)]
        if self.setter.qual in tq:
            a = it.bind_args(self.setter, ci.recv, ci.args, ci.kw, st)
            if self.mention(a.get('parameters', ()), P('parameters')):
                st = st.with_rs(True)
            return [(st, NONE)]
        return None

    def lookup_exc(self, it, st, recv, key, node):
        return None

    def exceptions(self, it, st, ci):
        return ()


VALUE = val(('value',))
PARTS = [repr(('i', ('e', ('pairs',)), ('c', 'int', i))) for i in (0, 1)]
WHOLE = [repr(('e', P('parameters'))), repr(('value',))]


class Apply(Client):
    """rule state: is a parameter waiting to be set; None: its node does not
    exist"""
    small = 14

    def __init__(self):
        self.sets = self.starts = 0
        self.sites = set()
        self.bad = {}

    def on_call(self, it, st, ci):
        last = ci.name.split('.')[-1]
        if last == 'isinstance':
            return [(st, const(True))]
        if last == 'items':
            return [(st, val(('pairs',)))]
        if last == 'get' and ci.recv == val(P('parameters')):
            return [(st, VALUE)]
        if last == 'lookup':
            self.starts += 1
            st = self.done(st)
            self.sites.add((it.stack[-1][0].qual, ci.node.lineno))
            if not self.has(ci.args[0], 0):
                self.bad['node'] = 'a parameter is set on another node'
            found = st.with_rs(True)
            found.facts[('t', ('found',))] = True
            return [(found, val(('found',))),
                    (st.with_rs(None), NONE)]
        if last == 'get_opinion':
            return [(st, val(('T', (val(('opinion',)), val(('has',))))))]
        if ci.name == 'getattr' and ci.args and ci.args[0] == val(('found',)):
            return [(st, val(('opinion',)))]
        return None

    def has(self, v, i):
        return any(t == TOPT or PARTS[i] in repr(t) or WHOLE[i] in repr(t)
                   for t in v)

    def done(self, st):
        if st.rs:
            self.bad['set'] = 'a parameter of an existing node is not set'
        return st.with_rs(False)

    def attr_store(self, it, st, recv, attr, value, node):
        if recv == val(('found',)) or ('found',) in recv:
            self.sets += 1
            if not self.has(value, 1):
                self.bad['value'] = 'a parameter is not set to its value'
            return st.with_rs(False)
        return st

    def call_result(self, it, st, ci):
        vs = list(ci.args) + ([ci.recv] if ci.recv is not None else [])
        for i in (1, 0):
            if any(self.has(v - frozenset([TOPT]), i) for v in vs):
                return VALUE if i else val(('e', P('parameters')))
        return None

    def item_load(self, it, st, recv, key, node):
        if recv == val(P('parameters')):
            return st, VALUE
        return None

    def after_for(self, it, st, node):
        q = it.stack[-1][0].qual
        if any(x == q and node.lineno <= n <= node.end_lineno
               for x, n in self.sites):
            return self.done(st)
        return st

    def lookup_exc(self, it, st, recv, key, node):
        return None

    def exceptions(self, it, st, ci):
        return ()


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    F = proj.func
    stage_run, nodes = F('Stage.execute'), F('Stage.execute_nodes')
    graph = F('Session.execute_graph')
    remote = F('ServerFunctions.exec_in_headless')
    n = 0
    n += flow(ctx, 'nxt.execute_graph', [(graph, {
        x: P(x) for x in ('filepath', 'start', 'parameters', 'context')})],
        truthy=[P(x) for x in ('filepath', 'start', 'parameters')])
    n += flow(ctx, 'Session.execute_graph', [(stage_run, {
        'self': P('filepath'), 'start': P('start'),
        'parameters': P('parameters')})], none=('context',),
        truthy=[P('filepath'), P('start'), P('parameters')],
        returns=('sink',))
    n += flow(ctx, 'Session.execute_graph', [(remote, {
        'filepath': P('filepath'), 'start_node': P('start'),
        'parameters': P('parameters'), 'context_name': P('context')})],
        truthy=[P('filepath'), P('start'), P('parameters'), P('context')],
        returns=('sink',))
    n += flow(ctx, 'Session.execute_nodes', [(nodes, {
        'self': P('filepath'), 'node_paths': P('node_paths'),
        'layer': P('filepath'), 'parameters': P('parameters')})],
        truthy=[P('filepath'), P('node_paths'), P('parameters')],
        returns=('sink',))
    for none in ((), ('start',)):
        want = {'layer': P('layer'), 'parameters': P('parameters')}
        if not none:
            want['node_paths'] = P('start')
        n += flow(ctx, 'Stage.execute', [(nodes, want)], none=none,
                  truthy=[P(x) for x in ('start', 'layer', 'parameters')
                          if x not in none], returns=('sink',))
    inner = F('Stage.setup_runtime_layer.execute')
    q = inner.qual
    n += flow(ctx, q, [(stage_run, {
        'start': P('start'), 'parameters': P('parameters'),
        'layer': 'given'})], truthy=[P('start'), P('parameters')],
        none=('paths',))
    n += flow(ctx, q, [(nodes, {
        'node_paths': P('paths'), 'parameters': P('parameters'),
        'layer': 'given'})], truthy=[P('paths'), P('parameters')],
        none=('start',))
    args = {x: ('a', P('args'), x) for x in ('path', 'start', 'parameters',
                                             'context')}
    n += flow(ctx, 'nxt.cli.execute', [(graph, {
        'filepath': args['path'], 'start': args['start'],
        'parameters': args['parameters'], 'context': args['context']})],
        truthy=list(args.values()))
    names = ('filepath', 'start_node', 'cache_path', 'parameters',
             'context_name')
    n += flow(ctx, remote.qual, [('process', {
        'command': [P(x) for x in names]})], truthy=[P(x) for x in names],
        returns=P('cache_path'))
    n += flow(ctx, remote.qual, [('process', {
        'command': [P(x) for x in names if x != 'parameters']})],
        truthy=[P(x) for x in names if x not in ('parameters', 'cache_path')],
        none=('parameters',))
    code = F('Console.runcode')
    arg = [x for x in code.params if x != 'self'][0]
    n += flow(ctx, 'Stage.execute_custom_code', [(code, {
        'self': P('layer'), arg: [P('code_string'), P('node_path')]})],
        truthy=[P('code_string'), P('node_path'), P('layer')],
        skip=('Stage.setup_runtime_layer', 'Stage.build_stage'))
    runner = F('nxt.stage.run')
    n += flow(ctx, runner.qual, [(code, {
        'self': P('runtime_layer'), arg: [P('rt_node'), P('custom_code')]})],
        truthy=[P(x) for x in runner.params])
    n += flow(ctx, runner.qual, [(code, {
        'self': P('runtime_layer'), arg: P('rt_node')})],
        truthy=[P(x) for x in runner.params if x != 'custom_code'],
        none=('custom_code',))
    ctx.count('hand-overs of execution arguments', n, 11)
    # the parameters are applied first
    runners = {q for q in cg.reachable([nodes.qual])
               if calls_exec(proj, proj.funcs[q])}
    setter = F('Stage.set_runtime_parameters')
    c = Params(runners, setter)
    c.skip = {F('Stage.build_stage').qual}
    it = Interp(proj, c, None)
    it.interesting = cg.callers_closure(runners | {setter.qual})
    st = State(rs=False)
    st.facts[('t', P('parameters'))] = True
    rets, _ = it.run(nodes, st)
    ctx.analysed(it.inlined)
    ctx.count('executions of node code', c.ran, 2)
    ctx.obligation('%s: parameters applied before any node code' % nodes.where)
    if any(not s.rs for s, _ in rets):
        c.bad['never'] = 'the parameters are not applied'
    for k, why in sorted(c.bad.items()):
        ctx.violation('%s:%s' % (nodes.where, k), nodes, why)
    a = Apply()
    it = Interp(proj, a, None)
    it.interesting = set()
    rets, _ = it.run(setter, State(rs=False))
    ctx.analysed(it.inlined)
    ctx.obligation('%s: every parameter of an existing node is set'
                   % setter.where)
    if any(x.rs is None for x, _ in rets):
        a.bad['stop'] = ('a parameter of an unknown node keeps the others from '
                         'being set')
    if not a.sets:
        a.bad['set'] = 'a parameter of an existing node is not set'
    for k, why in sorted(a.bad.items()):
        ctx.violation('%s:%s' % (setter.where, k), setter, why)


RULE = Rule('C09', run, 'label flow of the arguments through every hand-over '
            'on every path, and order of parameters and node code')
