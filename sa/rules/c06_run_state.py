"""C06: however node code ends, the state of the run is put back."""
import ast

from ..core import Rule
from ..interp import Interp, Client, State, val, const, NONE, consts_of
from ..project import own_walk, dotted, AnalysisBroken

ROOTS = ('Stage.execute_nodes', 'Stage.execute_custom_code')
SETUP = ('Stage.setup_runtime_layer', 'Stage.build_stage')
ENTER, EXIT = 'CacheLayer.set_node_enter_time', 'CacheLayer.set_node_exit_time'
ENDS = (('GraphError', 'fails'), ('ExitNode', 'exits the node'),
        ('ExitGraph', 'exits the graph'), ('KeyboardInterrupt', 'is interrupted'))
CTX = ('node_path', 'running_lines')
TRUE, FALSE = const(True), const(False)


def calls_exec(proj, f):
    return any(isinstance(n, ast.Call) and dotted(n.func) == 'exec' and
               proj.lookup(f.module, 'exec') == ('ext', 'exec')
               for n in own_walk(f.node))


def cleaners(proj):
    """function -> its parameters it removes keys from"""
    out = {}
    for f in proj.funcs.values():
        for n in own_walk(f.node):
            nm = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr in ('pop', 'clear', 'popitem'):
                nm = n.func.value
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    if isinstance(t, ast.Subscript):
                        nm = t.value
            if isinstance(nm, ast.Name) and nm.id in f.params:
                out.setdefault(f.qual, set()).add(nm.id)
    return out


def mk(running, ctx, dirty, opened, how):
    """(running now, changed context fields, names left, open timings, how)"""
    return (running, ctx, dirty, opened, how)


class RunState(Client):
    small = 14
    exact_exc = True

    def __init__(self, runners, clean, enter, exit_, nested):
        self.runners, self.clean = runners, clean
        self.enter, self.exit, self.nested = enter, exit_, nested
        self.entry = TRUE if nested else FALSE
        self.ran = self.opens = 0
        self.cleaning = set()
        self.skip = set()

    def never_inline(self, f):
        return f.qual in self.runners or f.qual in self.skip

    # ---------------------------------------------------------------- events
    def is_console(self, v):
        return any(t[0] == 'a' and t[2] == '_console' for t in v)

    def is_globals(self, v):
        return any(t[0] == 'a' and t[2] == 'globals' for t in v)

    def upd(self, st, i, x):
        r = list(st.rs)
        r[i] = x
        return st.with_rs(tuple(r))

    def on_call(self, it, st, ci):
        tq = {f.qual for f in ci.targets or ()}
        if tq & self.runners or ci.name == 'exec':
            self.ran += 1
            base = self.upd(st, 2, True)
            for e, how in ENDS:
                it.raise_(self.upd(base, 4, how), e)
            return [(self.upd(base, 4, 'returns'), NONE)]
        if self.enter in tq:
            self.opens += 1
            return [(self.upd(st, 3, min(st.rs[3] + 1, 2)), NONE)]
        if self.exit in tq:
            return [(self.upd(st, 3, max(st.rs[3] - 1, -1)), NONE)]
        for f in ci.targets or ():
            ps = self.clean.get(f.qual)
            if ps:
                argv = it.bind_args(f, ci.recv, ci.args, ci.kw, st)
                if any(self.is_globals(argv.get(p, ())) for p in ps):
                    return [(self.upd(st, 2, False), NONE)]
        if ci.recv is not None and self.is_globals(ci.recv):
            what = ci.name.split('.')[-1]
            key = consts_of(ci.args[0]) if ci.args else None
            if what == 'get' and key == ['self']:
                return [(st, self.field(st, 'self'))]
            if what in ('pop', 'clear', 'popitem') and key != ['self']:
                return [(self.removed(it, st, ci.node), val(('top',)))]
        return None

    def removed(self, it, st, node):
        self.cleaning.add((it.stack[-1][0].qual, node.lineno))
        return self.upd(st, 2, False)

    def item_del(self, it, st, recv, key, node):
        if self.is_globals(recv):
            return self.removed(it, st, node)
        return st

    def after_for(self, it, st, node):
        q = it.stack[-1][0].qual
        if any(c[0] == q and node.lineno <= c[1] <= node.end_lineno
               for c in self.cleaning):
            return self.upd(st, 2, False)
        return st

    def field(self, st, name):
        return val(('changed', name)) if name in st.rs[1] else \
            val(('entry', name))

    def attr_load(self, it, st, recv, attr, node):
        if attr == 'running':
            return st, st.rs[0]
        if attr == 'run_as_global' and self.is_console(recv):
            return st, FALSE
        if attr in CTX and self.is_console(recv):
            return st, self.field(st, attr)
        return None

    def item_load(self, it, st, recv, key, node):
        if self.is_globals(recv) and consts_of(key) == ['self']:
            return st, self.field(st, 'self')
        return None

    def put(self, st, name, value):
        ctx = st.rs[1] - {name} if value == val(('entry', name)) \
            else st.rs[1] | {name}
        return self.upd(st, 1, ctx)

    def attr_store(self, it, st, recv, attr, value, node):
        if attr == 'running':
            return self.upd(st, 0, value)
        if attr in CTX and self.is_console(recv):
            return self.put(st, attr, value)
        return st

    def item_store(self, it, st, recv, key, value, node):
        if self.is_globals(recv) and consts_of(key) == ['self']:
            return self.put(st, 'self', value)
        return st

    def lookup_exc(self, it, st, recv, key, node):
        return None

    def exceptions(self, it, st, ci):
        # resolving and compiling for a node fails with a graph error
        return ('GraphError',) if any(f.qual in self.failing
                                      for f in ci.targets or ()) else ()


def graph_errors(proj, cg):
    """Functions a graph error may come out of."""
    out = set()
    for f in proj.funcs.values():
        for n in own_walk(f.node):
            if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call):
                r = proj.lookup(f.module, dotted(n.exc.func) or '?')
                if r and r[0] == 'cls' and any(
                        c.endswith('.GraphError') for c in proj.mro(r[1])):
                    out.add(f.qual)
    return cg.callers_closure(out)


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    scope = cg.reachable([proj.func(r).qual for r in ROOTS])
    runners = {q for q in scope if calls_exec(proj, proj.funcs[q])}
    ctx.count('functions that execute node code', len(runners), 1)
    enter, exit_ = proj.func(ENTER).qual, proj.func(EXIT).qual
    clean = cleaners(proj)
    failing = graph_errors(proj, cg)
    ends = opens = 0
    for nested in (False, True):
        for r in ROOTS:
            f = proj.func(r)
            c = RunState(runners, clean, enter, exit_, nested)
            c.failing = failing
            c.skip = {proj.func(x).qual for x in SETUP} | {enter, exit_}
            it = Interp(proj, c, None)
            it.interesting = cg.callers_closure(runners | {enter, exit_}) | \
                {q for q in clean}
            rets, raises = it.run(f, State(
                rs=mk(c.entry, frozenset(), False, 0, 'is not run')))
            ctx.analysed(it.inlined)
            ends += c.ran
            opens += c.opens
            exits = [(None, s) for s, _ in rets] + raises
            ctx.obligation('%s%s: %d ways out put the running flag, the '
                           'console context, the globals and the timings back'
                           % (f.where, ' within a run' if nested else '',
                              len(exits)))
            for e, s in exits:
                running, chg, dirty, opened, how = s.rs
                out = '%s when node code %s%s' % (
                    'returns' if e is None else 'raises ' + e, how,
                    ' within another node' if nested else '')
                key = '%s:%s' % (f.where, how.replace(' ', '-'))
                if running != c.entry:
                    ctx.violation('running:' + key, f, '%s with the running '
                                  'flag of the layer not what it was' % out)
                if nested and chg:
                    ctx.violation('console:' + key, f, '%s with the console '
                                  'still set up for the inner node (%s)'
                                  % (out, ', '.join(sorted(chg))))
                if dirty:
                    ctx.violation('globals:' + key, f, '%s without removing '
                                  'the names the code left behind' % out)
                if opened:
                    ctx.violation('timing:' + key, f, '%s with a node entered '
                                  'but not exited, or exited twice' % out)
    ctx.count('executions of node code interpreted', ends, 4)
    ctx.count('node timings opened', opens, 2)


RULE = Rule('C06', run, 'typestate of the running flag, console context, '
            'globals and timings over every way node code can end')
