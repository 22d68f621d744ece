"""C07: how the end of a node's code becomes the end of the execution."""
import ast

from ..core import Rule
from ..interp import Interp, Client, State, val, const, NONE
from ..project import own_walk, dotted
from .c06_run_state import calls_exec, graph_errors

ROOTS = ('Stage.execute_nodes', 'Stage.execute_custom_code',
         'Stage.setup_runtime_layer')
# What node code may raise -> what the function executing it lets out.
MAPPING = (('ExitNode', 'ExitNode'), ('ExitGraph', 'ExitGraph'),
           ('KeyboardInterrupt', 'KeyboardInterrupt'),
           ('SystemExit', 'GraphError'), ('ValueError', 'GraphError'),
           ('SyntaxError', 'GraphError'), ('RecursionError', 'GraphError'),
           ('GraphError', 'GraphError'))
# What turning text into code or values may raise.
TEXT = {'compile': ('SyntaxError',), 'eval': ('SyntaxError', 'NameError'),
        'ast.literal_eval': ('ValueError', 'SyntaxError', 'TypeError')}


class Raises(Client):
    """One built-in call fails with one exception."""
    small = 14
    exact_exc = True

    def __init__(self, name, exc):
        self.name, self.exc, self.seen = name, exc, 0

    def on_call(self, it, st, ci):
        if ci.name == self.name:
            self.seen += 1
            it.raise_(st, self.exc)
            return [(st, val(('r', 'value')))]
        return None

    def exceptions(self, it, st, ci):
        return ()

    def lookup_exc(self, it, st, recv, key, node):
        # the line of an error need not be a line of the code that was run
        return 'IndexError' if any(t[0] == 'a' and t[2] == 'running_lines'
                                   for t in recv) else None


class Flow(Client):
    """rule state: (how the last node code ended, exit carries the layer)"""
    small = 14
    exact_exc = True

    def __init__(self, runners, failing):
        self.runners, self.failing = runners, failing
        self.after = set()
        self.ran = 0

    def never_inline(self, f):
        return f.qual in self.runners or f.qual in self.skip

    def on_call(self, it, st, ci):
        if any(f.qual in self.runners for f in ci.targets or ()) \
                or ci.name == 'exec':
            self.ran += 1
            self.after.add(st.rs[0])
            for e in ('GraphError', 'ExitNode', 'ExitGraph',
                      'KeyboardInterrupt'):
                it.raise_(st.with_rs((e, False)), e)
            return [(st.with_rs(('', False)), NONE)]
        return None

    def attr_store(self, it, st, recv, attr, value, node):
        if attr == 'runtime_layer' and value != NONE and \
                any(t == ('exc', 'ExitGraph') for t in recv):
            return st.with_rs((st.rs[0], True))
        return st

    def exceptions(self, it, st, ci):
        return ()

    def lookup_exc(self, it, st, recv, key, node):
        return None


def is_graph_error(it, e):
    return 'GraphError' in it.exc_mro(e)


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    roots = [proj.func(r) for r in ROOTS]
    scope = cg.reachable([f.qual for f in roots])
    runners = {q for q in scope if calls_exec(proj, proj.funcs[q])}
    ctx.count('functions that execute node code', len(runners), 1)

    # what comes out of the functions that run, compile and evaluate text
    n = 0
    for q in sorted(runners):
        f = proj.funcs[q]
        for e, want in MAPPING:
            c = Raises('exec', e)
            it = Interp(proj, c, None)
            rets, raises = it.run(f, State(rs=None))
            ctx.analysed(it.inlined)
            n += c.seen
            ctx.obligation('%s: %s becomes %s' % (f.where, e, want))
            got = {x for x, _ in raises}
            bad = [x for x in got if not (
                x == want or want == 'GraphError' and is_graph_error(it, x))]
            if bad or not got:
                ctx.violation('%s:%s' % (f.where, e), f, 'node code raising %s '
                              '%s instead of %s' % (
                                  e, 'lets %s out' % ', '.join(sorted(bad))
                                  if bad else 'ends without an exception', want))
    texts = 0
    for q in sorted(scope):
        f = proj.funcs[q]
        names = set()
        for x in own_walk(f.node):
            if isinstance(x, ast.Call):
                d = dotted(x.func)
                r = proj.lookup(f.module, d) if d else None
                if r and r[0] == 'ext' and r[1] in TEXT:
                    names.add(r[1])
        for nm in sorted(names):
            for e in TEXT[nm]:
                c = Raises(nm, e)
                it = Interp(proj, c, None)
                rets, raises = it.run(f, State(rs=None))
                ctx.analysed(it.inlined)
                texts += c.seen
                ctx.obligation('%s: %s failing with %s is handled' %
                               (f.where, nm, e))
                bad = {x for x, _ in raises if not is_graph_error(it, x)}
                if bad:
                    ctx.violation('%s:%s:%s' % (f.where, nm, e), f,
                                  '%s failing with %s lets %s out'
                                  % (nm, e, ', '.join(sorted(bad))))
    ctx.count('execution sites of node code interpreted', n, len(MAPPING))
    ctx.count('evaluation sites interpreted', texts, 4)

    # what it means for the execution
    ran = 0
    for f in roots:
        c = Flow(runners, None)
        c.skip = {r.qual for r in roots if r is not f}
        it = Interp(proj, c, None)
        it.interesting = cg.callers_closure(runners)
        rets, raises = it.run(f, State(rs=(None, False)))
        ctx.analysed(it.inlined)
        ran += c.ran
        name = f.name
        ctx.obligation('%s: node exit, graph exit, error and interruption of '
                       'node code end the execution as documented' % f.where)
        ends = {s.rs[0] for s, _ in rets}
        out = {}
        for e, s in raises:
            out.setdefault(s.rs[0], set()).add((e, s.rs[1]))
        # what comes out after node code ended a certain way; exceptions of
        # the book-keeping around it are none of this rule's business
        leaves = lambda how: {e for e, _ in out.get(how, ())}
        for how in ('GraphError', 'KeyboardInterrupt'):
            if how in ends or how not in leaves(how):
                ctx.violation('%s:%s-kept' % (f.where, how), f, '%s of node '
                              'code does not leave %s' % (how, name))
            if how in c.after:
                ctx.violation('%s:%s-goes-on' % (f.where, how), f,
                              'nodes are run after a node ended with ' + how)
        if 'ExitNode' in leaves('ExitNode'):
            ctx.violation('%s:ExitNode-leaves' % f.where, f, 'a node exiting '
                          'itself raises out of %s' % name)
        elif 'ExitNode' not in ends:
            ctx.violation('%s:ExitNode-lost' % f.where, f, '%s does not '
                          'complete when a node exits itself' % name)
        elif name == 'execute_nodes' and 'ExitNode' not in c.after:
            ctx.violation('%s:ExitNode-ends' % f.where, f, 'no node is run '
                          'after a node that exits itself')
        if name == 'execute_nodes' and '' not in c.after:
            ctx.violation('%s:stops' % f.where, f, 'no node is run after the '
                          'first one')
        if 'ExitGraph' in c.after:
            ctx.violation('%s:ExitGraph-goes-on' % f.where, f,
                          'nodes are run after a node exited the graph')
        if name == 'execute_custom_code':
            if 'ExitGraph' in leaves('ExitGraph') or 'ExitGraph' not in ends:
                ctx.violation('%s:ExitGraph-leaves' % f.where, f, 'a snippet '
                              'exiting the graph raises out of ' + name)
            continue
        if 'ExitGraph' in ends or 'ExitGraph' not in leaves('ExitGraph'):
            ctx.violation('%s:ExitGraph-kept' % f.where, f, 'a node exiting '
                          'the graph does not leave ' + name)
        if any(e == 'ExitGraph' and not layer
               for e, layer in out.get('ExitGraph', ())):
            ctx.violation('%s:ExitGraph-layer' % f.where, f, 'the graph is '
                          'exited without handing over the runtime layer')
    ctx.count('executions of node code interpreted', ran, 3)


RULE = Rule('C07', run, 'exception-flow analysis of node code, compilation '
            'and evaluation through the execution operations')
