"""C30: an interrupt or an exit is never swallowed."""
import ast

from ..core import Rule
from ..interp import Interp, Client, State
from ..project import own_walk

EXCS = ('KeyboardInterrupt', 'SystemExit')


class Interrupt(Client):
    """State: has the interrupt arrived."""
    small = 20
    exact_exc = True
    alone = False

    def never_inline(self, f):
        return self.alone

    def __init__(self, exc):
        self.exc, self.n, self.at = exc, 0, {}

    def hit(self, it, st, node):
        if not st.rs:
            self.n += 1
            it.raise_(st.with_rs(True), self.exc)

    def on_call(self, it, st, ci):
        self.hit(it, st, ci.node)
        return None

    def yield_point(self, it, st, node, value):
        self.hit(it, st, node)

    def exceptions(self, it, st, ci):
        return () if st.rs else ('*',)

    def lookup_exc(self, it, st, recv, key, node):
        return None


def handlers(body):
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, ast.Try):
                for h in x.handlers:
                    yield from ast.walk(h)
                for s in x.finalbody:
                    yield from ast.walk(s)


def broad(it, m, h):
    ts = None if h.type is None else it.type_names(h.type, m)
    return ts is None or bool({'BaseException'} & set(ts) or
                              set(EXCS) & set(ts))


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    n = sites = 0
    for q, f in sorted(proj.funcs.items()):
        if '.test.' in '.%s.' % f.module.name:
            continue
        trys = [x for x in own_walk(f.node)
                if isinstance(x, (ast.Try, ast.With, ast.AsyncWith))]
        if not trys:
            continue
        n += sum(len(x.handlers) for x in trys if isinstance(x, ast.Try))
        names = {x.func.attr if isinstance(x.func, ast.Attribute) else
                 getattr(x.func, 'id', None)
                 for x in handlers(f.node.body) if isinstance(x, ast.Call)}
        helpers = {g for g in cg.edges.get(q, ())
                   if proj.funcs[g].name in names or
                   proj.funcs[g].name == '__exit__'}
        ctx.obligation('%s: an interrupt at any call in it leaves it' % f.where)
        for exc in EXCS:
            c = Interrupt(exc)
            it = Interp(proj, c, None)
            it.interesting = helpers
            rets, _ = it.run(f, State(rs=False))
            sites += c.n
            ctx.analysed(it.inlined)
            if any(s.rs for s, _ in rets):
                ctx.violation('%s:%s:swallowed' % (f.where, exc), f, '%s raised '
                              'in it is swallowed' % exc)
            if exc != 'KeyboardInterrupt':
                continue
            # what it raises itself in place of the interrupt
            c.alone = True
            it = Interp(proj, c, None)
            it.interesting = set()
            _, raises = it.run(f, State(rs=False))
            turned = {e for e, s in raises if s.rs and e != exc}
            if turned:
                ctx.violation('%s:%s:turned' % (f.where, exc), f, '%s raised in '
                              'it comes out as %s'
                              % (exc, ', '.join(sorted(turned))))
    it = Interp(proj, Interrupt(EXCS[0]), None)
    for m in proj.modules.values():
        if '.test.' in '.%s.' % m.name:
            continue
        for s in m.tree.body:
            todo = [s]
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef,
                                  ast.Lambda)):
                    continue
                todo += ast.iter_child_nodes(x)
                if isinstance(x, ast.ExceptHandler):
                    n += 1
                    last = x.body[-1]
                    if broad(it, m, x) and not (isinstance(last, ast.Raise)
                                                and last.exc is None):
                        ctx.violation('%s:module:swallowed' % m.rel, None,
                                      '%s:%d: an interrupt while the module is '
                                      'loaded is swallowed' % (m.rel, x.lineno))
    ctx.count('handlers', n, 30)
    ctx.count('calls an interrupt arrives in', sites, 400)


RULE = Rule('C30', run, 'exception flow: an interrupt and an exit are injected '
            'at each call and followed out of the function')
