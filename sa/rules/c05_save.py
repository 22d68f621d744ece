"""C05: a save that fails leaves the file and the layer's identity alone."""
import ast

from ..core import Rule
from ..interp import Interp, Client, State, val, consts_of
from ..project import own_walk, dotted

ENCODERS = ('json.dump', 'json.dumps', 'pickle.dump', 'pickle.dumps',
            'cPickle.dump', 'cPickle.dumps', 'copy.deepcopy')
WRITER = 'nxt_io.save_file_data'
SAVERS = ('SpecLayer.save', 'CacheLayer.save')
IDENTITY = ('real_path', 'filepath', 'alias')


def ext_name(proj, f, n):
    d = dotted(n.func) if isinstance(n, ast.Call) else None
    r = proj.lookup(f.module, d) if d else None
    if r is not None and r[0] == 'ext':
        return r[1]
    return 'open' if d == 'open' and r is None else None


def write_mode(m):
    return isinstance(m, str) and any(c in m for c in 'wax+')


class Write(Client):
    """rule state: is the target open (and emptied)?"""
    small = 14

    def __init__(self, target_ok):
        self.moved = target_ok
        self.opens = set()
        self.bad = {}

    def on_call(self, it, st, ci):
        if ci.name in ('open', 'io.open', 'codecs.open'):
            mode = ci.arg(1, 'mode')
            cs = consts_of(mode) if mode is not None else {'r'}
            if cs is None or any(write_mode(c) for c in cs):
                self.opens.add((ci.func.qual, ci.node.lineno))
                if self.moved(ci.func, ci.node):
                    return None
                it.raise_(st, 'OSError')
                return [(st.with_rs(True), val(('handle',)))]
            return None
        if st.rs and ci.name in ENCODERS:
            self.bad.setdefault(('%s:%s' % (ci.func.where, ci.name)),
                                (ci.func, ci.node, ci.name))
        if st.rs and ci.recv is not None and ('handle',) in ci.recv:
            what = ci.name.split('.')[-1]
            if what == 'close':
                return [(self.closed(st), val(('c', None)))]
            if what.startswith('write'):
                it.raise_(st, 'OSError')
                return [(st.with_rs('written'), val(('c', None)))]
        return None

    def closed(self, st):
        # emptied and closed without new content: still in between
        return st.with_rs(False) if st.rs == 'written' else st

    def with_exit(self, it, st, ctx, node, exc):
        if ('handle',) in ctx:
            return self.closed(st)
        return st


class Ident(Client):
    """rule state: has the file been written?"""
    small = 14

    def __init__(self, writers):
        self.writers = writers
        self.bad, self.stores = {}, 0
        self.wrote = False

    def on_call(self, it, st, ci):
        if any(f.qual in self.writers for f in ci.targets or ()):
            it.raise_(st, '*')
            self.wrote = True
            return [(st.with_rs(True), val(('r', 'written')))]
        return None

    def attr_store(self, it, st, recv, attr, value, node):
        if attr in IDENTITY and any(t[0] == 'self' for t in recv):
            self.stores += 1
            if not st.rs:
                f = it.stack[-1][0]
                self.bad.setdefault('%s:%s' % (it.stack[0][0].where, attr),
                                    (f, node, attr))
        return st


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    writer = proj.func(WRITER)

    def moved(f, node):
        """Written beside the target and moved over it when complete."""
        if not node.args:
            return False
        path = ast.dump(node.args[0])
        return any(ext_name(proj, f, n) in ('os.replace', 'os.rename',
                                            'shutil.move') and n.args and
                   ast.dump(n.args[0]) == path for n in own_walk(f.node))

    # every function reachable from a save that opens a file for writing
    savers = [proj.func(s) for s in SAVERS]
    scope = cg.reachable([f.qual for f in savers] + [writer.qual])
    openers = {q for q in scope if any(
        ext_name(proj, proj.funcs[q], n) in ('open', 'io.open', 'codecs.open')
        for n in own_walk(proj.funcs[q].node))}
    n = 0
    for f in savers + [writer]:
        c = Write(moved)
        it = Interp(proj, c, None)
        it.interesting = cg.callers_closure(openers | {
            q for q in scope if any(ext_name(proj, proj.funcs[q], x) in ENCODERS
                                    for x in own_walk(proj.funcs[q].node))})
        it.run(f, State(rs=False))
        ctx.analysed(it.inlined)
        n += len(c.opens)
        ctx.obligation('%s: nothing is encoded while the target is open (%d '
                       'open sites)' % (f.where, len(c.opens)))
        for k, (g, node, name) in sorted(c.bad.items()):
            ctx.violation('encode-after-open:' + k, g, '%s runs after the file '
                          'to save to was opened for writing: if it fails, the '
                          'previous content is lost' % name, node)
    ctx.count('files opened for writing on the way of a save', n, 1)
    stores = 0
    for f in savers:
        c = Ident({writer.qual})
        it = Interp(proj, c, None)
        it.interesting = cg.callers_closure({writer.qual}) - {writer.qual}
        it.run(f, State(rs=False))
        ctx.analysed(it.inlined)
        stores += c.stores
        ctx.obligation('%s: the layer takes its new path and name only after '
                       'the file is written' % f.where)
        for k, (g, node, attr) in sorted(c.bad.items()):
            ctx.violation('identity-before-write:' + k, g, '%s of the layer is '
                          'changed before the file is written' % attr, node)
    ctx.count('identity stores seen', stores, 1)


RULE = Rule('C05', run, 'typestate of the target file and of the layer '
            'identity over all paths of the save operations')
