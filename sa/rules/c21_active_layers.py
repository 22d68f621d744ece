"""C21: muted layers contribute nothing, soloed ones are the only ones."""
import ast
import itertools

from ..core import Rule
from ..interp import (Interp, Client, State, val, const, NONE, consts_of,
                      mentions)

FILTER = 'nxt_layer.get_active_layers'
BUILD = 'Stage.build_stage'
PICKED = ('one',)           # a layer like any other, looked at throughout
SAME = ('list', 'tuple', 'copy', 'copy.copy', 'slice', 'iter')


class Picked(Client):
    """One layer in a list of any length, among others of every kind.

    rule state: (loops that met the layer, loops that met a soloed other,
                 {(list, a kind of element it holds)})"""
    exact_exc = True
    small = 30
    comp_loops = True

    def __init__(self, src, muted, soloed, other_soloed):
        self.src, self.m, self.s, self.o = src, muted, soloed, other_soloed
        self.met = 0
        self.adds = {}
        self.order = {}
        self.vague = set()      # lists of which not everything is known

    def exceptions(self, it, st, ci):
        return ()

    def lookup_exc(self, it, st, recv, key, node):
        return None

    # ------------------------------------------------------------- elements
    def base(self, coll):
        """(list, wrappers) of a value that goes through a list."""
        if len(coll) != 1:
            return None, ()
        t = next(iter(coll))
        if t == self.src or t[0] == 'L':
            return t, ()
        if t[0] == 'r' and t[1] in SAME + ('reversed', 'enumerate', 'sorted',
                                           'set', 'frozenset'):
            b, w = self.base(t[3][0] if t[3] else t[2])
            return b, w + (t[1],)
        return None, ()

    def others(self):
        return [('other', m, s) for m in (False, True) for s in (
            (False, True) if self.o else (False,))]

    def kinds(self, st, t):
        if t == self.src:
            return [PICKED] + self.others()
        return sorted((k for b, k in st.rs[2] if b == t), key=repr)

    def elements(self, it, st, coll, node):
        t, wraps = self.base(coll)
        if t is None:
            return None
        out = []
        for k in self.kinds(st, t):
            if k[0] == '?':
                return None
            met, solo, held = st.rs
            if k == PICKED:
                if node in met:
                    continue
                met = met | {node}
                self.met += 1
            elif k[0] == 'other' and k[2]:
                solo = solo | {node}
            e = val(k)
            if 'enumerate' in wraps:
                e = val(('T', (val(('idx',)), e)))
            out.append((st.with_rs((met, solo, held)), e))
        self.order[node] = 'reversed' in wraps
        return out

    def item_load(self, it, st, recv, key, node):
        if self.base(recv)[0] is not None and consts_of(key) is None:
            return st, val(('one of them',))
        return None

    def loop_end(self, it, st, coll, node):
        t, _ = self.base(coll)
        if t is None:
            return st
        ks = self.kinds(st, t)
        met, solo, held = st.rs
        if ('?',) in ks:
            return st.with_rs((met - {node}, solo - {node}, held))
        if PICKED in ks and node not in met:
            return None
        if t == self.src and self.o and node not in solo:
            return None
        return st.with_rs((met - {node}, solo - {node}, held))

    # ---------------------------------------------------------------- lists
    def new_list(self, it, st, term):
        met, solo, held = st.rs
        return st.with_rs((met, solo, frozenset(
            x for x in held if x[0] != term)))

    def list_made(self, it, st, term, values):
        st = self.new_list(it, st, term)
        for v in values:
            st = self.growing(it, st, val(term), v)
        return st

    def growing(self, it, st, coll, value):
        met, solo, held = st.rs
        for b in coll:
            for t in value:
                if t == PICKED or t[0] == 'other':
                    k = t
                elif t[0] == 'c' or t[0] == 'R':
                    k = ('true' if it.truth(t) else 'false',)
                elif t[0] == 'e' and t[1] == self.src:
                    k = ('?',)
                else:
                    k = ('?',)
                held = held | {(b, k)}
                if k == ('?',):
                    self.vague.add(b)
        return st.with_rs((met, solo, held))

    def truth(self, it, st, t):
        if t == self.src:
            return True
        if t[0] == 'L':
            ks = self.kinds(st, t)
            return None if ('?',) in ks else bool(ks)
        return None

    def contains(self, it, st, item, coll):
        t, _ = self.base(coll)
        if t is None or item != val(PICKED):
            return None
        ks = self.kinds(st, t)
        return None if ('?',) in ks else PICKED in ks

    # ---------------------------------------------------------------- calls
    def on_call(self, it, st, ci):
        last = ci.name.split('.')[-1]
        if last in ('get_muted', 'get_soloed') and ci.recv and not ci.args \
                and not ci.kw and len(ci.recv) == 1:
            k = next(iter(ci.recv))
            if k == PICKED:
                return [(st, const(self.m if last == 'get_muted' else self.s))]
            if k[0] == 'other':
                return [(st, const(k[1] if last == 'get_muted' else k[2]))]
        if ci.name in ('any', 'all') and len(ci.args) == 1:
            t, _ = self.base(ci.args[0])
            if t is not None:
                ks = self.kinds(st, t)
                if ('?',) not in ks:
                    return [(st, const(
                        any(k != ('false',) for k in ks) if ci.name == 'any'
                        else ('false',) not in ks))]
        if ci.name == 'len' and len(ci.args) == 1:
            t, _ = self.base(ci.args[0])
            if t is not None and ('?',) not in self.kinds(st, t):
                return [(st, const(2 if self.kinds(st, t) else 0))]
        if last in ('insert', 'append', '+=') and ci.recv and ci.args:
            at = 'end'
            if last == 'insert':
                at = 'front' if consts_of(ci.args[0]) == [0] else 'some'
            back = [b for n, b in self.order.items() if isinstance(n, ast.For)
                    and n.lineno <= ci.node.lineno <= n.end_lineno]
            if any(back) and at != 'some':
                at = 'end' if at == 'front' else 'front'
            for t in ci.recv:
                self.adds.setdefault(t, set()).add(at)
        if last in ('remove', 'pop', 'clear', 'reverse', 'sort') and ci.recv \
                and not ci.targets:
            met, solo, held = st.rs
            for t in ci.recv:
                b, _ = self.base(frozenset([t]))
                held = held | {(b or t, ('?',))}
                self.vague.add(b or t)
            return [(st.with_rs((met, solo, held)), val(('popped',)))]
        if last == 'extend' and ci.recv and ci.args or last == '+=':
            t, _ = self.base(ci.args[0])
            if t is not None and last == 'extend':
                met, solo, held = st.rs
                held = held | {(b, k) for b in ci.recv
                               for k in self.kinds(st, t)}
                for b in ci.recv:
                    self.adds.setdefault(b, set()).add('end')
                return [(st.with_rs((met, solo, held)), NONE)]
        return None


def check_filter(ctx, f):
    proj = ctx.proj
    param = f.params[0]
    src = ('p', param)
    decided = 0
    for m, s, o in itertools.product((False, True), repeat=3):
        c = Picked(src, m, s, o)
        it = Interp(proj, c, None)
        rets, excs = it.run(f, State(rs=(frozenset(),) * 3),
                            {param: val(src)})
        ctx.analysed(it.inlined)
        want = not m and (s or not o)
        how = 'a %smuted, %ssoloed layer is %s where %s' % (
            '' if m else 'not ', '' if s else 'not ',
            'active' if want else 'not active',
            'another is soloed' if o else 'no other is soloed')
        ctx.obligation('%s: %s' % (f.where, how))
        for st, v in rets:
            t, wraps = c.base(v)
            if t is None or c.met == 0:
                continue
            if ('?',) in c.kinds(st, t) or t in c.vague:
                continue
            decided += 1
            got = PICKED in c.kinds(st, t)
            if got != want:
                ctx.violation('%s:%smuted-%ssoloed-%s' % (
                    f.where, '' if m else 'not-', '' if s else 'not-',
                    'other-soloed' if o else 'none-soloed'), f,
                    'not so: ' + how)
            odd = [w for w in wraps if w in ('set', 'frozenset', 'sorted')]
            back = (('reversed' in wraps) + (c.adds.get(t) == {'front'})) % 2
            if odd or back:
                ctx.violation('%s:order' % f.where, f, 'the active layers are '
                              'not in the order of the layers given')
    return decided


ACTIVE = ('active',)


class Comp(Client):
    """What a comp is made of. rule state: is an active layer left out"""
    exact_exc = True
    small = 10

    def __init__(self, filt):
        self.filt = filt
        self.filtered = []
        self.tables, self.taken = [], {}
        self.last = {}
        self.left = False

    def exceptions(self, it, st, ci):
        return ()

    def lookup_exc(self, it, st, recv, key, node):
        return None

    def never_inline(self, f):
        return f.cls is not None and f.cls.name in ('SpecLayer', 'CompLayer')

    def on_call(self, it, st, ci):
        if self.filt in {f.qual for f in ci.targets or ()}:
            self.filtered.append((ci.args[0] if ci.args else None, ci.node,
                                  it.stack[-1][0]))
            return [(st, val(ACTIVE))]
        return None

    def growing(self, it, st, coll, value):
        if any(t[0] == 'a' and t[2] == '_sublayer_node_tables' for t in coll):
            self.table(it, st, value, it.stmt)
            return st.with_rs(False)
        return st

    def table(self, it, st, v, node):
        self.tables.append((v, node, it.stack[-1][0], self.from_active(
            it, st, v)))

    def from_active(self, it, st, v, depth=0):
        """Does everything a value holds come from an active layer?"""
        for t in v:
            if mentions(t, ACTIVE) or t[0] == 'c':
                continue
            if t[0] == 'L' and depth < 4:
                lit = it.literal_elems(st, frozenset([t]))
                es = frozenset().union(*lit) if lit is not None else \
                    st.heap.get((t, '$e'), frozenset())
                if self.from_active(it, st, es, depth + 1):
                    continue
            return False
        return True

    def attr_store(self, it, st, recv, attr, value, node):
        if attr in ('cwd', 'real_path') and any(
                t[0] == 'o' and t[1].endswith('CompLayer') for t in recv):
            self.taken.setdefault(attr, []).append((value, node,
                                                    it.stack[-1][0]))
        if attr == '_sublayer_node_tables' and not all(
                t[0] == 'a' and t[2] == attr for t in value):
            es = it.elems(st, value)
            self.table(it, st, es, node)
            return st.with_rs(False)
        return st

    def elements(self, it, st, coll, node):
        if coll != val(ACTIVE):
            return None
        if st.rs:
            self.left = True
        return [(st.with_rs(True), val(('e', ACTIVE)))]

    def loop_end(self, it, st, coll, node):
        if coll == val(ACTIVE):
            if st.rs:
                self.left = True
            return st.with_rs(False)
        return st


def first(t):
    """Is what a term takes from the active layers the first one's?"""
    if isinstance(t, tuple) and t[:1] == ('i',) and t[1] == ACTIVE:
        return t[2] in (('c', 'int', 0), 0)
    if isinstance(t, tuple) and t and t[0] == 'e' and t[1] == ACTIVE:
        return False
    if isinstance(t, (tuple, frozenset)):
        got = {first(x) for x in t if isinstance(x, (tuple, frozenset))}
        return False if False in got else True if True in got else None
    return None


def run(ctx):
    proj = ctx.proj
    f = proj.func(FILTER)
    n = check_filter(ctx, f)
    ctx.counts['results of the filter decided'] = n
    g = proj.func(BUILD)
    c = Comp(f.qual)
    it = Interp(proj, c, None)
    it.run(g, State(rs=False))
    ctx.analysed(it.inlined)
    ctx.counts['node tables taken into a comp'] = len(c.tables)
    ctx.obligation('%s: the node tables come from active layers' % g.where)
    for v, node, fn, ok in c.tables:
        if not ok:
            ctx.violation('%s:tables' % fn.where, fn, 'nodes of layers that '
                          'were not filtered by mute and solo get into the '
                          'comp', node)
    if not c.tables and not c.filtered:
        ctx.violation('%s:unfiltered' % g.where, g, 'layers are composed '
                      'without being filtered by mute and solo')
    if c.left and c.tables:
        ctx.violation('%s:left-out' % g.where, g, 'an active layer can be left '
                      'out of the comp')
    for attr, got in sorted(c.taken.items()):
        ctx.obligation('%s: %s is that of the highest active layer' %
                       (g.where, attr))
        for v, node, fn in got:
            v = frozenset(t for t in v if t[0] != 'c')
            if any(not mentions(t, ACTIVE) and t[0] != 'top' or
                   first(t) is False for t in v):
                ctx.violation('%s:%s' % (fn.where, attr), fn, 'the comp does '
                              'not take the %s of the highest active layer' %
                              attr, node)


RULE = Rule('C21', run, 'abstract interpretation of the filter for one layer '
            'among any others in each state of mute and solo; provenance of '
            'what is composed')
