"""C17: a layer's setting is the one that was set, an override wins over it."""
from ..core import Rule
from ..interp import Interp, Client, State, val, const, NONE, consts_of

CLS = 'SpecLayer'
# setting, local setter, getter, override setter, is the override set on the
# layer itself (or, by its path, on the layer that overrides it), table
SETTINGS = (
    ('alias', 'set_alias', 'get_alias', 'set_alias_over', True, 'aliases'),
    ('color', None, 'get_color', 'set_color_over', True, 'colors'),
    ('lock', 'set_locked', 'get_locked', 'set_locked_over', True, 'locks'),
    ('mute', 'set_muted', 'get_muted', 'set_mute_over', False,
     'comp_overrides'),
    ('solo', 'set_soloed', 'get_soloed', 'set_solo_over', False,
     'comp_overrides'),
)
TABLES = ('aliases', 'colors', 'locks', 'comp_overrides')
WRAP = ('list', 'tuple', 'set', 'sorted', 'keys', 'iter', 'frozenset', 'dict',
        'copy', 'copy.copy', 'collections.OrderedDict', 'OrderedDict')


class Layers(Client):
    """Dictionaries whose keys are all known."""
    exact_exc = True
    small = 30

    def __init__(self):
        self.none = []
        self.watch = None
        self.changed = set()

    def exceptions(self, it, st, ci):
        return ()

    def loop_iter(self, it, st, node, first):
        # what a round leaves is not what another leaves
        return st.with_rs(min((st.rs or 0) + 1, 12))

    def lookup_exc(self, it, st, recv, key, node):
        d, ks = self.table(st, recv), consts_of(key)
        if d and ks and len(ks) == 1 and all(
                not self.open(st, t) and self.held(st, t, ks[0]) is False
                for t in d):
            return 'KeyError'
        return None

    def attr_load(self, it, st, recv, attr, node):
        if recv == NONE:
            self.none.append((attr, node, it.stack[-1][0]))
            it.raise_(st, 'AttributeError')
            return []
        return None

    def attr_store(self, it, st, recv, attr, value, node):
        for t in recv:
            if t[0] == 'o' and isinstance(t[2], str):
                self.changed.add((t[2], attr))
        return st

    def item_store(self, it, st, recv, key, value, node):
        self.touch(st, recv)
        return st

    def item_del(self, it, st, recv, key, node):
        self.touch(st, recv)
        ks = consts_of(key)
        return self.drop(st, recv, ks[0]) if ks and len(ks) == 1 else st

    def touch(self, st, recv):
        for (o, a), v in st.heap.items():
            if o[0] == 'o' and isinstance(o[2], str) and a in TABLES and v & recv:
                self.changed.add((o[2], a))

    def table(self, st, v):
        """The dictionaries a value lists the keys of."""
        out, todo = set(), list(v)
        while todo:
            t = todo.pop()
            if t[0] == 'D':
                out.add(t)
            elif t[0] == 'r' and t[1] in WRAP:
                todo += list(t[3][0] if t[3] else t[2])
            else:
                return None
        return out

    def open(self, st, t):
        return (t, '$v') in st.heap or (t, '$k') in st.heap

    def held(self, st, t, k):
        v = st.heap.get((t, ('k', ('c', type(k).__name__, k))))
        if v is None:
            return False
        return None if ('maybe',) in v else True

    def literal(self, it, st, v):
        if len(v) != 1:
            return None
        t, how = next(iter(v)), 'keys'
        if t[0] == 'r' and t[1] in ('items', 'values', 'keys') and \
                len(t[2]) == 1:
            t, how = next(iter(t[2])), t[1]
        elif t[0] == 'r' and t[1] in ('list', 'tuple', 'iter') and \
                len(t[3]) == 1:
            return it.literal_elems(st, t[3][0])
        if t[0] != 'D' or self.open(st, t):
            return None
        out = []
        for (b, k), x in sorted(st.heap.items(), key=repr):
            if b != t:
                continue
            if not (isinstance(k, tuple) and k[0] == 'k') or ('maybe',) in x:
                return None
            key = val(k[1])
            out.append(key if how == 'keys' else x if how == 'values' else
                       val(('T', (key, x))))
        return out

    def drop(self, st, recv, k):
        st = st.copy()
        for t in recv:
            st.heap.pop((t, ('k', ('c', type(k).__name__, k))), None)
        return st

    def contains(self, it, st, item, coll):
        d, ks = self.table(st, coll), consts_of(item)
        if not d or not ks or len(ks) != 1:
            return None
        got = {None if self.open(st, t) else self.held(st, t, ks[0])
               for t in d}
        return got.pop() if len(got) == 1 else None

    def on_call(self, it, st, ci):
        last = ci.name.split('.')[-1]
        if ci.name in ('any', 'all') and len(ci.args) == 1:
            lit = it.literal_elems(st, ci.args[0])
            if lit is not None:
                t = [{it.truth(x) for x in e} for e in lit]
                if all(len(x) == 1 and None not in x for x in t):
                    return [(st, const((any if ci.name == 'any' else all)(
                        x == {True} for x in t)))]
        if last in ('copy', 'deepcopy') and not ci.targets:
            src = ci.recv if ci.recv and all(t[0] == 'D' for t in ci.recv) \
                else ci.args[0] if ci.args else None
            if src and all(t[0] == 'D' for t in src):
                return self.dup(st, ci, src)
        if last in ('append', '+=', 'insert') and ci.recv and ci.args and \
                len(ci.recv) == 1 and (next(iter(ci.recv)), '$lit') in st.heap:
            hk = (next(iter(ci.recv)), '$lit')
            x = ci.args[-1]
            new = it.literal_elems(st, x) if last == '+=' else [x]
            at = consts_of(ci.args[0]) if last == 'insert' else None
            if new is not None and (last != 'insert' or at == [0]):
                st = st.copy()
                lit = list(st.heap[hk])
                st.heap[hk] = tuple(new + lit if at else lit + list(new))
                return [(st, ci.recv if last == '+=' else NONE)]
        if not ci.recv or ci.targets or not all(t[0] == 'D' for t in ci.recv):
            return None
        if last in ('pop', 'update', 'clear', 'setdefault', 'popitem'):
            self.touch(st, ci.recv)
        if last == 'update' and len(ci.recv) == 1 and len(ci.args) == 1:
            b = next(iter(ci.recv))
            src = ci.args[0]
            if all(t[0] == 'D' for t in src):
                st = it.mutated(st, ci.recv)
                new = [{hk[1]: v for hk, v in st.heap.items() if hk[0] == s}
                       for s in src]
                for k in {k for d in new for k in d}:
                    got = [d[k] for d in new if k in d]
                    if len(got) < len(new):
                        got.append(st.heap.get((b, k), val(('maybe',))))
                    st.heap[(b, k)] = frozenset().union(*got)
                return [(st, NONE)]
        if last == 'pop' and ci.args:
            ks = consts_of(ci.args[0])
            if not ks or len(ks) != 1:
                return None
            res = frozenset()
            held = {None if self.open(st, t) else self.held(st, t, ks[0])
                    for t in ci.recv}
            if held != {True} and len(ci.args) < 2:
                it.raise_(st, 'KeyError')
                if held == {False}:
                    return []
            for t in ci.recv:
                res |= st.heap.get((t, ('k', ('c', type(ks[0]).__name__,
                                              ks[0]))), frozenset())
            if held != {True} and len(ci.args) > 1:
                res |= ci.args[1]
            return [(self.drop(st, ci.recv, ks[0]),
                     res - {('maybe',)} or NONE)]
        if last == 'clear':
            st = st.copy()
            for k in [k for k in st.heap if k[0] in ci.recv]:
                del st.heap[k]
            return [(st, NONE)]
        if last == 'setdefault' and ci.args and len(ci.recv) == 1:
            ks = consts_of(ci.args[0])
            t = next(iter(ci.recv))
            if ks and len(ks) == 1 and not self.open(st, t):
                hk = (t, ('k', ('c', type(ks[0]).__name__, ks[0])))
                if hk in st.heap and ('maybe',) not in st.heap[hk]:
                    return [(st, st.heap[hk])]
                st = st.copy()
                st.heap[hk] = ci.args[1] if len(ci.args) > 1 else NONE
                return [(st, st.heap[hk])]
        return None

    def dup(self, st, ci, src):
        d = ('D', (it.stack[-1][0].qual, ci.node.lineno, ci.node.col_offset,
                   st.rs))
        st = st.copy()
        for k in [k for k in st.heap if k[0] == d]:
            del st.heap[k]
        for s in src:
            for hk in list(st.heap):
                if hk[0] == s:
                    st.heap[(d, hk[1])] = st.heap[hk]
        return [(st, val(d))]


def subst(t, n):
    """The same objects, told apart from those a later run makes."""
    if isinstance(t, frozenset):
        return frozenset(subst(x, n) for x in t)
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ('D', 'L') and isinstance(t[1], tuple):
            return (t[0], 'after %d, %r' % (n, t[1]))
        return tuple(subst(x, n) for x in t)
    return t


class World(object):
    """A chain of layers: top, middle, bottom, and another one at the bottom."""
    def __init__(self, ctx, rule='C17'):
        self.ctx, self.proj, self.rule = ctx, ctx.proj, rule
        self.cls = ctx.proj.klass(CLS).qual
        self.n = 0
        self.runs = 0

    def obj(self, name):
        return ('o', self.cls, name)

    def start(self, falsy=False):
        st = State(rs=None)
        for name, parent in (('top', None), ('mid', 'top'), ('low', 'mid'),
                             ('other', 'mid')):
            o = self.obj(name)
            st.heap[(o, 'parent_layer')] = val(self.obj(parent)) if parent \
                else NONE
            st.heap[(o, 'filepath')] = const('<path of %s>' % name)
            st.heap[(o, 'real_path')] = const('<real path of %s>' % name)
            for s, _a, _b, _c, _d, table in SETTINGS:
                st.heap[(o, s)] = const(False) if falsy else \
                    val(('R', '%s of %s' % (s, name)))
                st.heap[(o, table)] = val(('D', '%s of %s' % (table, name)))
        return st

    def call(self, st, name, obj, args=(), **kw):
        """-> ([(state, value)], raised names)"""
        f = self.proj.find_method(self.cls, name)
        c = Layers()
        it = Interp(self.proj, c, None)
        st = st.copy()
        st.facts = {}
        bind = {f.params[0]: val(self.obj(obj))}
        for p, a in zip(f.params[1:], args):
            bind[p] = a
        for k, v in kw.items():
            bind[k] = v
        for p in f.params[1:]:
            if p not in bind and p in f.defaults:
                bind[p] = it.lift(self.proj.const(f.module, f.defaults[p]))
        rets, excs = it.run(f, st, bind)
        self.n += 1
        self.runs += 1
        out = []
        for s, v in rets:
            t = State(s.env, {subst(k, self.n): subst(x, self.n)
                              for k, x in s.heap.items()}, {}, None)
            out.append((t, subst(v, self.n)))
        self.ctx.analysed(it.inlined)
        return f, out, {e for e, _ in excs}, c


def show(v):
    return ' or '.join(sorted(repr(t[2]) if t[0] == 'c' else 'the %s' % t[1]
                              if t[0] == 'R' else 'something else' for t in v))


def unknown(v):
    return any(t[0] not in ('c', 'R') for t in v)


def run(ctx):
    w = World(ctx)
    cases = [0]

    def expect(st, getter, obj, want, key, what, **kw):
        """Each way through the getter gives `want`."""
        cases[0] += 1
        f, outs, excs, c = w.call(st, getter, obj, **kw)
        ctx.obligation('%s: %s' % (f.where, what))
        if excs or not outs:
            ctx.violation('%s:%s' % (f.where, key), f, '%s: raises %s' % (
                what, ', '.join(sorted(excs))))
        for _, v in outs:
            if not v & want and not unknown(v):
                ctx.violation('%s:%s' % (f.where, key), f, '%s: gives %s instead '
                              'of %s' % (what, show(v), show(want)))
        if c.changed:
            ctx.violation('%s:changes' % f.where, f, 'asking for a setting '
                          'changes the %s of a layer' % ', '.join(sorted(
                              a for _, a in c.changed)))

    def act(st, setter, obj, args, key, what):
        cases[0] += 1
        f, outs, excs, c = w.call(st, setter, obj, args)
        if excs or not outs:
            ctx.violation('%s:%s' % (f.where, key), f, '%s fails with %s' % (
                what, ', '.join(sorted(excs)) or 'no result'))
        return f, [s for s, _ in outs], c

    for name, set_, get, over, on_self, table in SETTINGS:
        new = val(('R', 'new %s' % name))
        off = const('') if name in ('alias', 'color') else const(False)

        def is_over(st, obj, value):
            if on_self:
                return act(st, over, obj, [value], 'fails', 'setting an '
                           'override of the %s' % name)
            return act(st, over, 'top', [const('<path of %s>' % obj), value],
                       'fails', 'setting an override of the %s' % name)
        for start in (w.start(), w.start(falsy=True)):
            own = start.heap[(w.obj('low'), name)]
            expect(start, get, 'low', own, 'own', 'the %s of a layer that is '
                   'not overridden is its own' % name, local=const(False))
            for value in (new, off):
                how = 'false' if value is off else 'given'
                if set_:
                    f, sts, c = act(start, set_, 'low', [value], 'fails',
                                    'setting the %s' % name)
                    for s in sts:
                        expect(s, get, 'low', value, 'set-' + how, 'the %s that '
                               'was set (%s) is the local one' % (name, how),
                               local=const(True))
                        expect(s, get, 'low', value, 'set-comped-' + how,
                               'the %s that was set (%s) is in force where '
                               'nothing overrides it' % (name, how),
                               local=const(False))
                        for o in ('other', 'mid'):
                            expect(s, get, o, start.heap[(w.obj(o), name)],
                                   'set-others', 'setting the %s of a layer '
                                   'leaves that of others' % name,
                                   local=const(False))
                f, sts, c = is_over(start, 'low', value)
                for s in sts:
                    expect(s, get, 'low', value, 'over-' + how, 'the override '
                           '(%s) of the %s is in force' % (how, name),
                           local=const(False))
                    expect(s, get, 'low', own, 'over-local', 'an override '
                           'leaves the local %s' % name, local=const(True))
                    for o in ('other', 'mid', 'top'):
                        expect(s, get, o, start.heap[(w.obj(o), name)],
                               'over-others', 'an override of the %s of one '
                               'layer is not that of others' % name,
                               local=const(False))
                    for x in SETTINGS:
                        if x[0] != name:
                            expect(s, x[2], 'low',
                                   start.heap[(w.obj('low'), x[0])],
                                   'over-rest', 'an override of the %s leaves '
                                   'the %s' % (name, x[0]), local=const(False))
                    # a second one replaces the first
                    g, again, c = is_over(s, 'low', val(('R', 'newest')))
                    for z in again:
                        expect(z, get, 'low', val(('R', 'newest')), 'over-again',
                               'the override of the %s set last is in force' %
                               name, local=const(False))
                    for x in SETTINGS:      # nor do two get in each other's way
                        if x[0] == name:
                            continue
                        g, more, c = act(s, x[3], 'low' if x[4] else 'top', (
                            [] if x[4] else [const('<path of low>')]) + [
                                val(('R', 'newest'))], 'fails', 'setting an '
                            'override of the %s' % x[0])
                        for z in more:
                            expect(z, get, 'low', value, 'over-kept', 'an '
                                   'override of the %s outlasts one of the %s'
                                   % (name, x[0]), local=const(False))
                    if set_:
                        g, later, c = act(s, set_, 'low', [val(('R', 'newest'))],
                                          'fails', 'setting the %s' % name)
                        for z in later:
                            expect(z, get, 'low', value, 'over-set', 'an '
                                   'override of the %s outlasts a local one'
                                   % name, local=const(False))
                    if on_self:
                        g, gone, c = act(s, over, 'low', [NONE], 'remove-fails',
                                         'removing an override of the %s' % name)
                        for z in gone:
                            expect(z, get, 'low', own, 'over-removed', 'without '
                                   'its override the local %s is in force' %
                                   name, local=const(False))
        start = w.start()
        above = start.copy()
        for lv in ('mid', 'top'):
            above.heap[(('D', '%s of %s' % (table, lv)), (
                'k', ('c', 'str', '<path of low>')))] = val(
                ('R', 'old')) if on_self else val(
                ('D', '%s of %s for low' % (table, lv)))
        f, sts, c = is_over(above, 'low', new)
        for s in sts:
            expect(s, get, 'low', new, 'over-older', 'the override of the %s '
                   'is in force whatever overrides it replaces' % name,
                   local=const(False))
        if on_self:
            act(start, over, 'low', [NONE], 'remove-fails', 'removing an '
                'override of the %s there is not' % name)
            f, sts, c = act(start, over, 'top', [new], 'top', 'setting an '
                            'override of the %s of the top layer' % name)
            f, sts, c = act(start, over, 'top', [NONE], 'top', 'removing an '
                            'override of the %s of the top layer' % name)
        # the highest override wins
        for levels in (('mid',), ('top',), ('mid', 'top')):
            s = start.copy()
            for lv in levels:
                d = ('D', '%s of %s' % (table, lv))
                v = val(('R', '%s override by %s' % (name, lv)))
                if not on_self:
                    e = ('D', '%s of %s for low' % (table, lv))
                    s.heap[(e, ('k', ('c', 'str', name)))] = v
                    v = val(e)
                s.heap[(d, ('k', ('c', 'str', '<path of low>')))] = v
            expect(s, get, 'low', val(('R', '%s override by %s' % (
                name, levels[-1]))), 'highest', 'the %s override of the highest '
                'layer that has one is in force (%s)' % (
                    name, ' and '.join(levels)), local=const(False))
    ctx.count('settings asked for and set', cases[0], 200)


RULE = Rule('C17', run, 'abstract interpretation of each setter followed by '
            'each getter, over the layers above and beside')
