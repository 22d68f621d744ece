"""C02: the indexes of a layer agree after every edit."""
import ast

from ..interp import (Interp, Client, State, val, NONE, TOP, TOPT, mentions)
from ..project import own_walk, AnalysisBroken
from ..core import Rule

P, N, T, S = ('_nodes_path_as_key', '_nodes_node_as_key', '_node_table',
              'spec_list')
CC, CI = '_cached_children', '_cached_implied_children'
TRACKED = {P, N, T, S, CC, CI}
# API operation -> whether the layer it edits keeps a spec list
API = {
    'SpecLayer.__init__': True,
    'Stage.add_node': True,
    'Stage.delete_node': True,
    'Stage.parent_nodes': False,      # moves nodes: the list is unchanged
    'Stage.set_node_name': False,
    'Stage.add_node_to_comp_layer': False,
    'Stage.remove_node_from_comp_layer': False,
}
PRIMS = {'clear_node_child_cache': 0, 'add_child_to_child_cache': 0,
         'remove_child_from_child_cache': 0}
PARENT_ATTR = '_parent_path'


def parent_typed(st, t, key_terms):
    """Does a term denote some node's parent path?"""
    if t[0] == 'a' and t[2] == PARENT_ATTR:
        return True
    if t[0] == 'r' and isinstance(t[1], str) and \
            t[1].endswith('get_parent_path'):
        return True
    for k in key_terms:
        if k[0] == 'r' and isinstance(k[1], str) and \
                k[1].endswith('join_node_paths') and k[3] and t in k[3][0]:
            return True
    for (b, f), v in st.heap.items():
        if f == PARENT_ATTR and t in v:
            return True
    return False


class Index(Client):
    small = 12
    max_inline = 6

    def __init__(self, api, me, want_s):
        self.api, self.me, self.want_s = api, me, want_s
        self.events = {}
        self.sites = set()

    def never_inline(self, f):
        if f.name in PRIMS:
            return True
        return f.qual in self.api and f.qual != self.me

    def is_event_func(self, f):
        return direct_mutator(f)

    # ---- tracked containers always show as (layer, attribute)
    def attr_load(self, it, st, recv, attr, node):
        if attr in TRACKED:
            return (st, frozenset(('a', b if len(repr(b)) < 400 else TOPT, attr)
                                  for b in recv) or TOP)
        return None

    def which(self, recv):
        out = {t[2] for t in recv if t[0] == 'a' and t[2] in TRACKED}
        return out.pop() if len(out) == 1 and len(recv) >= 1 else None

    def ev(self, st, add=(), drop=()):
        return st.with_rs((st.rs - frozenset(drop)) | frozenset(add))

    def hit(self, what, node, it):
        self.events[what] = self.events.get(what, 0) + 1
        self.sites.add((it.stack[-1][0].qual, node.lineno, what))

    def p_add(self, it, st, key, value, node):
        self.hit('path+', node, it)
        rs = st.rs
        add, drop = [], []
        moved = [x for x in rs if x[0] == 'P-' and any(
            mentions(t, x[1]) for t in value)]
        for x in moved:
            # the entry just taken out goes back under another key
            drop += [x, ('need', 'N-'), ('need', 'S-')]
            add.append(('moved',))
        for need, credit, on in (('N+', 'N+c', True), ('T', 'Tc', True),
                                 ('S+', 'S+c', self.want_s and not moved)):
            if not on:
                continue
            if (credit,) in rs:
                drop.append((credit,))
            else:
                add.append(('need', need))
        if ('Cc',) in rs:
            drop.append(('Cc',))
        else:
            add.append(('need', 'C'))
        for t in key:
            if len(repr(t)) < 300:
                add.append(('key', t))
        return self.ev(st, add, drop + [('rebuilt',)])

    def p_del(self, it, st, key, node, result=None):
        self.hit('path-', node, it)
        rs = st.rs
        add, drop = [], []
        for need, credit, on in (('N-', 'N-c', True), ('T', 'T-c', True),
                                 ('S-', 'S-c', self.want_s)):
            if not on:
                continue
            if (credit,) in rs:
                drop.append((credit,))
            else:
                add.append(('need', need))
        if ('Cc',) in rs:
            drop.append(('Cc',))
        else:
            add.append(('need', 'C'))
        for t in key:
            if len(repr(t)) < 300:
                add.append(('key', t))
        if result is not None:
            add.append(('P-', result))
        return self.ev(st, add, drop + [('rebuilt',)])

    def settle(self, it, st, need, credit, node):
        self.hit(need, node, it)
        if ('need', need) in st.rs:
            return self.ev(st, (), [('need', need)])
        if credit and not (credit == 'Tc' and ('rebuilt',) in st.rs):
            return self.ev(st, [(credit,)])
        return st

    # ---- events
    def item_store(self, it, st, recv, key, value, node):
        w = self.which(recv)
        if w == P:
            return self.p_add(it, st, key, value, node)
        if w == N:
            return self.settle(it, st, 'N+', 'N+c', node)
        return st

    def item_del(self, it, st, recv, key, node):
        w = self.which(recv)
        if w == P:
            return self.p_del(it, st, key, node)
        if w == N:
            return self.settle(it, st, 'N-', 'N-c', node)
        return st

    def attr_store(self, it, st, recv, attr, value, node):
        if attr == T:
            self.hit('table rebuilt', node, it)
            return self.ev(st, [('rebuilt',)], [('need', 'T')])
        if attr == CC:
            self.hit('listings dropped', node, it)
            return self.ev(st, (), [('need', 'C')])
        return st

    def on_call(self, it, st, ci):
        name = ci.name.split('.')[-1]
        if name in PRIMS and ci.recv is not None:
            self.hit('C', ci.node, it)
            x = ci.arg(0, 'parent_path', TOP)
            keys = [r[1] for r in st.rs if r[0] == 'key']
            if any(parent_typed(st, t, keys) for t in x):
                if ('need', 'C') in st.rs:
                    st = self.ev(st, (), [('need', 'C')])
                else:
                    st = self.ev(st, [('Cc',)])
            return [(st, NONE)]
        if ci.recv is None:
            return None
        w = self.which(ci.recv)
        if w is None:
            return None
        if name == '+=':
            name = 'append'
        if w == P:
            if name in ('pop', '__delitem__'):
                r = ('r', 'pop', ci.recv, tuple(ci.args[:1]),
                     (ci.node.lineno, ci.node.col_offset))
                it.raise_(st, 'KeyError')
                return [(self.p_del(it, st, ci.args[0], ci.node, r), val(r))]
            if name in ('update', 'clear', 'setdefault', 'popitem'):
                if name == 'setdefault':
                    return [(self.p_add(it, st, ci.args[0], ci.args[1],
                                        ci.node), TOP)]
                raise AnalysisBroken('bulk update of the path index in %s'
                                     % ci.func.qual)
        elif w == N:
            if name == 'pop':
                it.raise_(st, 'KeyError')
                return [(self.settle(it, st, 'N-', 'N-c', ci.node), TOP)]
            if name == 'setdefault':
                moving = any(r[0] in ('moved', 'P-') for r in st.rs)
                if moving and ('N-c',) not in st.rs:
                    return [(st, TOP)]      # the node keeps its old entry
                return [(self.settle(it, st, 'N+', 'N+c', ci.node), TOP)]
        elif w == T:
            if name in ('append', 'insert', 'extend'):
                return [(self.settle(it, st, 'T', 'Tc', ci.node), NONE)]
            if name in ('remove', 'pop'):
                it.raise_(st, 'ValueError')
                return [(self.settle(it, st, 'T', 'T-c', ci.node), NONE)]
        elif w == S:
            if name in ('append', 'insert', 'extend'):
                return [(self.settle(it, st, 'S+', 'S+c', ci.node), NONE)]
            if name in ('remove', 'pop'):
                it.raise_(st, 'ValueError')
                return [(self.settle(it, st, 'S-', 'S-c', ci.node), NONE)]
        return None

    def branch(self, it, st, test, truth):
        """A path got from the node index is a key of the path index."""
        if not (isinstance(test, ast.Compare) and len(test.ops) == 1 and
                isinstance(test.ops[0], (ast.In, ast.NotIn))) or \
                truth == isinstance(test.ops[0], ast.In):
            return st
        e = test.comparators[0]
        while isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'keys':
                e = e.func.value
            elif isinstance(e.func, ast.Name) and len(e.args) == 1 and \
                    e.func.id in ('list', 'set', 'tuple', 'sorted'):
                e = e.args[0]
            else:
                return st
        if not isinstance(e, (ast.Name, ast.Attribute)):
            return st
        box = [v for _, v in it.ev(e, st.copy())]
        left = [v for _, v in it.ev(test.left, st.copy())] \
            if isinstance(test.left, ast.Name) else []
        if len(box) == 1 and len(left) == 1 and self.which(box[0]) == P and \
                all(indexed(t) for t in left[0]):
            return None
        return st

    def exceptions(self, it, st, ci):
        return ()


def indexed(t):
    return t[0] == 'r' and isinstance(t[1], str) and \
        (t[1].split('.')[-1] == 'get_node_path' or
         t[1].split('.')[-1] == 'get' and t[2] and any(
             x[0] == 'a' and x[2] == N for x in t[2]))


WHAT = {'N+': 'the node index is not updated',
        'N-': 'the node stays in the node index',
        'T': 'the node table is not updated',
        'S+': 'the node is not put in the layer\'s node list',
        'S-': 'the node stays in the layer\'s node list',
        'C': 'the cached child listing of its parent is not invalidated',
        'N+c': 'the node index gets an entry the path index does not',
        'N-c': 'the node index loses an entry the path index keeps'}


MUT = {'pop', 'popitem', 'clear', 'update', 'setdefault', '__setitem__',
       '__delitem__', 'append', 'insert', 'extend', 'remove'}


def direct_mutator(f):
    """Syntactic: changes one of the indexes, directly or through an alias."""
    def index_of(e):
        """The index an expression denotes, if it is one."""
        if isinstance(e, ast.Attribute):
            return e.attr if e.attr in (P, N, T, S) else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
                e.func.id == 'getattr' and len(e.args) >= 2 and \
                isinstance(e.args[1], ast.Constant):
            return e.args[1].value if e.args[1].value in (P, N, T, S) else None
        if isinstance(e, ast.Name):
            return alias.get(e.id)
        return None
    alias = {}
    nodes = list(own_walk(f.node))
    for _ in range(2):
        for n in nodes:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name):
                w = index_of(n.value)
                if w:
                    alias[n.targets[0].id] = w
            if isinstance(n, (ast.For,)) and isinstance(n.target, ast.Name) \
                    and isinstance(n.iter, (ast.Tuple, ast.List)):
                for e in n.iter.elts:
                    if index_of(e):
                        alias[n.target.id] = index_of(e)
    for n in nodes:
        if isinstance(n, (ast.Attribute, ast.Subscript, ast.Name)) and \
                isinstance(n.ctx, (ast.Store, ast.Del)):
            if isinstance(n, ast.Attribute) and n.attr in (P, N, T, S, CC):
                return True
            if isinstance(n, ast.Subscript) and index_of(n.value):
                return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                n.func.attr in MUT and index_of(n.func.value):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id == 'setattr' and len(n.args) > 1 and \
                isinstance(n.args[1], ast.Constant) and \
                n.args[1].value in TRACKED:
            return True
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) \
                and index_of(n.target):
            return True
    return False


class IndexAug(Index):
    """`x.spec_list += [node]` reaches us as an attribute store."""

    def attr_store(self, it, st, recv, attr, value, node):
        if isinstance(it.stmt, ast.AugAssign) and attr in (T, S):
            if attr == T:
                return self.settle(it, st, 'T', 'Tc', node)
            return self.settle(it, st, 'S+', 'S+c', node)
        return Index.attr_store(self, it, st, recv, attr, value, node)


def edit_closure(ctx, api):
    """Functions that edit the indexes without going through an operation."""
    todo = [f.qual for f in ctx.proj.funcs.values() if direct_mutator(f)]
    seen = set(todo)
    while todo:
        q = todo.pop()
        if q in api:
            continue
        for c in ctx.cg.rev.get(q, ()):
            if c not in seen:
                seen.add(c)
                todo.append(c)
    return seen


def judge(ctx, f, want_s, api):
    c = IndexAug(api, f.qual, want_s)
    it = Interp(ctx.proj, c, None)
    it.interesting = edit_closure(ctx, api)
    rets, raises = it.run(f, State(rs=frozenset()))
    ctx.analysed(it.inlined)
    bad = {}
    for s, v in rets:
        for x in s.rs:
            if x[0] == 'need' and x[1] in WHAT:
                bad[x[1]] = 1
            elif x[0] in ('N+c', 'N-c'):
                bad[x[0]] = 1
    if not rets:
        raise AnalysisBroken('no normal exit of ' + f.qual)
    return c, bad, len(rets)


def prims(ctx):
    """The listing-cache primitives keep the four parallel listings in step."""
    proj = ctx.proj
    keys = {'Node', 'Path', 'NodeTable', 'NameDict'}

    class Keys(Client):
        small = 8

        def __init__(self):
            self.touched = set()

        def keyname(self, key):
            return {t[2] for t in key if t[0] == 'c'}

        def scan(self, v):
            out = set()
            for t in v:
                if t[0] == 'i' and t[2][0] == 'c':
                    out.add(t[2][2])
                if t[0] == 'r':
                    for a in (t[2],) + tuple(t[3]):
                        out |= self.scan(a) if isinstance(a, frozenset) else set()
            return out & keys

        def on_call(self, it, st, ci):
            nm = ci.name.split('.')[-1]
            if nm in ('remove', 'append', 'pop', '+=', 'insert') and \
                    ci.recv is not None:
                got = self.scan(ci.recv)
                self.touched |= got
                if got and nm in ('remove', 'pop'):
                    it.raise_(st, 'ValueError' if nm == 'remove' else 'KeyError')
                    return [(st.with_rs(st.rs | got), NONE)]
            return None

        def item_store(self, it, st, recv, key, value, node):
            got = self.scan(recv)
            self.touched |= got
            # `cache[key] = listing` of the rebuilt dictionary
            for t in key:
                if t[0] == 'c' and t[2] in keys:
                    self.touched.add(t[2])
            return st

        def exceptions(self, it, st, ci):
            return ()
    f = proj.func('SpecLayer.remove_child_from_child_cache')
    k = Keys()
    it = Interp(proj, k, ctx.cg)
    it.run(f, State(rs=frozenset()))
    ctx.obligation('%s removes the child from all four listings' % f.where)
    if keys - k.touched:
        ctx.violation('%s:%s' % (f.where, ','.join(sorted(keys - k.touched))), f,
                      'a removed child stays in the cached %s listing'
                      % ', '.join(sorted(keys - k.touched)))
    f = proj.func('SpecLayer.add_child_to_child_cache')
    k = Keys()
    it = Interp(proj, k, ctx.cg)
    it.run(f, State(rs=frozenset()))
    ctx.obligation('%s adds the child to all four listings' % f.where)
    if keys - k.touched:
        ctx.violation('%s:%s' % (f.where, ','.join(sorted(keys - k.touched))), f,
                      'an added child is missing from the cached %s listing'
                      % ', '.join(sorted(keys - k.touched)))


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    api = {proj.func(a).qual: s for a, s in API.items()}
    for p in PRIMS:
        proj.func('SpecLayer.' + p)
    ev = {}
    sites = set()
    n = 0
    covered = set()
    for q, want_s in sorted(api.items()):
        f = proj.funcs[q]
        c, bad, exits = judge(ctx, f, want_s, set(api))
        if not c.events:
            raise AnalysisBroken('%s no longer edits any index' % q)
        n += 1
        sites |= c.sites
        for k, v in c.events.items():
            ev[k] = ev.get(k, 0) + v
        ctx.obligation('every normal exit of %s leaves the indexes in step'
                       % f.where)
        for b in sorted(bad):
            ctx.violation('%s:%s' % (f.where, b), f, 'on some path through it '
                          + WHAT[b])
        covered |= {s[0] for s in c.sites}
    # any other function that edits the indexes directly is an operation too
    for f in proj.funcs.values():
        if f.qual in api or f.qual in covered or f.name in PRIMS:
            continue
        if not direct_mutator(f):
            continue
        c, bad, exits = judge(ctx, f, False, set(api))
        edits = {s for s in c.sites if s[2] in ('path+', 'path-', 'N+', 'N-')}
        if not edits:
            continue
        n += 1
        ctx.obligation('every normal exit of %s leaves the indexes in step'
                       % f.where)
        for b in sorted(bad):
            ctx.violation('%s:%s' % (f.where, b), f, 'on some path through it '
                          + WHAT[b])
    prims(ctx)
    ctx.count('layer-editing operations', n, len(API))
    ctx.count('index edit sites', len(sites), 20)
    ctx.note({'events': ev})


RULE = Rule('C02', run,
            'typestate over the layer indexes: paired-update and cache-'
            'invalidation obligations on every path, helpers looked through')
