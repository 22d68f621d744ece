"""C32: a node or an attribute never takes the place of another."""
import ast

from ..core import Rule
from ..interp import (Interp, Client, State, val, const, NONE, TOPT, consts_of,
                      mentions)
from ..project import AnalysisBroken
from ..expand import known

INDEX = '_nodes_path_as_key'
PARENT, NAME = '_parent_path', '_name'
# The operations that give a node a path, and how a caller asks for names to
# be kept as they are.
OPS = {'Stage.add_node': ('fix_names', True),
       'Stage.parent_nodes': ('check_names', True),
       'Stage.set_node_name': ('force', False)}
CALLERS = ('Stage.add_node_hierarchy', 'Stage.duplicate_node')
# what else happens on the way does not give names
AWAY = {'build_stage', 'targeted_comp_pre_proxies', 'targeted_comp_proxies',
        'targeted_comp_post_proxies', 'set_node_child_order', 'refresh',
        'get_node_as_dict', 'children', 'ancestors', 'legalize_name',
        'descendants', 'get_node_spec', 'get_node_source_layer', 'layer_idx'}
OWN = '$own'        # the names nxt keeps for itself
NAMES = {'get_node_local_attr_names', '__dict__', 'vars', 'dir'}
P = lambda x: ('p', x)      # noqa: E731


def words(t, out, depth=0):
    """The names of calls and attributes a value is made of."""
    if depth > 12 or not isinstance(t, (tuple, frozenset)):
        return out
    if isinstance(t, tuple) and t:
        if t[0] == 'cat':
            out |= t[2]
            return out
        if t[0] == 'c' and len(t) > 2 and isinstance(
                t[2], (tuple, list, set, frozenset)) and NAME in t[2]:
            out.add(OWN)
            return out
        if t[0] in ('r', 'a'):
            for x in t[1:3]:
                if isinstance(x, str):
                    out.add(x.split('.')[-1])
    for x in t:
        words(x, out, depth + 1)
    return out


class Unique(Client):
    """rule state: ('free', layer, path) no node of it has that path,
    ('placed', path) a node was put there, ('unused', name) no attribute has
    that name"""
    small = 20

    def __init__(self, proj, ops, near):
        self.proj, self.ops = proj, ops
        self.stores = self.calls = self.sets = self.adds = 0
        self.bad = {}
        self.near = near
        self.known = known()
        INTERNAL(proj)

    def never_inline(self, f):
        return f.qual in self.ops or f.name in AWAY or \
            f.qual in self.known and f.qual not in self.near

    # ------------------------------------------------------------- values
    def attr_load(self, it, st, recv, attr, node):
        if attr == INDEX:
            return st, frozenset(('a', b, attr) for b in recv)
        if attr == '__dict__':
            return st, val(('cat', (attr,), frozenset([attr])))
        return None

    def binop_result(self, it, st, left, right):
        return self.made(it, st, (left, right), it.binop_node)

    def made(self, it, st, parts_, n):
        """A text put together here, anew each time."""
        t = ('cat', (it.stack[-1][0].qual, n.lineno, n.col_offset),
             frozenset(x for v in parts_ for x in words(v, set())))
        new = frozenset(x for x in st.rs if not any(
            isinstance(y, tuple) and y and y[0] == 'cat' and y[1] == t[1]
            for y in parts(x)))
        if len(new) != len(st.rs):
            st = st.with_rs(new)
        return st, val(t)

    def branch(self, it, st, test, truth):
        """any(x.lookup(path) for x in (..)) did not hold."""
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, truth = test.operand, not truth
        if truth or not (isinstance(test, ast.Call) and isinstance(
                test.func, ast.Name) and test.func.id == 'any' and
                len(test.args) == 1 and isinstance(
                    test.args[0], (ast.GeneratorExp, ast.ListComp))):
            return st
        g = test.args[0]
        look = g.elt
        if len(g.generators) != 1 or g.generators[0].ifs or not isinstance(
                g.generators[0].iter, (ast.Tuple, ast.List)) or \
                not isinstance(g.generators[0].target, ast.Name):
            return st
        if isinstance(look, ast.Compare) and len(look.ops) == 1 and isinstance(
                look.ops[0], ast.IsNot):
            look = look.left
        if not (isinstance(look, ast.Call) and isinstance(
                look.func, ast.Attribute) and look.func.attr == 'lookup' and
                len(look.args) == 1 and isinstance(
                    look.func.value, ast.Name) and
                look.func.value.id == g.generators[0].target.id):
            return st
        new = set()
        for e in g.generators[0].iter.elts:
            r = [v for _, v in it.ev(e, st.copy())]
            a = [v for _, v in it.ev(look.args[0], st.copy())]
            if len(r) == len(a) == 1:
                new.add(('free', r[0], a[0]))
        return st.with_rs(st.rs | new)

    def layerish(self, v, cls):
        """Is this a layer of that class, as far as one can tell?"""
        if cls == 'CompLayer':
            if v == val(('comp',)) or v == val(P('comp_layer')):
                return True
            if all(t == P('layer') or t[0] == 'a' and
                   t[2] in ('top_layer',) for t in v):
                return False
        elif cls == 'SpecLayer':
            if all(t == P('layer') or t[0] == 'a' and
                   t[2] in ('top_layer',) for t in v):
                return True
        elif cls == 'int' and v == val(P('layer')):
            return False
        return None

    def on_call(self, it, st, ci):
        last = ci.name.split('.')[-1]
        tq = {f.qual for f in ci.targets or ()}
        n = ci.node
        where = (it.stack[-1][0].qual, n.lineno, n.col_offset)
        if ci.name == 'isinstance' and len(n.args) == 2:
            c = n.args[1]
            ks = {self.layerish(ci.args[0], x.id if isinstance(x, ast.Name)
                                else getattr(x, 'attr', None))
                  for x in (c.elts if isinstance(c, ast.Tuple) else [c])}
            k = True if True in ks else False if ks == {False} else None
            return None if k is None else [(st, const(k))]
        if ci.name == 'len' and ci.args and len(ci.args[0]) == 1:
            t = list(ci.args[0])[0]
            if (t, '$lit') in st.heap:
                return [(st, const(len(st.heap[(t, '$lit')])))]
            return None
        if last == 'lookup' and ci.recv is not None and len(ci.args) == 1:
            r = ('found', where)
            there = st.copy()
            there.facts[('t', r)] = True
            free = st
            if TOPT not in ci.recv and all(t[0] in ('join', 'r')
                                           for t in ci.args[0]):
                free = st.with_rs(st.rs | {('free', ci.recv, ci.args[0])})
            return [(there, val(r)), (free, NONE)]
        if last == 'get' and ci.recv is not None and len(ci.args) == 1 and \
                all(t[0] == 'a' and t[2] == INDEX for t in ci.recv):
            r = ('found', where)
            there = st.copy()
            there.facts[('t', r)] = True
            free = st.with_rs(st.rs | {(
                'free', frozenset(t[1] for t in ci.recv), ci.args[0])})
            return [(there, val(r)), (free, NONE)]
        if last == 'join_node_paths' and len(ci.args) == 2:
            return [(st, val(('join',) + tuple(ci.args)))]
        if last == 'replace_ancestor' and len(ci.args) == 3:
            return [(st, val(('moved', ci.args[2])))]
        if last in ('get_node_local_attr_names', 'vars', 'dir'):
            w = last
            if len(ci.args) + len(ci.kw) > 2 and consts_of(
                    ci.arg(2, 'active_only', val(TOPT))) == [False]:
                w = '__dict__'      # whether or not the layer is active
            return [(st, val(('cat', where, frozenset([w]))))]
        if last == 'add_node_attr':
            name = ci.arg(1, 'attr', val(TOPT))
            self.adds += 1
            if not all(('unused', t, 'muted') in st.rs for t in name):
                self.bad['again'] = ('setting an attribute can make another '
                                     'one beside it', it.stack[-1][0], n)
            return [(st, NONE)]
        if ci.name in ('tuple', 'list', 'set', 'frozenset', 'sorted') and \
                ci.args:
            w = words(ci.args[0], set()) & (NAMES | {OWN})
            if w:
                return [(st, val(('cat', where, frozenset(w))))]
        if last == 'format' or ci.name == 'str':
            st, v = self.made(it, st, list(ci.args) + list(ci.kw.values()) + (
                [ci.recv] if ci.recv is not None else []), n)
            return [(st, v)]
        if last in ('update', 'extend', 'append', 'add', '+=', '|=') and \
                ci.recv and ci.args:
            w = words(ci.args[0], set()) & (NAMES | {OWN})
            if w:
                return [(st.with_rs(st.rs | {
                    ('has', t, x) for t in ci.recv for x in w}), NONE)]
        if last == 'legalize_name':
            return [(st, val(('r', last, None, (), where)))]
        if last == 'build_stage':
            st = st.copy()
            st.facts[('t', ('comp',))] = True
            # what was known of an earlier one says nothing of this one
            return [(st.with_rs(frozenset(
                x for x in st.rs if x[:2] != ('free', val(('comp',))))),
                val(('comp',)))]
        if last == 'create_spec_node':
            t = ('spec', where)
            st = st.copy()
            for k in [k for k in st.heap if k[0] == t]:
                del st.heap[k]
            pp = ci.arg(2, 'parent_path')
            if pp is not None:
                st.heap[(t, PARENT)] = pp
            st.facts[('t', t)] = True
            return [(st, val(t))]
        if ci.name == 'setattr' and len(ci.args) == 3 and \
                it.stack and consts_of(ci.args[1]) is None:
            self.named(it, st, ci.args[0], ci.args[1], n)
            return [(st, NONE)]
        op = [q for q in tq if q in self.ops]
        if op or (not tq and ci.recv is not None and any(
                q.split('.')[-1] == last for q in self.ops)):
            q = op[0] if op else [
                x for x in self.ops if x.split('.')[-1] == last][0]
            self.asked(it, st, q, ci)
            return [(st, val(('r', last, None, (), where)))]
        return None

    # ---------------------------------------------------------- obligations
    def item_store(self, it, st, recv, key, value, node):
        ls = {t[1] for t in recv if t[0] == 'a' and t[2] == INDEX}
        if not ls or len(ls) != len(recv):
            return st
        if ls == {('comp',)} or ls == {P('comp_layer')}:
            return st
        self.stores += 1
        if all(k[0] == 'moved' and any(('placed', x) in st.rs for x in k[1])
               for k in key):
            return st
        for k in key:
            if k[0] == 'moved' and any(('placed', x) in st.rs for x in k[1]):
                continue
            mine = others = False
            want = single(val(k))
            for x in st.rs:
                if x[0] == 'free' and want <= single(x[2]):
                    mine = mine or len(ls) == 1 and x[1] == frozenset(ls)
                    others = others or not (x[1] & frozenset(ls))
            if not mine:
                self.bad['own'] = ('a node can take the path of another node '
                                   'of its layer', it.stack[-1][0], node)
            if not others:
                self.bad['comp'] = ('a node can take the path of a node of '
                                    'another layer', it.stack[-1][0], node)
        return st.with_rs(frozenset(
            {x for x in st.rs if x[0] not in ('free', 'placed')} |
            {('placed', k) for k in key if k[0] == 'join'}))

    def asked(self, it, st, q, ci):
        """An operation is asked to leave names as they are: allowed where the
        path was seen to be free, or follows a node that has moved."""
        f = self.ops[q][0]
        opt, on = self.ops[q][1]
        argv = it.bind_args(f, ci.recv, ci.args, ci.kw, st)
        v = argv.get(opt)
        self.calls += 1
        if v is None or v == val(P(opt)) or any(
                t[0] == 'default' for t in v):
            return
        c = consts_of(v)
        if c is None or set(c) == {on}:
            return
        me = it.stack[-1][0]
        if q.endswith('parent_nodes'):
            ok = all(('placed', t) in st.rs or
                     any(x[0] == 'free' and x[1] == argv.get('layer') and
                         single(val(t)) <= single(x[2]) for x in st.rs)
                     for t in argv['parent_path'])
        else:
            ok = any(x[0] == 'free' and x[1] == argv.get('layer')
                     for x in st.rs)
        if not ok:
            self.bad['kept'] = ('%s is told to keep a name that may be taken'
                                % f.name, me, ci.node)

    def named(self, it, st, node, name, at):
        if it.stack[-1][0].qual not in self.setters:
            return
        for t in name:
            if t[0] == 'cat' and not any(
                    ('unused', t) == x[:2] for x in st.rs):
                # the name of a part of an attribute
                continue
            self.sets += 1
            if not any(x == ('unused', t, 'local') for x in st.rs):
                self.bad['attr'] = ('an attribute can take the place of '
                                    'another', it.stack[-1][0], at)
            elif ('unused', t, 'kept') not in st.rs:
                self.bad['kept'] = ('an attribute can get a name nxt keeps '
                                    'for itself', it.stack[-1][0], at)
            elif not any(x == ('unused', t, 'muted') for x in st.rs):
                self.bad['muted'] = (
                    'an attribute can take the place of another where the '
                    'layer is not active', it.stack[-1][0], at)
    setters = ()

    def tested(self, it, st, item, coll, result):
        if result:
            return st
        w = words(coll, set()) | {
            x[2] for x in st.rs if x[0] == 'has' and x[1] in coll}
        new = set()
        if w & NAMES:
            new |= {('unused', t, 'local') for t in item}
        if w & NAMES - {'get_node_local_attr_names'} or any(
                x[0] == 'free' and 'get_node_path' in words(x[2], set())
                for x in st.rs):
            # or the node is not in the layer
            new |= {('unused', t, 'muted') for t in item}
        if OWN in w:
            new |= {('unused', t, 'kept') for t in item}
        return st.with_rs(st.rs | new) if new else st

    def joined(self, it, st, vs, node):
        return self.made(it, st, vs, node)

    def lookup_exc(self, it, st, recv, key, node):
        return None

    def exceptions(self, it, st, ci):
        return ()


def single(v):
    """The paths a value stands for, one by one."""
    out = set()
    for t in v:
        if t[0] == 'join' and len(t[1]) * len(t[2]) < 40:
            out |= {('join', a, b) for a in t[1] for b in t[2]}
        else:
            out.add(t)
    return out


def parts(x):
    out = []
    todo = [x]
    while todo:
        y = todo.pop()
        out.append(y)
        if isinstance(y, (tuple, frozenset)):
            todo.extend(z for z in y if isinstance(z, (tuple, frozenset)))
    return out


def INTERNAL(proj):
    k = proj.klass('INTERNAL_ATTRS')
    got = (proj.class_const(k, 'PARENT_PATH'), proj.class_const(k, 'NAME'))
    if got != (PARENT, NAME):
        raise AnalysisBroken('the name of a node is kept elsewhere: %r' % (
            got,))
    return got


def default(f, p):
    a = f.node.args
    names = [x.arg for x in a.args]
    i = names.index(p) - (len(names) - len(a.defaults))
    if p not in names or i < 0 or not isinstance(a.defaults[i], ast.Constant):
        raise AnalysisBroken('%s has no default for %s' % (f.qual, p))
    return const(a.defaults[i].value)


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    ops = {proj.func(q).qual: (proj.func(q), o) for q, o in OPS.items()}
    unique = proj.func('Stage.get_unique_node_name').qual
    near = cg.callers_closure({unique})
    stores = calls = 0

    def go(f, bind, true=(), interesting=()):
        c = Unique(proj, ops, near | set(interesting))
        c.setters = (f.qual,) if interesting else ()
        it = Interp(proj, c, None)
        it.interesting = c.near
        st = State(rs=frozenset())
        for t in true:
            st.facts[('t', t)] = True
        it.run(f, st, bind=bind)
        ctx.analysed(it.inlined)
        return c
    for q, (f, (opt, on)) in sorted(ops.items()):
        for comp in (False, True):
            if comp and 'comp_layer' not in f.params:
                continue
            bind = {opt: default(f, opt)}
            if 'comp_layer' in f.params and not comp:
                bind['comp_layer'] = NONE
            true = [P('layer')] + [P(x) for x in ('comp_layer', 'name')
                                   if x in f.params]
            ctx.obligation('%s%s: the path it gives a node is free' % (
                f.where, ' with a comp' if comp else ''))
            c = go(f, bind, true)
            stores += c.stores
            calls += c.calls
            report(ctx, f, c)
    for q in CALLERS:
        f = proj.func(q)
        c = go(f, {}, [P('layer')])
        ctx.obligation('%s: names are kept only where they are free' % f.where)
        calls += c.calls
        report(ctx, f, c)
    ctx.count('places a node is given a path', stores, 6)
    ctx.count('operations asked to give a path', calls, 6)
    sets = 0
    names = proj.func('Stage.get_unique_attr_name').qual
    for q in ('Stage.add_node_attr', 'Stage.rename_node_attr'):
        f = proj.func(q)
        c = go(f, {}, [P('layer')], interesting=[names])
        ctx.obligation('%s: the name it gives an attribute is free' % f.where)
        sets += c.sets
        report(ctx, f, c)
    ctx.count('places an attribute is given a name', sets, 2)
    f = proj.func('Stage.node_setattr_data')
    c = go(f, {}, [P('layer')])
    ctx.obligation('%s: an attribute is added only where it is not there'
                   % f.where)
    report(ctx, f, c)
    ctx.count('attributes added by setting them', c.adds, 1)


def report(ctx, f, c):
    for k, (why, g, node) in sorted(c.bad.items()):
        ctx.violation('%s:%s' % (f.where, k), g, why, node)


RULE = Rule('C32', run, 'abstract interpretation of the operations that name '
            'nodes and attributes, with what is known to be free')
