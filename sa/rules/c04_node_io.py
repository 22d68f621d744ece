"""C04: what a node saves is what the same node loads."""
from ..core import Rule
from ..deps import Deps, V, St, flat
from ..project import AnalysisBroken

NODE = ('start_point', 'instance', 'execute_in', 'child_order', 'enabled',
        'comment', 'code')
SUB = ('value', 'type', 'comment')
# The world node has no such settings; only these are kept for it.
WORLD = ('comment', 'code')
ATTR = 'userattr'       # stands for any user attribute name
# A false, zero or empty one of these is an opinion and must survive.
FALSY = {('attrs', ATTR, 'value'), ('enabled',)}


def leaf(*path):
    return V({('leaf', path)})


def record(st, path, tree):
    keys = {}
    for k, v in tree.items():
        keys[k] = record(st, path + (k,), v) if isinstance(v, dict) else v
    st.heap[('in',) + path] = V(keys=keys)
    return V(refs={('in',) + path})


class Load(Deps):
    def __init__(self, proj, cg):
        Deps.__init__(self, proj, cg)
        self.made = []

    def on_call(self, st, name, recv, args, kw, node):
        if name.split('.')[-1] == 'new' and (args or 'attrs' in kw):
            v = self.deref(kw.get('attrs') or args[0], st)
            self.made.append((self.stack[-1][0], node, v, st))
            return V(obj=('node',))
        return None


class Save(Deps):
    def __init__(self, proj, cg, attrs, name):
        Deps.__init__(self, proj, cg)
        self.attrs, self.name = attrs, name
        self.name_attr = proj.class_const(
            proj.klass('INTERNAL_ATTRS'), 'NAME')
        self.stores = []

    def load_attr(self, b, attr, st, node):
        if b.obj == ('node',):
            if attr == '__dict__':
                return V(refs={('node', '__dict__')})
            if attr == self.name_attr:
                return V(const=self.name)
            return self.attrs.keys.get(attr, V(const=None))
        return Deps.load_attr(self, b, attr, st, node)

    def on_item(self, st, base, k, v, node):
        self.stores.append((self.stack[-1][0], node, self.ctl(st),
                            flat(v) | self.reach(v, st)))


def leaves(labels):
    return {x[1] for x in labels if x[0] == 'leaf'}


def trip(ctx, name, wanted):
    """-> what of a node with this name comes back where it came from"""
    proj, cg = ctx.proj, ctx.cg
    create = proj.func('nxt_node.create_spec_node')
    save = proj.func('nxt_node.get_node_as_dict')
    st = St({}, {}, {})
    tree = {'name': V(const=name),
            'attrs': {ATTR: {k: leaf('attrs', ATTR, k) for k in SUB}}}
    tree.update({k: leaf(k) for k in NODE})
    ld = Load(proj, cg)
    ld.run(create, {create.params[0]: record(st, (), tree),
                    create.params[1]: V({('param', 'layer')}),
                    'is_proxy': V(const=False)}, st)
    if not ld.made:
        raise AnalysisBroken('create_spec_node makes no node')
    for f, node, attrs, dst in ld.made:
        if attrs.labels:
            raise AnalysisBroken('loaded attributes are not followed')
        sv = Save(proj, cg, attrs, name)
        st = St({}, {}, dict(dst.heap))
        st.heap[('node', '__dict__')] = attrs
        r, out = sv.run(save, {save.params[0]: V(obj=('node',))}, st)
        ctx.analysed(ld.seen | sv.seen)
        data = sv.deref(r, out)
        paths = [(k,) for k in wanted] + [('attrs', ATTR, k) for k in SUB]
        for path in paths:
            label = '.'.join(path)
            ctx.obligation('%s node: %r loads and saves in one place'
                           % (name, label))
            v = data
            for k in path:
                v = sv.item(sv.deref(v, out), V(const=k), out)
            got = leaves(flat(v) | sv.reach(v, out))
            had = set()
            for a in attrs.keys.values():
                had |= leaves(flat(a) | ld.reach(a, dst))
            if path not in had:
                ctx.violation('not-loaded:' + label, create,
                              'the saved %r is never loaded into the node'
                              % label)
            elif path not in got:
                ctx.violation('not-saved:' + label, save, 'the %r of a node is '
                              'not saved under its own key (there: %s)'
                              % (label, sorted('.'.join(x) for x in got)))
            elif path in FALSY and ('truth', ('leaf', path)) in \
                    flat(v) | sv.reach(v, out):
                ctx.violation('falsy:' + label, save, 'a false, zero or empty '
                              '%r does not survive' % label)
        for g, node, ctl, deps in sv.stores:
            mine = leaves(deps)
            if not mine:
                continue
            other = leaves(ctl) - mine
            # which of several parts exists may decide how they are arranged
            if other and len(mine) == 1:
                ctx.violation('conditional:%s' % '.'.join(sorted(mine)[0]), g,
                              'whether %r of a node is saved depends on %s' % (
                                  '.'.join(sorted(mine)[0]),
                                  sorted('.'.join(x) for x in other)), node)
            for p in FALSY & mine:
                if ('truth', ('leaf', p)) in ctl and len(mine) == 1:
                    ctx.violation('falsy:' + '.'.join(p), g, 'a false, zero or '
                                  'empty %r is not saved' % '.'.join(p), node)
    return len(paths)


def run(ctx):
    n = trip(ctx, 'node', NODE)
    n += trip(ctx, '/', WORLD)
    ctx.count('node settings traced through load and save', n, 10)


RULE = Rule('C04', run, 'label dependence through the node loader and the node '
            'saver, one label for each setting of a node')
