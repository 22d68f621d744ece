"""C03: what a layer saves is what the same layer loads."""
from ..core import Rule
from ..deps import Deps, V, flat
from ..project import AnalysisBroken

# The layer file format: every setting a saved layer keeps.
KEYS = ('alias', 'mute', 'solo', 'color', 'lock', 'references',
        'comp_overrides', 'nodes')
META = ('positions', 'collapse', 'aliases', 'colors', 'locks')
# Settings whose saved value is this layer's own, whoever references it.
OWN = ('alias', 'mute', 'solo', 'color', 'lock')
ROOT = 'layer'


class Save(Deps):
    def __init__(self, proj, cg):
        Deps.__init__(self, proj, cg)
        self.written = []
        self.guards = {}

    def on_call(self, st, name, recv, args, kw, node):
        if name.split('.')[-1] == 'save_file_data':
            v = kw.get('save_data') or (args[0] if args else None)
            if v is not None:
                self.written.append((self.stack[-1][0], node,
                                     self.deref(v, st), st))
            return V()
        return None

    def on_item(self, st, base, k, v, node):
        if isinstance(k.const, str) and k.const in KEYS + META:
            self.guards.setdefault(k.const, []).append(
                (self.stack[-1][0], node, self.ctl(st),
                 flat(v) | self.reach(v, st)))


def fields(labels, obj):
    return {x[2] for x in labels if x[0] == 'field' and x[1] == obj}


def paths(labels):
    return {x[2] for x in labels if x[0] == 'key' and x[1] == ROOT}


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    c = proj.klass('SpecLayer')
    init, save = proj.func('SpecLayer.__init__'), proj.func('SpecLayer.save')
    obj = ('self', c.qual)
    this = V(obj=obj)

    ld = Deps(proj, cg)
    _, st = ld.run(init, {init.params[0]: this,
                          init.params[1]: V({('key', ROOT, ())})})
    loaded = {}           # key path -> fields
    for (o, attr), v in st.fields.items():
        if o == obj:
            for p in paths(ld.reach(v, st)):
                for i in range(1, len(p) + 1):
                    loaded.setdefault(p[:i], set()).add(attr)

    sv = Save(proj, cg)
    _, st = sv.run(save, {save.params[0]: this})
    if not sv.written:
        raise AnalysisBroken('SpecLayer.save hands no data to save_file_data')
    ctx.analysed(ld.seen | sv.seen)
    # where the opinions of other layers about this one live
    overs = {'parent_layer'}
    for p in [('comp_overrides',)] + [('meta_data', k) for k in META]:
        overs |= loaded.get(p, set())
    sites = 0
    for f, node, data, dst in sv.written:
        sites += 1
        meta = sv.deref(data.keys['meta_data'], dst) \
            if 'meta_data' in data.keys else V()
        want = [((k,), data, KEYS, k) for k in KEYS] + \
            [(('meta_data', k), meta, META, k) for k in META]
        for path, where, _, k in want:
            name = '.'.join(path)
            v = where.keys.get(k)
            got = loaded.get(path, set())
            ctx.obligation('the field loaded from %r is what is saved as %r'
                           % (name, name))
            if v is None:
                if flat(where) and not where.keys:
                    raise AnalysisBroken('saved data is not followed: ' + name)
                ctx.violation('not-saved:' + name, f, 'the layer setting %r is '
                              'not saved' % name, node)
                continue
            src = fields(sv.reach(v, dst), obj)
            if not got:
                ctx.violation('not-loaded:' + name, init, 'the saved layer '
                              'setting %r is never loaded' % name)
            elif not (src & got):
                ctx.violation('mismatch:' + name, f, 'saved %r comes from %s '
                              'but is loaded into %s' % (
                                  name, sorted(src), sorted(got)), node)
            elif len(path) == 1 and k in OWN:
                alien = (src - got) & overs
                if alien:
                    ctx.violation('not-own:' + name, f, 'the saved %r also '
                                  'depends on %s, not only on the layer\'s own '
                                  'setting' % (name, sorted(alien)), node)
    # a setting is not kept or left out because of some other setting
    for k, stores in sorted(sv.guards.items()):
        for f, node, ctl, deps in stores:
            other = fields(ctl, obj) - fields(deps, obj) - \
                loaded.get((k,), set()) - loaded.get(('meta_data', k), set())
            ctx.obligation('whether %r is saved depends on nothing else' % k)
            if other:
                ctx.violation('conditional:' + k, f, 'whether %r is saved '
                              'depends on %s' % (k, sorted(other)), node)
    # and each setting that is loaded is loaded from its own key only
    for k in OWN:
        for attr in sorted(loaded.get((k,), ())):
            others = sorted(p for p, fs in loaded.items()
                            if attr in fs and p[0] != k and p[0] in KEYS)
            if others and attr not in {a for p in others
                                       for a in loaded.get(p, ())
                                       if a == p[0]}:
                ctx.violation('loaded-from:' + k, init, 'the setting loaded '
                              'from %r also depends on %s' % (k, others))
    ctx.count('layer settings traced to a field and back',
              len(KEYS) + len(META), 13)
    ctx.count('places that write a layer file', sites, 1)


RULE = Rule('C03', run, 'dependence analysis of the layer loader and of the '
            'data the saver writes, compared key by key')
