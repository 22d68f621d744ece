"""C14: what is handed out, and what is copied over, is not shared."""
from ..alias import access, summaries
from ..core import Rule
from .c11_queries import (COMP, FIELDS, MODULES, QUERY, built, settings)

# State of a layer or stage that is a list or a dictionary, and how deep.
DEPTH = {'_cached_children': 2, '_cached_implied_children': 2,
         '_dirty_map': 1, '_node_table': 1, '_nodes_path_as_key': 0,
         '_nodes_node_as_key': 0, 'spec_list': 0, 'nodes': 0,
         'comp_overrides': 0, 'mute_over': 0, 'solo_over': 0,
         'sub_layer_paths': 0, 'sub_layers': 1, 'positions': 0,
         'collapse': 0, 'aliases': 0, 'colors': 0, 'locks': 0,
         '_sub_layers': 0, '_input_metadata': 1, '_sublayer_node_tables': 1}

# Of these the layers and what is built from them each keep their own.
KEPT = {'_node_table', '_nodes_path_as_key', '_nodes_node_as_key',
        'spec_list', 'comp_overrides', 'mute_over', 'solo_over', 'positions',
        'collapse', 'aliases', 'colors', 'locks', '_cached_children',
        '_cached_implied_children', '_dirty_map', '_input_metadata'}


def shared(steps, lists):
    """The state the value is, if it is a container of a layer or node."""
    names = [s for s in steps if s not in ('[]', '~')]
    if not names or steps[-1] in '~!':
        return None
    deep = 0
    for s in reversed(steps):
        if s != '[]':
            break
        deep += 1
    last = names[-1]
    if last in lists and deep == 0:
        return last
    if last in DEPTH and deep <= DEPTH[last]:
        return last
    return None


def containers(s):
    """(term, whether it is what is returned) of a summary."""
    for t in s.result:
        yield t, True
    for (b, k), v in s.heap.items():
        for t in v if k != '$lit' else [u for w in v for u in w]:
            yield t, False


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    k = proj.klass('INTERNAL_ATTRS')
    lists = {proj.class_const(k, 'CHILD_ORDER'),
             proj.class_const(k, 'COMPUTE')}
    fs = [f for q, f in sorted(proj.funcs.items())
          if f.module.name.split('.')[-1] in MODULES and not f.parent]
    reach = cg.reachable([f.qual for f in fs])
    sums, failed = summaries(proj, cg, reach, watch=lists | KEPT)
    asks = [f for f in fs if QUERY.match(f.name) and not f.is_property]
    handed = taken = 0
    for f in asks:
        s = sums.get(f.qual)
        if s is None:
            continue
        ctx.analysed(f.qual)
        ctx.obligation('%s: returns nothing a layer or node holds' % f.where)
        for t, r in sorted(s.escaped.items(), key=repr):
            for root, steps in access(r):
                names = [x for x in steps if x != '[]']
                if names and names[-1] in DEPTH:
                    ctx.violation(
                        '%s:%s:kept' % (f.where, names[-1]), f,
                        'returns a list it also keeps in %s' % names[-1])
        for t, whole in containers(s):
            for root, steps in access(t):
                handed += 1
                what = shared(steps, lists)
                if what:
                    ctx.violation(
                        '%s:%s' % (f.where, what), f, '%s %s itself, '
                        'not a copy (%s%s)' % (
                            'returns' if whole else 'returns something with',
                            what, root[1].split('.')[-1],
                            ''.join('.' + x for x in steps)))
    for f in fs:
        s = sums.get(f.qual)
        if s is None:
            continue
        for (r, attr, v), (g, node) in sorted(s.keeps.items(), key=repr):
            if attr in KEPT:
                at = access(r)
                for root, steps in access(v):
                    taken += 1
                    if not steps or steps[-1] not in KEPT or \
                            (root, steps[:-1]) in at:
                        continue
                    ctx.violation(
                        '%s:%s:%s' % (g.where, f.where, attr), g,
                        'what is kept as %s is the %s of another layer '
                        '(%s%s)%s' % (
                            attr, steps[-1], root[1].split('.')[-1],
                            ''.join('.' + x for x in steps), '' if f is g
                            else ', by way of %s' % f.where), node)
                continue
            for rr, rs in access(r):
                taken += 1
                if built(f, rr, rs):
                    continue
                for root, steps in access(v):
                    if steps and steps[-1] in '~!' or root[0] != 'p' or \
                            (root, steps[:-1]) == (rr, rs):
                        continue
                    ctx.violation(
                        '%s:%s:%s' % (g.where, f.where, attr), g,
                        'a node keeps as its %s a list that is not its own '
                        '(%s%s), by way of %s' % (
                            attr, root[1].split('.')[-1],
                            ''.join('.' + x for x in steps), f.where), node)
    ctx.count('values handed out', handed, 60)
    ctx.count('lists nodes are given', taken, 3)


RULE = Rule('C14', run, 'interprocedural sharing summaries to a fixpoint over '
            'the call graph')
