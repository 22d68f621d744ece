"""C11: asking, building, executing and saving change nothing authored."""
import re

from ..alias import access, summaries
from ..core import Rule

MODULES = ('stage', 'nxt_layer', 'nxt_node')
QUERY = re.compile(
    r'^(get_|is_|has_|total_|next_|prev_|determine|safe_get|resolve|'
    r'infer|closest|first_|node_exists|node_attr_exists|node_is|'
    r'children$|descendants$|ancestors$|lookup|find_|instances_ancestor|'
    r'instance_is_possible|reference_layers|loaded_files|'
    r'build_stage$|setup_runtime_layer|execute|save$|save_to_temp|exec_)')
SESSION = re.compile(r'^(save|execute|exec_)')
PURE = re.compile(r'^(?!setup|build|infer|exec|save)')
# What a layer or a stage is made of; the rest of their fields are caches.
FIELDS = {
    '_node_table', '_nodes_path_as_key', '_nodes_node_as_key', 'spec_list',
    'mute', 'solo', 'mute_over', 'solo_over', 'filepath', 'real_path', 'cwd',
    'alias', 'comp_overrides', 'sub_layer_paths', 'sub_layers',
    'parent_layer', 'positions', 'collapse', 'aliases', 'colors', 'color',
    'lock', 'locks', '_name', '_layer_idx', '_sub_layers', 'top_layer',
    '_filepath', 'uid', 'references', 'meta_data', 'version',
    '_input_metadata'}
SAVES = re.compile(r'^save($|_(?!to_temp))')
IDENTITY = {'alias', 'real_path', 'filepath', 'cwd'}
COMP = re.compile(r'comp(?!_overrides)|runtime|cache')


def settings(proj):
    """The attributes nodes keep their own settings in."""
    k = proj.klass('INTERNAL_ATTRS')
    out = set()
    for name in ('TRACKED', 'CHILD_ORDER', 'NAME', 'PARENT_PATH', 'ALL'):
        v = proj.class_const(k, name)
        out |= {v} if isinstance(v, str) else set(v or ())
    return out - {proj.class_const(k, 'SOURCE_LAYER')}


def roots(proj):
    for q, f in sorted(proj.funcs.items()):
        m = f.module.name.split('.')[-1]
        if f.parent or f.kind == 'setter':
            continue
        if m in MODULES and QUERY.match(f.name) or \
                m == 'session' and SESSION.match(f.name):
            yield f


def built(f, root, steps):
    """The object belongs to what is built from the layers."""
    return (root[0] == 'o' or
            root[0] == 'p' and (COMP.search(root[1]) or
                                f.name.startswith('exec') and
                                root[1] == 'layer') or
            root[0] == 'self' and 'Comp' in root[1].split('.')[-1] or
            root[0] == 'self' and 'Cache' in root[1].split('.')[-1] or
            any(COMP.search(s) for s in steps))


def judge(f, root, steps, what, attrs, asks):
    """Why the change is one of something authored, or None."""
    if steps and steps[-1] == '!':
        steps = steps[:-1]
    while steps and steps[-1] == '~':
        if what[0] == 'items':
            return None
        steps = steps[:-1]
    names = [s for s in steps if s not in ('[]', '~')]
    own = bool(built(f, root, steps))
    if own and asks and PURE.match(f.name):
        own = not names or names[-1] not in FIELDS | {'_dirty_map', 'nodes'}
    for x in ('__bases__', '__mro__'):
        if x in steps:
            after = [s for s in steps[steps.index(x) + 1:]
                     if s not in ('[]', '~')]
            if what[0] == 'items' and not after:
                return None
            if what[0] == 'set' and what[1] == '__bases__':
                return None
            return 'a node it inherits from is changed'
    last = names[-1] if names else None
    if what[0] == 'items':
        if last is None or not asks and not own:
            return None
        if last in attrs or last == '*':
            return 'the value of a node is changed in place'
        if last == '_node_table' and steps[-1] == '[]':
            return 'an entry of the node table is changed in place'
        if last == '_node_table' and what[1] in ('put', 'order'):
            return None
        if not own and last in FIELDS | {'_dirty_map', 'nodes'} and \
                (steps[-1] == last or last == '_dirty_map'):
            return 'what a layer is made of is changed'
        return None
    attr = what[1]
    if own or not asks:
        return None
    if SAVES.match(f.name) and attr in IDENTITY:
        return None
    if attr in attrs:
        return 'a setting of a node is changed'
    if attr is None and names:
        return 'a node is changed'
    if attr in FIELDS:
        return 'what a layer is made of is changed'
    return None


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    attrs = settings(proj)
    ask = list(roots(proj))
    others = [f for q, f in sorted(proj.funcs.items())
              if f.module.name.split('.')[-1] in MODULES and f not in ask]
    reach = cg.reachable([f.qual for f in ask + others])
    sums, failed = summaries(proj, cg, reach)
    ctx.count('functions that ask, build, execute or save', len(ask), 60)
    ctx.count('functions summarised', len(sums), 150)
    changes = 0
    for f in ask + others:
        s = sums.get(f.qual)
        if s is None:
            continue
        asks = f in ask
        ctx.analysed(f.qual)
        ctx.obligation('%s: %s' % (f.where, 'changes nothing authored' if asks
                                   else 'edits no value of a built node in '
                                   'place'))
        for (t, what), (g, node, _) in sorted(
                s.effects.items(), key=lambda kv: repr(kv[0])):
            for root, steps in access(t):
                changes += 1
                why = judge(f, root, steps, what, attrs, asks)
                if why is None:
                    continue
                ctx.violation(
                    '%s:%s:%s' % (g.where, f.where if asks else '',
                                  what[-1]),
                    g, '%s (%s%s%s)%s' % (
                        why, root[1].split('.')[-1],
                        ''.join('.' + x for x in steps),
                        '.%s' % what[1] if what[0] == 'set' else '',
                        '' if f is g else ', by way of %s' % f.where), node)
    ctx.count('changes judged', changes, 100)


RULE = Rule('C11', run, 'interprocedural side effect and sharing summaries to '
            'a fixpoint over the call graph')
