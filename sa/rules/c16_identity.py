"""C16: equal text is treated equally, whichever object holds it."""
import ast

from ..core import Rule
from ..pointsto import PointsTo, COPIES
from ..project import dotted, own_walk

# Functions and methods of the package that take a node object.
FRESH = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp,
         ast.JoinedStr, ast.BinOp)


def expressions(f):
    """Nodes of a function, lambdas included."""
    todo = list(ast.iter_child_nodes(f.node))
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef,
                              ast.AsyncFunctionDef)):
            todo.extend(ast.iter_child_nodes(n))


def object_names(f, node_params):
    """Local names the function uses as objects with attributes."""
    out = set()
    for n in expressions(f):
        if isinstance(n, ast.Call):
            d = dotted(n.func)
            if d in ('getattr', 'setattr', 'hasattr', 'delattr', 'isinstance',
                     'type', 'id', 'vars') and n.args and \
                    isinstance(n.args[0], ast.Name):
                out.add(n.args[0].id)
            last = d.split('.')[-1] if d else ''
            if last in node_params:
                for i, a in enumerate(n.args):
                    if i in node_params[last] and isinstance(a, ast.Name):
                        out.add(a.id)
        if isinstance(n, (ast.For, ast.comprehension)) and \
                isinstance(n.iter, ast.Name):
            out.add(n.iter.id)
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            if not hasattr(str, n.attr):
                out.add(n.value.id)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            for g in n.generators:
                if isinstance(g.iter, ast.Attribute) and isinstance(
                        g.target, ast.Name) and g.iter.attr in (
                            '__bases__', '__mro__'):
                    out.add(g.target.id)
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and \
                isinstance(n.iter, ast.Attribute) and \
                n.iter.attr in ('__bases__', '__mro__'):
            out.add(n.target.id)
    return out


def node_parameters(proj):
    """function name -> positions (receiver apart) that take objects."""
    out = {}
    for _ in range(3):
        for f in proj.funcs.values():
            objs = object_names(f, out)
            ps = f.params[1:] if f.cls is not None and \
                f.kind != 'staticmethod' and f.params else f.params
            for i, p in enumerate(ps):
                if p in objs and len(proj.by_name.get(f.name, ())) == 1:
                    out.setdefault(f.name, set()).add(i)
    return out


def is_text(toks):
    return 'str' in toks or 'float' in toks or 'bytes' in toks


def fresh(f, e, depth=0):
    """Does the expression make a new object each time?"""
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
        return True
    if isinstance(e, FRESH):
        return True
    if isinstance(e, ast.Call) and not isinstance(e.func, ast.Attribute) and \
            dotted(e.func) in ('list', 'dict', 'set', 'sorted', 'OrderedDict'):
        return True
    if isinstance(e, ast.Name) and depth < 3 and e.id in f.locals and \
            e.id not in f.params:
        defs = []
        for n in expressions(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == e.id:
                        defs.append(n.value)
                    elif not isinstance(t, ast.Name) and any(
                            isinstance(x, ast.Name) and x.id == e.id and
                            isinstance(x.ctx, ast.Store)
                            for x in ast.walk(t)):
                        return False
            elif isinstance(n, (ast.For, ast.comprehension, ast.NamedExpr)):
                if any(isinstance(x, ast.Name) and x.id == e.id
                       for x in ast.walk(n.target)):
                    return False
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                if any(isinstance(x, ast.Name) and x.id == e.id
                       for x in ast.walk(n.optional_vars)):
                    return False
            elif isinstance(n, ast.ExceptHandler) and n.name == e.id:
                return False
        return bool(defs) and all(fresh(f, d, depth + 1) for d in defs) and \
            not escapes(f, e.id)
    return False


def escapes(f, name):
    """May something else hold the object (a marker given to a call)?"""
    for n in expressions(f):
        if isinstance(n, ast.Call) and any(
                isinstance(a, ast.Name) and a.id == name
                for a in n.args + [k.value for k in n.keywords]):
            return True
        if isinstance(n, (ast.List, ast.Tuple, ast.Dict, ast.Set)) and any(
                isinstance(a, ast.Name) and a.id == name
                for a in ast.iter_child_nodes(n)):
            return True
    return any(name in g.locals or any(
        isinstance(x, ast.Name) and x.id == name for x in ast.walk(g.node))
        for g in f.nested.values())


def aliased(f, name, other):
    """Is one of the two names assigned to the other?"""
    for n in expressions(f):
        if isinstance(n, (ast.Assign, ast.NamedExpr)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            for t in ts:
                if isinstance(t, ast.Name) and t.id in (name, other) and any(
                        isinstance(x, ast.Name) and x.id in (name, other) and
                        x.id != t.id for x in ast.walk(n.value)) and \
                        not fresh(f, n.value):
                    return True
            if len(ts) > 1:
                return True
    return False


def small(toks):
    """Constants that are one object in every interpreter nxt runs in."""
    return bool(toks) and all(
        t in ('none', 'bool') or (isinstance(t, tuple) and (
            t[0] in ('i', 'c', 'b', 'fn', 'm') or
            (t[0] == 'lit' and len(t[1]) < 2)))
        for t in toks)


def run(ctx):
    proj = ctx.proj
    pt = PointsTo(proj, ctx.cg)
    params = node_parameters(proj)
    total = decided = 0
    for f in proj.funcs.values():
        objs = None
        for n in expressions(f):
            if not isinstance(n, ast.Compare):
                continue
            left = n.left
            for op, right in zip(n.ops, n.comparators):
                pair, left = (left, right), right
                if not isinstance(op, (ast.Is, ast.IsNot)):
                    continue
                total += 1
                ctx.analysed([f.qual])
                a, b = pair
                if any(isinstance(x, ast.Constant) and (
                        x.value is None or isinstance(x.value, bool) or
                        x.value is Ellipsis) for x in pair):
                    decided += 1
                    continue
                ta, tb = pt.of(a), pt.of(b)
                if objs is None:
                    objs = object_names(f, params)
                where = '%s:%d (%s)' % (f.module.rel, n.lineno, f.name)
                text = ast.unparse(ast.Compare(a, [op], [b]))
                one = [x for x in pair if fresh(f, x)]
                if one and not (
                        all(isinstance(x, ast.Name) for x in pair) and
                        aliased(f, a.id, b.id)) and not any(
                            isinstance(x, ast.Name) and x.id == 'self'
                            for x in pair):
                    ctx.violation('%s:%s' % (f.where, text), where,
                                  '%s compares with an object made here, so '
                                  'it never holds' % text)
                    continue
                if any(isinstance(x, ast.Name) and x.id in objs for x in pair):
                    decided += 1
                    continue
                if small(ta) or small(tb):
                    decided += 1
                    continue
                if (is_text(ta) and (is_text(tb) or tb <= {'unk'})) or \
                        (is_text(tb) and ta <= {'unk'}):
                    ctx.violation(
                        '%s:%s' % (f.where, text), where,
                        '%s compares which object the text is in, not what it '
                        'says' % text)
                    continue
                decided += 1
    ctx.count('identity comparisons', total, 30)
    ctx.obligation('%d identity comparisons compare objects or interned '
                   'constants' % decided)


RULE = Rule('C16', run, 'whole-package points-to analysis of the operands of '
            'identity comparisons')
