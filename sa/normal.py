"""Writes a parsed module the plainest way it can be written.

Every step keeps what the code does: what is never run goes, a name that is
set and then only used by the next statement gives way to its value, a loop
that starts by leaving on a condition becomes a loop on that condition, and a
negated comparison becomes the opposite comparison.  The rules then judge the
same code however it was put.
"""
import ast

SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
OPPOSITE = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn,
            ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
KEEPS = (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda)
SIMPLE = (ast.Name, ast.Constant)


def negated(test):
    """The expression that is true where `test` is not."""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return test.operand
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
            type(test.ops[0]) in OPPOSITE:
        new = ast.Compare(test.left, [OPPOSITE[type(test.ops[0])]()],
                          test.comparators)
    else:
        new = ast.UnaryOp(ast.Not(), test)
    return ast.copy_location(new, test)


def has(node, kinds):
    return any(isinstance(x, kinds) for x in ast.walk(node))


def idle(st):
    """A statement that does nothing."""
    if isinstance(st, ast.Pass):
        return True
    if isinstance(st, ast.Expr):
        return isinstance(st.value, ast.Constant)
    if isinstance(st, ast.Assert):
        return isinstance(st.test, ast.Constant) and bool(st.test.value)
    if isinstance(st, ast.If) and isinstance(st.test, ast.Constant):
        gone = st.orelse if st.test.value else st.body
        kept = st.body if st.test.value else st.orelse
        return not any(has(x, (ast.Yield, ast.YieldFrom)) for x in gone) and \
            all(idle(x) for x in kept)
    return False


class Plain(ast.NodeTransformer):
    """Conditions and loops."""

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Compare) \
                and len(n.operand.ops) == 1 and \
                type(n.operand.ops[0]) in OPPOSITE:
            return negated(n.operand)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and \
                isinstance(n.left, ast.Constant) and not isinstance(
                    n.comparators[0], ast.Constant):
            n.left, n.comparators = n.comparators[0], [n.left]
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and \
                isinstance(t.operand, ast.UnaryOp) and isinstance(
                    t.operand.op, ast.Not):
            n.test = t.operand.operand
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        t, it = n.target, n.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and
                it.args and not it.keywords):
            return n
        if it.func.id == 'enumerate' and isinstance(t, ast.Tuple) and \
                len(t.elts) == 2 and isinstance(t.elts[0], ast.Name) and \
                self.seen.get(t.elts[0].id) == 1:
            n.target, n.iter = t.elts[1], it.args[0]
        elif it.func.id == 'range' and len(it.args) == 1 and isinstance(
                t, ast.Name) and self.seen.get(t.id) == 2 and n.body:
            box = it.args[0]
            s = n.body[0]
            if isinstance(box, ast.Call) and isinstance(
                    box.func, ast.Name) and box.func.id == 'len' and len(
                        box.args) == 1 and isinstance(
                            box.args[0], ast.Name) and isinstance(
                                s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.value, ast.Subscript) and isinstance(
                        s.value.value, ast.Name) and \
                    s.value.value.id == box.args[0].id and isinstance(
                        s.value.slice, ast.Name) and s.value.slice.id == t.id:
                n.target, n.iter = s.targets[0], box.args[0]
                n.body = n.body[1:] or [ast.copy_location(ast.Pass(), s)]
        return n

    def function(self, n):
        old = self.seen
        self.seen = {}
        for x in ast.walk(n):
            if isinstance(x, ast.Name):
                self.seen[x.id] = self.seen.get(x.id, 0) + 1
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                for v in x.names:
                    self.seen[v] = 99
        self.generic_visit(n)
        self.seen = old
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = function
    seen = {}

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if n.value is None or not n.simple and isinstance(
                n.target, ast.Name):
            return n
        return ast.copy_location(ast.Assign([n.target], n.value), n)

    def visit_While(self, n):
        self.generic_visit(n)
        while not n.orelse and isinstance(n.test, ast.Constant) and \
                n.test.value and n.body and isinstance(n.body[0], ast.If) and \
                len(n.body[0].body) == 1 and isinstance(
                    n.body[0].body[0], ast.Break):
            n.test = negated(n.body[0].test)
            n.body = n.body[0].orelse + n.body[1:] or [
                ast.copy_location(ast.Pass(), n)]
        return n


def blocks(n):
    for fld in ('body', 'orelse', 'finalbody'):
        b = getattr(n, fld, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield fld, b


def drop_idle(tree):
    for n in list(ast.walk(tree)):
        for fld, b in list(blocks(n)):
            head = []
            if fld == 'body' and isinstance(n, (
                    ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef,
                    ast.Module)) and isinstance(b[0], ast.Expr) and \
                    isinstance(b[0].value, ast.Constant):
                head, b = b[:1], b[1:]
            out = [s for s in b if not idle(s)]
            if len(out) == len(b):
                continue
            if not out and not head and fld == 'body' and not isinstance(
                    n, ast.Module):
                out = [ast.copy_location(ast.Pass(), b[0])]
            setattr(n, fld, head + out)


def uses(f):
    """Name -> times set and times read in a function; None: not to touch."""
    sets, reads, bad = {}, {}, set()
    for n in ast.walk(f):
        if isinstance(n, ast.Name):
            d = reads if isinstance(n.ctx, ast.Load) else sets
            d[n.id] = d.get(n.id, 0) + 1
            if isinstance(n.ctx, ast.Del):
                bad.add(n.id)
            if n.id in ('locals', 'exec', 'eval', 'vars'):
                return None
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
        elif isinstance(n, ast.arg):
            bad.add(n.arg)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            bad.add(n.name)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            bad.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            bad |= {(a.asname or a.name).split('.')[0] for a in n.names}
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            bad.add(n.target.id)
    return sets, reads, bad


def first(e, name):
    """(node, field, index) where `name` is the first thing evaluated."""
    def slot(owner, fld, i=None):
        v = getattr(owner, fld)
        v = v if i is None else v[i]
        if v is None:
            return None
        if isinstance(v, ast.Name) and v.id == name:
            return owner, fld, i
        return first(v, name)

    def among(spots):
        for owner, fld, i in spots:
            got = slot(owner, fld, i)
            if got:
                return got
            v = getattr(owner, fld)
            v = v if i is None else v[i]
            if not isinstance(v, SIMPLE):
                return None
        return None
    if isinstance(e, (ast.Return, ast.Expr, ast.Assign, ast.AnnAssign,
                      ast.Starred, ast.keyword, ast.Attribute,
                      ast.FormattedValue)):
        return slot(e, 'value')
    if isinstance(e, ast.AugAssign):
        return slot(e, 'value') if isinstance(e.target, ast.Name) else None
    if isinstance(e, (ast.If, ast.IfExp, ast.Assert)):
        return slot(e, 'test')
    if isinstance(e, ast.For):
        return slot(e, 'iter')
    if isinstance(e, ast.Raise):
        return slot(e, 'exc')
    if isinstance(e, ast.With):
        return slot(e.items[0], 'context_expr')
    if isinstance(e, ast.UnaryOp):
        return slot(e, 'operand')
    if isinstance(e, ast.BoolOp):
        return slot(e, 'values', 0)
    if isinstance(e, ast.BinOp):
        return among([(e, 'left', None), (e, 'right', None)])
    if isinstance(e, ast.Compare):
        return among([(e, 'left', None), (e, 'comparators', 0)])
    if isinstance(e, ast.Subscript):
        return among([(e, 'value', None), (e, 'slice', None)])
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return among([(e, 'elts', i) for i in range(len(e.elts))])
    if isinstance(e, ast.Call):
        got = slot(e, 'func')
        if got:
            return got
        if not (isinstance(e.func, ast.Name) or
                isinstance(e.func, ast.Attribute) and
                isinstance(e.func.value, ast.Name)):
            return None
        return among([(e, 'args', i) for i in range(len(e.args))] +
                     [(k, 'value', None) for k in e.keywords])
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                      ast.DictComp)):
        return slot(e.generators[0], 'iter')
    return None


def inline(f):
    """Names set and used once, by the next statement."""
    u = uses(f)
    if u is None:
        return
    sets, reads, bad = u
    for n in list(ast.walk(f)):
        if n is not f and isinstance(n, SCOPES + (ast.ClassDef,)):
            continue
        for fld, b in list(blocks(n)):
            i = len(b) - 1
            while i >= 0:
                s = b[i]
                i -= 1
                if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and
                        isinstance(s.targets[0], ast.Name)):
                    continue
                v = s.targets[0].id
                if v in bad:
                    continue
                if not reads.get(v) and isinstance(s.value, ast.Constant):
                    b[i + 1] = ast.copy_location(ast.Pass(), s)
                    continue
                if sets.get(v) != 1:
                    continue
                if reads.get(v) != 1 or i + 2 >= len(b) or \
                        has(s.value, KEEPS):
                    continue
                at = first(b[i + 2], v)
                if at is None:
                    continue
                owner, field, k = at
                if k is None:
                    setattr(owner, field, s.value)
                else:
                    getattr(owner, field)[k] = s.value
                del b[i + 1]


def plain(tree):
    """The module, changed in place."""
    tree = Plain().visit(tree)
    drop_idle(tree)
    for n in list(ast.walk(tree)):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            inline(n)
    drop_idle(tree)
    return Plain().visit(tree)
