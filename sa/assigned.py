"""Definite assignment of local names, over the structure of a function.

For each read of a local name: is it assigned on every way there ('yes'), on
none ('no') or on some ('some')?  A state is (must, may): the names assigned
on all ways here and on some way here; None is an unreachable point.
"""
import ast

NORETURN = {'exit', 'quit', 'abort', '_exit'}


def join(states):
    states = [s for s in states if s is not None]
    if not states:
        return None
    must = set(states[0][0])
    may = set()
    for s in states:
        must &= s[0]
        may |= s[1]
    return must, may


class Flow(object):
    def __init__(self, func):
        self.func = func
        self.names = set(func.locals) - set(func.params)
        a = func.node.args
        have = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x is not None:
                have.add(x.arg)
        self.names -= have
        self.names -= set(getattr(func, 'globals', None) or ())
        self.found = []
        self.breaks, self.continues, self.raises = [], [], []
        self.block(func.node.body, (set(), set()))

    # --------------------------------------------------------- expressions
    def read(self, n, st):
        """The state after evaluating `n` (walrus, short circuits)."""
        if n is None or st is None:
            return st
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in self.names:
                if n.id not in st[0]:
                    self.found.append((n, 'some' if n.id in st[1] else 'no'))
            return st
        if isinstance(n, ast.NamedExpr):
            st = self.read(n.value, st)
            return self.bind({n.target.id}, st)
        if isinstance(n, ast.BoolOp):
            out = []
            for v in n.values:
                st = self.read(v, st)
                out.append(st)
            return join(out)
        if isinstance(n, ast.IfExp):
            st = self.read(n.test, st)
            return join([self.read(n.body, st), self.read(n.orelse, st)])
        if isinstance(n, ast.Lambda):
            return st           # runs later
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            own = set()
            for g in n.generators:
                own |= targets(g.target)
            inner = (st[0] | own, st[1] | own)
            for i, g in enumerate(n.generators):
                self.read(g.iter, st if i == 0 else inner)
                for c in g.ifs:
                    self.read(c, inner)
            for k in ('elt', 'key', 'value'):
                if hasattr(n, k):
                    self.read(getattr(n, k), inner)
            return st
        for c in ast.iter_child_nodes(n):
            st = self.read(c, st)
        return st

    def bind(self, names, st):
        if st is None:
            return None
        return st[0] | names, st[1] | names

    def target(self, t, st):
        """Reads inside an assignment target, then the binding."""
        for x in ast.walk(t):
            if isinstance(x, (ast.Attribute, ast.Subscript)):
                st = self.read(x.value, st)
                if isinstance(x, ast.Subscript):
                    st = self.read(x.slice, st)
        return self.bind(targets(t), st)

    # ---------------------------------------------------------- statements
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def raising(self, st):
        for r in self.raises:
            r.append(st)

    def stmt(self, s, st):
        if self.raises:
            self.raises[-1].append(st)
        if isinstance(s, ast.Assign):
            st = self.read(s.value, st)
            for t in s.targets:
                st = self.target(t, st)
            return st
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return st
            return self.target(s.target, self.read(s.value, st))
        if isinstance(s, ast.AugAssign):
            st = self.read(s.value, st)
            if isinstance(s.target, ast.Name):
                n = s.target
                if n.id in self.names and n.id not in st[0]:
                    self.found.append((n, 'some' if n.id in st[1] else 'no'))
            return self.target(s.target, st)
        if isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st = (st[0] - {t.id}, st[1])
            return st
        if isinstance(s, ast.Expr):
            st = self.read(s.value, st)
            v = s.value
            if isinstance(v, ast.Call):
                f = v.func
                nm = f.attr if isinstance(f, ast.Attribute) else getattr(
                    f, 'id', '')
                if nm in NORETURN:
                    return None
            return st
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                st = self.read(c, st)
            if self.raises and isinstance(s, ast.Raise):
                self.raises[-1].append(st)
            return None
        if isinstance(s, ast.Assert):
            return self.read(s.test, st)
        if isinstance(s, ast.If):
            st = self.read(s.test, st)
            c = const(s.test)
            a = self.block(s.body, st) if c is not False else None
            b = self.block(s.orelse, st) if c is not True else None
            return join([a, b])
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = self.read(s.iter, st)
            self.breaks.append([])
            self.continues.append([])
            # twice: what a later round may find assigned
            a = self.block(s.body, self.target(s.target, st))
            ends = [st, a] + self.continues.pop()
            done = join(ends)
            out = self.block(s.orelse, done) if s.orelse else done
            return join([out] + self.breaks.pop())
        if isinstance(s, ast.While):
            self.breaks.append([])
            self.continues.append([])
            t = self.read(s.test, st)
            a = self.block(s.body, t)
            conts = self.continues.pop()
            c = const(s.test)
            done = None if c is True else join([t, a] + conts)
            out = self.block(s.orelse, done) if done is not None else None
            return join([out] + self.breaks.pop())
        if isinstance(s, ast.Break):
            if self.breaks:
                self.breaks[-1].append(st)
            return None
        if isinstance(s, ast.Continue):
            if self.continues:
                self.continues[-1].append(st)
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.read(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.target(i.optional_vars, st)
            out = self.block(s.body, st)
            if out is None and any('suppress' in ast.dump(i.context_expr)
                                   for i in s.items):
                return st
            return out
        if isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            self.raises.append([st])
            b = self.block(s.body, st)
            at = join(self.raises.pop())
            if self.raises:
                self.raises[-1].append(at)
            o = self.block(s.orelse, b) if b is not None else None
            outs = [o]
            for h in s.handlers:
                hs = at
                if h.name:
                    hs = self.bind({h.name}, hs)
                outs.append(self.block(h.body, hs))
            out = join(outs)
            if s.finalbody:
                if out is not None:
                    n = len(self.found)
                    worst = join([at, out])
                    self.block(s.finalbody, worst)
                    del n
                    keep = self.found
                    self.found = []
                    out = self.block(s.finalbody, out)
                    self.found = keep
                else:
                    self.block(s.finalbody, at)
                    out = None
            return out
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            return self.bind({s.name}, st)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return self.bind({(a.asname or a.name).split('.')[0]
                              for a in s.names}, st)
        if type(s).__name__ == 'Match':
            st = self.read(s.subject, st)
            outs = [st]
            for c in s.cases:
                cs = st
                for x in ast.walk(c.pattern):
                    nm = getattr(x, 'name', None) or getattr(x, 'rest', None)
                    if isinstance(nm, str):
                        cs = self.bind({nm}, cs)
                outs.append(self.block(c.body, cs))
            return join(outs)
        return st


def targets(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and
            isinstance(x.ctx, ast.Store)}


def const(n):
    if isinstance(n, ast.Constant):
        return bool(n.value)
    return None


def unassigned(func):
    """[(read, 'no' | 'some')] of the local names read unassigned."""
    if isinstance(func.node, ast.Lambda):
        return []
    return Flow(func).found
