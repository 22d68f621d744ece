"""Puts functions the rules do not know back where they are called.

The rules were written with the functions of known.txt at hand.  A function
that is not among them (a helper someone extracted) is expanded in place
wherever the call can be replaced by the body without changing what is done,
so that the rules judge the same code whether or not it was split up.  Where
that cannot be done the call stays a call, and is followed like any other.
"""
import ast
import copy
import os

from .normal import SCOPES, blocks, first, has, plain

KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known.txt')
MOST = 120      # statements a function may have to be expanded
TEMP = '%s__%d'


class No(Exception):
    """The call cannot be replaced by the body."""


class Helper(object):
    def __init__(self, module, cls, outer, node):
        self.module, self.cls, self.outer, self.node = module, cls, outer, node
        self.name = node.name
        deco = [d.id if isinstance(d, ast.Name) else
                d.attr if isinstance(d, ast.Attribute) else '?'
                for d in node.decorator_list]
        self.kind = 'plain'
        if cls is not None:
            self.kind = 'method'
        if deco:
            self.kind = {'staticmethod': 'static', 'classmethod': 'method',
                         'property': 'property',
                         'contextmanager': 'context'}.get(deco[0], '?') \
                if len(deco) == 1 else '?'
        if self.kind == 'context' and cls is not None:
            self.kind = 'context-method'

    @property
    def body(self):
        b = self.node.body
        if b and isinstance(b[0], ast.Expr) and isinstance(
                b[0].value, ast.Constant) and isinstance(
                    b[0].value.value, str):
            b = b[1:]
        return b

    def usable(self):
        a = self.node.args
        if self.kind == '?' or a.vararg or a.kwarg or a.posonlyargs or \
                isinstance(self.node, ast.AsyncFunctionDef):
            return False
        n = 0
        yields = 0
        for x in (y for s in self.body for y in ast.walk(s)):
            n += isinstance(x, ast.stmt)
            if isinstance(x, SCOPES + (ast.ClassDef, ast.Global, ast.Await,
                                       ast.NamedExpr)):
                if not isinstance(x, ast.Lambda):
                    return False
            if isinstance(x, ast.Nonlocal) and self.outer is None:
                return False
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                yields += 1
            if isinstance(x, ast.Name) and (x.id == self.name and
                                            self.cls is None or
                                            x.id in ('locals', 'vars')):
                return False
            if isinstance(x, ast.Attribute) and x.attr == self.name and \
                    self.cls is not None:
                return False
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                    x.func.id == 'super' and not x.args:
                return False
        if yields != (1 if self.kind.startswith('context') else 0):
            return False
        return 0 < n <= MOST


def bound(f):
    """Names a function binds itself (parameters included)."""
    out, free = set(), set()
    a = f.args
    for x in a.args + a.kwonlyargs + a.posonlyargs + [
            y for y in (a.vararg, a.kwarg) if y]:
        out.add(x.arg)
    todo = list(f.body) if isinstance(f.body, list) else [f.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split('.')[0] for x in n.names}
        elif isinstance(n, (ast.Nonlocal, ast.Global)):
            free |= set(n.names)
        todo.extend(ast.iter_child_nodes(n))
    return out - free


class Rename(ast.NodeTransformer):
    def __init__(self, names, exprs):
        self.names, self.exprs = names, exprs

    def visit_Name(self, n):
        if n.id in self.exprs and isinstance(n.ctx, ast.Load):
            return copy.deepcopy(self.exprs[n.id])
        if n.id in self.names:
            n.id = self.names[n.id]
        return n

    def visit_ExceptHandler(self, n):
        if n.name in self.names:
            n.name = self.names[n.name]
        self.generic_visit(n)
        return n

    def visit_Nonlocal(self, n):
        return ast.Pass()

    def visit_Lambda(self, n):
        own = {x.arg for x in n.args.args + n.args.kwonlyargs}
        if own & (set(self.names) | set(self.exprs)):
            raise No()
        self.generic_visit(n)
        return n


def returns(st):
    """Whether a statement has a return of its own."""
    todo = [st]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Return):
            return True
        if isinstance(n, SCOPES + (ast.ClassDef,)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def ends(body):
    """Whether a list of statements never runs off its end."""
    if not body:
        return False
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
        return True
    if isinstance(s, ast.If):
        return ends(s.body) and ends(s.orelse)
    if isinstance(s, ast.With):
        return ends(s.body)
    if isinstance(s, ast.Try):
        return ends(s.finalbody) or (
            ends(s.body if not s.orelse else s.orelse) and
            all(ends(h.body) for h in s.handlers))
    return False


def own_breaks(body):
    for n in body:
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.For, ast.While) + SCOPES):
            if own_breaks(n.orelse if not isinstance(n, SCOPES) else []):
                return True
            continue
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and own_breaks(b):
                return True
        if isinstance(n, ast.Try) and any(own_breaks(h.body)
                                          for h in n.handlers):
            return True
    return False


class Sink(object):
    """Turns `return v` into an assignment, if there is a target."""

    def __init__(self, target):
        self.target = target
        self.size = 0

    def put(self, value):
        if self.target is None:
            return [] if value is None or isinstance(
                value, (ast.Constant, ast.Name)) else [ast.Expr(value)]
        return [ast.Assign([copy.deepcopy(self.target)],
                           value or ast.Constant(None))]

    def flat(self, body, after=()):
        """The statements, then `after` where a value was given."""
        out = []
        for i, s in enumerate(body):
            rest = body[i + 1:]
            self.size += 1
            if self.size > 4 * MOST:
                raise No()
            if not returns(s):
                out.append(s)
                continue
            if isinstance(s, ast.Return):
                return out + self.put(s.value) + list(after)
            if isinstance(s, ast.If):
                yes = s.body if ends(s.body) else \
                    s.body + copy.deepcopy(rest)
                no = s.orelse if ends(s.orelse) else s.orelse + rest
                yes, no = self.flat(yes, after), self.flat(no, after)
                return out + [ast.If(s.test, yes or [ast.Pass()], no)]
            if isinstance(s, ast.With):
                if rest and not ends(s.body):
                    raise No()
                return out + [ast.With(s.items, self.flat(s.body, after) or
                                       [ast.Pass()])]
            if isinstance(s, ast.Try):
                if any(returns(x) for x in s.finalbody) or s.orelse and any(
                        returns(x) for x in s.body):
                    raise No()
                if after and s.finalbody:
                    raise No()
                if rest and not ends([s]):
                    if any(returns(x) for x in s.body + s.orelse):
                        raise No()
                    # the handlers return, the way on is the else part
                    if any(returns(x) for x in rest) or not all(
                            ends(h.body) for h in s.handlers) or s.finalbody:
                        raise No()
                    hs = [ast.ExceptHandler(h.type, h.name, self.flat(
                        h.body, after) or [ast.Pass()]) for h in s.handlers]
                    return out + [ast.Try(s.body, hs, s.orelse + self.flat(
                        rest, after), [])]
                hs = [ast.ExceptHandler(h.type, h.name, self.flat(
                    h.body, after) or [ast.Pass()]) for h in s.handlers]
                if s.orelse:
                    return out + [ast.Try(s.body, hs, self.flat(
                        s.orelse, after), s.finalbody)]
                return out + [ast.Try(self.flat(s.body, after) or
                                      [ast.Pass()], hs, [], s.finalbody)]
            if isinstance(s, (ast.For, ast.While)) and not after and \
                    not own_breaks(s.body):
                body2 = Sink(self.target).inside(s.body)
                orelse = self.flat(s.orelse + rest)
                if isinstance(s, ast.For):
                    return out + [ast.For(s.target, s.iter, body2, orelse)]
                return out + [ast.While(s.test, body2, orelse)]
            raise No()
        if not ends(body):
            out += self.put(None)
            out += list(after)
        return out

    def inside(self, body):
        """In a loop: a return leaves the loop."""
        out = []
        for i, s in enumerate(body):
            if not returns(s):
                out.append(s)
            elif isinstance(s, ast.Return):
                return out + self.put(s.value) + [ast.Break()]
            elif isinstance(s, ast.If):
                out.append(ast.If(s.test, self.inside(s.body) or [ast.Pass()],
                                  self.inside(s.orelse)))
            elif isinstance(s, ast.With):
                out.append(ast.With(s.items, self.inside(s.body)))
            elif isinstance(s, ast.Try) and not s.finalbody and \
                    not (s.orelse and any(returns(x) for x in s.body)):
                out.append(ast.Try(
                    self.inside(s.body), [ast.ExceptHandler(
                        h.type, h.name, self.inside(h.body))
                        for h in s.handlers], self.inside(s.orelse), []))
            else:
                raise No()
        return out


class Expander(object):
    def __init__(self, trees, known):
        self.trees, self.known = trees, known    # module name -> tree
        self.n = 0
        self.col = 1000
        self.imports = {m: self.import_names(t) for m, t in trees.items()}
        self.top = {m: {x.name for x in t.body if isinstance(
            x, (ast.FunctionDef, ast.ClassDef))} | {
                y.id for x in t.body if isinstance(x, ast.Assign)
                for z in x.targets for y in ast.walk(z)
                if isinstance(y, ast.Name)} for m, t in trees.items()}
        self.find()

    @staticmethod
    def import_names(tree):
        out = {}
        for n in tree.body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    out[(a.asname or a.name).split('.')[0]] = (
                        a.name if a.asname else a.name.split('.')[0], None)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    out[a.asname or a.name] = (
                        '%s%s' % ('.' * n.level, n.module or ''), a.name)
        return out

    def find(self):
        self.plain, self.methods = {}, {}
        names = {}

        def visit(m, body, cls, outer, prefix):
            for s in body:
                if isinstance(s, ast.ClassDef):
                    visit(m, s.body, s, outer, prefix + '.' + s.name)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = prefix + '.' + s.name
                    if cls is not None:
                        names[s.name] = names.get(s.name, 0) + 1
                    if q not in self.known:
                        h = Helper(m, cls, outer, s)
                        if h.usable():
                            if cls is None:
                                key = (m, outer and id(outer), s.name)
                                self.plain[key] = h
                            else:
                                self.methods.setdefault(s.name, []).append(h)
                    visit(m, s.body, None, s, q)
                else:
                    for fld, b in blocks(s):
                        visit(m, b, cls, outer, prefix)
        for m, t in self.trees.items():
            visit(m, t.body, None, None, m)
        self.methods = {k: v[0] for k, v in self.methods.items()
                        if names[k] == 1}

    # ------------------------------------------------------------ resolving
    def helper(self, call, m, chain):
        """(helper, receiver) a call expands to."""
        fn = call.func if isinstance(call, ast.Call) else call
        if isinstance(fn, ast.Name):
            for f in reversed(chain):
                h = self.plain.get((m, id(f), fn.id))
                if h:
                    return (h, None) if f is chain[-1] else None
                if fn.id in bound(f):
                    return None
            h = self.plain.get((m, None, fn.id))
            if h is None:
                src = self.imports[m].get(fn.id)
                if src and src[1] == fn.id:
                    mod = self.absolute(m, src[0])
                    h = self.plain.get((mod, None, fn.id))
            return (h, None) if h else None
        if isinstance(fn, ast.Attribute):
            h = self.methods.get(fn.attr)
            if h is not None and isinstance(fn.value, ast.Name):
                return h, fn.value
            if isinstance(fn.value, ast.Name):
                src = self.imports[m].get(fn.value.id)
                if src and not any(fn.value.id in bound(f) for f in chain):
                    mod = self.absolute(m, src[0])
                    if src[1]:
                        mod = mod + '.' + src[1] if mod else src[1]
                    h = self.plain.get((mod, None, fn.attr))
                    if h:
                        return h, None
        return None

    def absolute(self, m, src):
        if not src.startswith('.'):
            return src
        lvl = len(src) - len(src.lstrip('.'))
        parts = m.split('.')
        if m + '.__init__' not in self.trees:
            parts = parts[:-lvl]
        rest = src.lstrip('.')
        return '.'.join(parts + ([rest] if rest else []))

    def bind(self, h, call, recv, m, caller):
        """Statements that give the parameters their values; the body."""
        a = h.node.args
        params = [x.arg for x in a.args]
        given = {}
        args = list(call.args) if isinstance(call, ast.Call) else []
        kws = list(call.keywords) if isinstance(call, ast.Call) else []
        if any(isinstance(x, ast.Starred) for x in args) or any(
                k.arg is None for k in kws):
            raise No()
        if h.kind in ('method', 'property', 'context-method'):
            if recv is None or not params:
                raise No()
            if h.cls is not None and recv.id == h.cls.name and \
                    recv.id not in bound(caller):
                if not args:
                    raise No()      # Class.method(object, ...)
            else:
                args = [recv] + args
        if len(args) > len(params):
            raise No()
        order = []
        for p, x in zip(params, args):
            given[p] = x
            order.append(p)
        for k in kws:
            if k.arg in given or k.arg not in params + [
                    x.arg for x in a.kwonlyargs]:
                raise No()
            given[k.arg] = k.value
            order.append(k.arg)
        for p, d in list(zip(params[len(params) - len(a.defaults):],
                             a.defaults)) + [
                (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults)]:
            if p not in given:
                if not isinstance(d, ast.Constant):
                    raise No()
                given[p] = d
                order.append(p)
        if set(given) != set(params) | {x.arg for x in a.kwonlyargs}:
            raise No()
        body = copy.deepcopy(h.body)
        mine = bound(h.node)
        # a free name has to mean the same at the call
        taken = bound(caller)
        used = {x.id for s in body for x in ast.walk(s)
                if isinstance(x, ast.Name)} - mine
        outer = set()
        if h.outer is not None:
            if h.outer is not caller:
                raise No()
            outer = bound(h.outer)
        if (used & taken) - outer:
            raise No()
        if h.module != m:
            own = self.top[h.module] | set(self.imports[h.module])
            for u in used & own:
                if self.imports[h.module].get(u) is None or \
                        self.imports[h.module][u] != self.imports[m].get(u):
                    raise No()
        self.n += 1
        sets = {}
        for s in body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and not isinstance(
                        x.ctx, ast.Load):
                    sets[x.id] = True
                if isinstance(x, ast.AugAssign) and isinstance(
                        x.target, ast.Name):
                    sets[x.target.id] = True
        names, exprs, pre = {}, {}, []
        for v in mine:
            names[v] = TEMP % (v, self.n)
        for p in order:
            e = given[p]
            if isinstance(e, (ast.Constant, ast.Name)) and p not in sets:
                if isinstance(e, ast.Name) and e.id in self.stored_free(h):
                    pre.append((p, e))
                    continue
                exprs[p] = e
                names.pop(p, None)
            else:
                pre.append((p, e))
        ren = Rename(names, exprs)
        body = [ren.visit(s) for s in body]
        pre = [ast.Assign([ast.Name(names[p], ast.Store())], e)
               for p, e in pre]
        return pre, body

    @staticmethod
    def stored_free(h):
        """Names of the enclosing function a nested one sets."""
        return {nm for s in h.body for x in ast.walk(s)
                if isinstance(x, ast.Nonlocal) for nm in x.names}

    # ------------------------------------------------------------ expanding
    def place(self, stmts, at):
        """Gives copied statements their place in the source."""
        for s in stmts:
            stack = [s]
            while stack:
                n = stack.pop()
                if hasattr(n, 'lineno') or isinstance(n, (
                        ast.stmt, ast.expr, ast.ExceptHandler)):
                    n.lineno = at.lineno
                    n.end_lineno = at.lineno
                    self.col += 1
                    n.col_offset = self.col
                    n.end_col_offset = self.col + 1
                stack.extend(reversed(list(ast.iter_child_nodes(n))))
        return stmts

    def statement(self, s, m, chain):
        """What replaces a statement, or None."""
        f = chain[-1]
        if isinstance(s, ast.With) and len(s.items) == 1:
            got = self.helper(s.items[0].context_expr, m, chain) \
                if isinstance(s.items[0].context_expr, ast.Call) else None
            if got and got[0].kind.startswith('context'):
                return self.context(s, got, m, f)
        call, target, tail = None, None, False
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            call = s.value
        elif isinstance(s, ast.Return) and isinstance(s.value, ast.Call):
            call, tail = s.value, True
        elif isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and \
                len(s.targets) == 1 and not has(s.targets[0], ast.Call):
            call, target = s.value, s.targets[0]
        got = self.helper(call, m, chain) if call is not None else None
        if got is None or got[0].kind.startswith('context') or \
                got[0].kind == 'property':
            return None
        h, recv = got
        pre, body = self.bind(h, call, recv, m, f)
        if tail:
            if not ends(body):
                body = body + [ast.Return(ast.Constant(None))]
        else:
            if target is not None and not isinstance(target, ast.Name):
                # set it once the body is done
                tmp = TEMP % ('given', self.n)
                body = Sink(ast.Name(tmp, ast.Store())).flat(body)
                body.append(ast.Assign([target], ast.Name(tmp, ast.Load())))
            elif target is not None and any(
                    isinstance(x, ast.Name) and x.id == target.id
                    for b in body for x in ast.walk(b)) and not (
                        len(body) == 1 and isinstance(body[0], ast.Return)):
                tmp = TEMP % ('given', self.n)
                body = Sink(ast.Name(tmp, ast.Store())).flat(body)
                body.append(ast.Assign([target], ast.Name(tmp, ast.Load())))
            else:
                body = Sink(target).flat(body)
        return self.place(pre + body, s) or [ast.copy_location(ast.Pass(), s)]

    def context(self, s, got, m, f):
        h, recv = got
        if returns_or_leaves(s.body):
            raise No()
        pre, body = self.bind(h, s.items[0].context_expr, recv, m, f)
        if any(returns(x) for x in body):
            raise No()
        self.place(pre + body, s)
        for b in [body] + [x for n in body for y in ast.walk(n)
                           for _, x in blocks(y)]:
            for i, x in enumerate(b):
                y = x.value if isinstance(x, ast.Expr) else None
                if isinstance(y, ast.Yield):
                    into = s.items[0].optional_vars
                    put = []
                    if into is not None:
                        put = self.place([ast.Assign(
                            [into], y.value or ast.Constant(None))], s)
                    b[i:i + 1] = put + s.body
                    return pre + body
        raise No()

    def expression(self, n, m, chain):
        """The expression a call comes to."""
        got = self.helper(n, m, chain)
        if got is None:
            return None
        h, recv = got
        if isinstance(n, ast.Call) == (h.kind == 'property') or \
                h.kind.startswith('context'):
            return None
        if len(h.body) != 1 or not isinstance(h.body[0], ast.Return) or \
                h.body[0].value is None or has(h.body[0], ast.Lambda):
            return None
        pre, body = self.bind(h, n, recv, m, chain[-1])
        value = body[0].value
        exprs = {}
        for p in pre:
            v = p.targets[0].id
            count = sum(isinstance(x, ast.Name) and x.id == v
                        for x in ast.walk(value))
            free = not has(p.value, (ast.Call, ast.Await))
            if not free and (count != 1 or any(
                    isinstance(x, (ast.ListComp, ast.GeneratorExp,
                                   ast.SetComp, ast.DictComp))
                    for x in ast.walk(value))):
                return None
            exprs[v] = p.value
        holder = ast.Expr(value)
        holder = Rename({}, exprs).visit(holder)
        self.place([holder], n)
        return holder.value

    def function(self, f, m, chain):
        """Expands what is called in one function; True if anything was."""
        chain = chain + [f]
        did = False

        def within(b):
            done = False
            i = 0
            while i < len(b):
                s = b[i]
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                                  ast.ClassDef)):
                    i += 1
                    continue
                try:
                    new = self.statement(s, m, chain)
                except No:
                    new = None
                if new is None:
                    new = self.hoisted(s, m, chain)
                if new is not None:
                    b[i:i + 1] = new
                    return True
                for fld, x in blocks(s):
                    if within(x):
                        return True
                for hd in getattr(s, 'handlers', ()):
                    if within(hd.body):
                        return True
                i += 1
            return done
        for _ in range(60):
            if not within(f.body):
                break
            did = True
        ex = Expressions(self, m, chain)
        for i, s in enumerate(f.body):
            f.body[i] = ex.visit(s)
        return did or ex.did

    def hoisted(self, s, m, chain):
        """A call evaluated first in a statement, taken out of it."""
        if isinstance(s, (ast.While, ast.AsyncFor, ast.AsyncWith)):
            return None
        exprs = [getattr(s, k, None) for k in
                 ('value', 'test', 'iter', 'exc')]
        if isinstance(s, ast.With):
            exprs = [s.items[0].context_expr]
        for e in [x for x in exprs if x is not None]:
            for n in ast.walk(e):
                if not isinstance(n, ast.Call) or n is getattr(
                        s, 'value', None):
                    continue
                got = self.helper(n, m, chain)
                if got is None or got[0].kind.startswith('context') or \
                        got[0].kind == 'property':
                    continue
                self.n += 1
                name = TEMP % ('made', self.n)
                mark = ast.copy_location(ast.Name(name, ast.Load()), n)
                swap = Swap(n, mark)
                s2 = swap.visit(copy.copy(s)) if False else s
                swap.visit(s)
                at = first(s, name)
                if at is not None:
                    st = ast.copy_location(ast.Assign(
                        [ast.copy_location(ast.Name(name, ast.Store()), n)],
                        n), s2)
                    try:
                        new = self.statement(st, m, chain)
                    except No:
                        new = None
                    if new is not None:
                        return new + [s]
                Swap(mark, n).visit(s)
        return None

    def run(self):
        if not self.plain and not self.methods:
            return False
        did = False

        def visit(m, body, chain):
            nonlocal did
            for s in body:
                if isinstance(s, ast.ClassDef):
                    visit(m, s.body, chain)
                elif isinstance(s, ast.FunctionDef):
                    visit(m, s.body, chain + [s])
                    did |= bool(self.function(s, m, chain))
                else:
                    for fld, b in blocks(s):
                        visit(m, b, chain)
        for m, t in self.trees.items():
            visit(m, t.body, [])
        return did

    def drop(self):
        """Takes away what is not called any more."""
        left = {}
        for t in self.trees.values():
            for n in ast.walk(t):
                if isinstance(n, ast.Name):
                    left[n.id] = left.get(n.id, 0) + 1
                elif isinstance(n, ast.Attribute):
                    left[n.attr] = left.get(n.attr, 0) + 1
                elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                    left[n.value] = left.get(n.value, 0) + 1
                elif isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        left.setdefault(a.name, 0)
        gone = {id(h.node): h for h in
                list(self.plain.values()) + list(self.methods.values())
                if not left.get(h.name)}
        if not gone:
            return
        names = {(h.module, h.name) for h in gone.values() if h.cls is None}
        for m, t in self.trees.items():
            for n in ast.walk(t):
                for fld, b in list(blocks(n)):
                    out = [s for s in b if id(s) not in gone]
                    for s in out:
                        if isinstance(s, ast.ImportFrom) and len(
                                s.names) > 1:
                            s.names = [a for a in s.names if not any(
                                a.name == nm and self.absolute(
                                    m, '.' * s.level + (s.module or '')) == mm
                                for mm, nm in names)] or s.names
                    if len(out) != len(b) or out != b:
                        setattr(n, fld, out or [ast.copy_location(
                            ast.Pass(), b[0])])


def returns_or_leaves(body):
    if any(returns(s) for s in body) or own_breaks(body):
        return True
    return any(isinstance(x, ast.Continue) for s in body
               for x in ast.walk(s))


class Swap(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        if n is self.old:
            return self.new
        return self.generic_visit(n)


class Expressions(ast.NodeTransformer):
    def __init__(self, ex, m, chain):
        self.ex, self.m, self.chain, self.did = ex, m, chain, False

    def scope(self, n):
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = visit_ClassDef = scope
    visit_Lambda = scope

    def call(self, n):
        self.generic_visit(n)
        if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
            return n
        try:
            new = self.ex.expression(n, self.m, self.chain)
        except No:
            new = None
        if new is None:
            return n
        self.did = True
        return new

    visit_Call = visit_Attribute = call


def known():
    with open(KNOWN) as fp:
        return set(fp.read().split())


def flatten(trees, have):
    """A class the rules do not know that one class of the same module is
    made from becomes part of that class."""
    classes = have
    for m, t in trees.items():
        new = {s.name: s for s in t.body if isinstance(s, ast.ClassDef) and
               '%s.%s' % (m, s.name) not in classes and
               not s.decorator_list and not s.keywords}
        for name, base in sorted(new.items()):
            if any(isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Name) and x.func.id == 'super'
                    for x in ast.walk(base)):
                continue
            used = [(mm, x) for mm, tt in trees.items() for x in ast.walk(tt)
                    if isinstance(x, ast.Name) and x.id == name or
                    isinstance(x, ast.Attribute) and x.attr == name]
            into = [s for s in t.body if isinstance(s, ast.ClassDef) and any(
                isinstance(b, ast.Name) and b.id == name for b in s.bases)]
            if len(used) != 1 or len(into) != 1 or any(
                    isinstance(x, ast.Call) and isinstance(
                        x.func, ast.Name) and x.func.id == 'super'
                    for x in ast.walk(into[0])) and len(into[0].bases) > 1:
                continue
            c = into[0]
            own = {x.name for x in c.body if isinstance(
                x, (ast.FunctionDef, ast.ClassDef))}
            if own & {x.name for x in base.body if isinstance(
                    x, (ast.FunctionDef, ast.ClassDef))}:
                continue
            c.body = [x for x in base.body if not isinstance(
                x, ast.Pass)] + c.body
            k = [i for i, b in enumerate(c.bases)
                 if isinstance(b, ast.Name) and b.id == name][0]
            have_b = {ast.dump(b) for b in c.bases}
            c.bases[k:k + 1] = [b for b in base.bases
                                if ast.dump(b) not in have_b]
            t.body.remove(base)


def expand(trees):
    """Module name -> tree, changed in place."""
    have = known()
    flatten(trees, have)
    for _ in range(4):
        ex = Expander(trees, have)
        if not ex.run():
            break
        ex.drop()
        for t in trees.values():
            plain(t)
