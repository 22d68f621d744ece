"""Which inputs a value depends on: a label (taint) analysis with keys.

A value is a set of labels (where its parts came from), the values known to be
under constant keys, and possibly a constant.  Calls to project functions are
looked through with their actual arguments; branches decided by a constant
argument are pruned; loops over constant tuples are unrolled.  It over-
approximates dependence: "does not depend on X" is definite, which is the only
verdict rules draw from it.
"""
import ast

from .project import dotted, own_walk

NOC = object()
E = frozenset()


class V(object):
    __slots__ = ('labels', 'keys', 'const', 'refs', 'obj', 'elts', 'b')

    def __init__(self, labels=E, keys=None, const=NOC, refs=E, obj=None,
                 elts=None, b=False):
        # b: a truth value computed by a comparison or a type test
        self.b = b
        self.labels, self.keys, self.const = frozenset(labels), keys or {}, const
        self.refs, self.obj, self.elts = frozenset(refs), obj, elts

    def __repr__(self):
        return 'V(%s%s%s%s)' % (sorted(self.labels, key=repr), self.keys or '',
                                '' if self.const is NOC else ' =%r' % (self.const,),
                                ' %s' % (sorted(self.refs),) if self.refs else '')


BOT = V()


def join(a, b, depth=0):
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    keys = {}
    if depth < 4:
        for k in set(a.keys) | set(b.keys):
            keys[k] = join(a.keys.get(k), b.keys.get(k), depth + 1)
    same = a.const is not NOC and b.const is not NOC and \
        type(a.const) is type(b.const) and a.const == b.const
    el = None
    if a.elts is not None and b.elts is not None and \
            len(a.elts) == len(b.elts) and depth < 4:
        el = tuple(join(x, y, depth + 1) for x, y in zip(a.elts, b.elts))
    extra = E
    if el is None:
        for s in (a, b):
            for x in s.elts or ():
                extra |= flat(x)
    return V(a.labels | b.labels | extra, keys, a.const if same else NOC,
             a.refs | b.refs, a.obj if a.obj == b.obj else None, el,
             a.b and b.b)


def flat(v, depth=0):
    """Every label anywhere in a value (not through references)."""
    out = v.labels
    if depth < 5:
        for x in v.keys.values():
            out |= flat(x, depth + 1)
        for x in v.elts or ():
            out |= flat(x, depth + 1)
    return out


class St(object):
    __slots__ = ('env', 'fields', 'heap', 'dead', 'pc')

    def __init__(self, env, fields, heap, pc=E):
        self.env, self.fields, self.heap = env, fields, heap
        self.dead = False       # True: left by jump, 'raise': by raising
        self.pc = pc            # what earlier jumps out of here depended on

    def copy(self):
        s = St(dict(self.env), dict(self.fields), dict(self.heap), self.pc)
        s.dead = self.dead
        return s

    def join(self, o):
        if self.dead:
            return o
        if o.dead:
            return self
        s = St({}, {}, {}, self.pc | o.pc)
        for nm in ('env', 'fields', 'heap'):
            a, b, c = getattr(self, nm), getattr(o, nm), getattr(s, nm)
            for k in set(a) | set(b):
                x, y = a.get(k), b.get(k)
                if nm == 'fields':      # not written there: still as before
                    x = V({('field',) + k}) if x is None else x
                    y = V({('field',) + k}) if y is None else y
                c[k] = join(x, y)
        return s


class Deps(object):
    """Subclass or set hooks: on_store(deps, st, base V, attr, V, node),
    on_call(deps, st, name, recv V, args, kw, node) -> V or None."""
    max_depth = 7

    def __init__(self, proj, cg):
        self.proj, self.cg = proj, cg
        self.stack = []
        self.seen = set()
        self.steps = 0

    # hooks
    def on_store(self, st, base, attr, v, node):
        pass

    def on_call(self, st, name, recv, args, kw, node):
        return None

    def on_item(self, st, base, key, v, node):
        pass

    def on_return(self, f, v, st):
        pass

    # ------------------------------------------------------------ functions
    def run(self, f, args, st=None):
        """-> (return V, final state)"""
        st = st.copy() if st is not None else St({}, {}, {})
        outer = st.env
        env = dict(args)
        for p in f.params + list(f.kwonly):
            if p not in env:
                d = f.defaults.get(p) if isinstance(f.defaults, dict) else None
                env[p] = self.default(f, p, d)
        for nm in (f.vararg, f.kwarg):
            if nm and nm not in env:
                env[nm] = V({('param', nm)})
        st.env = env
        pc = st.pc
        self.stack.append((f, []))
        self.seen.add(f.qual)
        end = self.block(f.node.body, st)
        _, rets = self.stack.pop()
        r, out = None, None
        for v, s in rets:
            r = join(r, v) if r is not None else v
            out = s if out is None else out.join(s)
        if not end.dead:
            r = join(r, V(const=None)) if r is not None else V(const=None)
            out = end if out is None else out.join(end)
        if out is None:
            out = end
            r = r or BOT
        r = self.close(r, out)
        self.on_return(f, r, out)
        out = out.copy()
        out.env = outer
        out.pc = pc
        out.dead = False
        return r, out

    def default(self, f, p, d):
        if d is None:
            return V({('param', p)})
        try:
            return V(const=self.proj.const(f.module, d))
        except ValueError:
            return V()

    def close(self, v, st):
        return v

    def block(self, body, st):
        for s in body:
            if st.dead:
                return st
            st = self.stmt(s, st)
        return st

    def dead(self, st, how=True):
        s = st.copy()
        s.dead = how
        return s

    def stmt(self, s, st):
        self.steps += 1
        m = getattr(self, 's_' + type(s).__name__, None)
        return m(s, st) if m else st

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else V(const=None)
        self.stack[-1][1].append((v, st))
        return self.dead(st)

    def s_Raise(self, s, st):
        return self.dead(st, 'raise')

    def s_Continue(self, s, st):
        self.loops[-1].append(st)
        return self.dead(st)

    s_Break = s_Continue
    loops = [[]]

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return st

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return st

    def s_AugAssign(self, s, st):
        v = self.ev(s.value, st)
        old = self.ev(_load(s.target), st)
        if isinstance(s.op, ast.Add) and old.refs:
            self.absorb(old, V(flat(v) | self.reach(v, st)), st)
            new = old
        else:
            new = V(flat(old) | flat(v) | self.reach(v, st), refs=old.refs)
        self.assign(s.target, new, st, s)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                k = self.ev(t.slice, st)
                self.drop_key(t.value, k, st)
        return st

    def ctl(self, st):
        out = st.pc
        for x in self.controls:
            out |= x
        return out
    controls = ()

    def s_If(self, s, st):
        tv, known = self.test(s.test, st)
        lab = flat(tv)
        old = self.controls
        self.controls = tuple(old) + (lab,)
        a = b = None
        if known is not False:
            a = self.block(s.body, self.refine(s.test, True, st.copy()))
        if known is not True:
            b = self.block(s.orelse, self.refine(s.test, False, st.copy()))
        self.controls = old
        if a is None:
            return b
        if b is None:
            return a
        if a.dead and b.dead:
            return a if b.dead == 'raise' else b
        if a.dead is True or b.dead is True:
            out = a.join(b).copy()
            out.pc |= lab
            return out
        out = a.join(b)
        marks = {m for m in lab if m[0] == 'truth'}
        if marks and not a.dead and not b.dead:
            for k, v in out.env.items():
                if a.env.get(k) is not b.env.get(k):
                    out.env[k] = mark(v, marks)
        return out

    def refine(self, test, truth, st):
        return st

    def test(self, n, st):
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            v, k = self.test(n.operand, st)
            return v, (None if k is None else not k)
        if isinstance(n, ast.BoolOp):
            vs, ks = [], []
            for x in n.values:
                v, k = self.test(x, st)
                vs.append(v)
                ks.append(k)
            lab = E
            for v in vs:
                lab |= flat(v)
            if isinstance(n.op, ast.And):
                k = False if False in ks else (True if all(
                    x is True for x in ks) else None)
            else:
                k = True if True in ks else (False if all(
                    x is False for x in ks) else None)
            return V(lab, b=True), k
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = self.ev(n.left, st), self.ev(n.comparators[0], st)
            k = None
            if a.const is not NOC and b.const is not NOC:
                try:
                    op = type(n.ops[0])
                    k = {ast.Eq: lambda: a.const == b.const,
                         ast.NotEq: lambda: a.const != b.const,
                         ast.Is: lambda: a.const is b.const or
                         a.const == b.const,
                         ast.IsNot: lambda: not (a.const is b.const or
                                                 a.const == b.const),
                         ast.In: lambda: a.const in b.const,
                         ast.NotIn: lambda: a.const not in b.const}.get(
                             op, lambda: None)()
                except TypeError:
                    k = None
            if k is None and a.const is not NOC and b.elts is not None and \
                    not isinstance(a.const, (list, dict)) and \
                    isinstance(n.ops[0], (ast.In, ast.NotIn)):
                # a scalar against a display of scalars and fresh containers
                if all(x.const is not NOC or (x.refs and not x.labels)
                       for x in b.elts):
                    k = any(x.const is not NOC and x.const == a.const
                            for x in b.elts)
                    k = k if isinstance(n.ops[0], ast.In) else not k
            d = self.deref(b, st)
            if isinstance(n.ops[0], (ast.In, ast.NotIn)) and d.keys:
                bl = d.labels       # depends on which keys there are
            else:
                bl = flat(b) | self.reach(b, st)
            return V(flat(a) | self.reach(a, st) | bl, const=NOC if k is None else k,
                     b=True), k
        v = self.ev(n, st)
        more = self.reach(v, st)
        if more - v.labels:
            v = V(v.labels | more, v.keys, v.const, b=v.b)
        return truth(v), (bool(v.const) if v.const is not NOC else None)

    def s_For(self, s, st):
        pc = st.pc
        st = self.for_(s, st)
        st.pc = pc
        return self.block(s.orelse, st) if s.orelse and not st.dead else st

    def for_(self, s, st):
        pc = st.pc
        it = s.iter
        counted = isinstance(it, ast.Call) and dotted(it.func) == 'enumerate' \
            and len(it.args) >= 1 and isinstance(s.target, ast.Tuple) and \
            len(s.target.elts) == 2
        itv = self.ev(it.args[0] if counted else it, st)
        self.loops = self.loops + [[]]
        items = None
        if isinstance(itv.const, (tuple, list)) and len(itv.const) <= 40:
            items = [V(const=x) for x in itv.const]
        elif itv.elts is not None and not itv.labels and len(itv.elts) <= 40:
            items = list(itv.elts)
        if items is not None:
            for i, x in enumerate(items):
                b = st.copy()
                if counted:
                    x = V(elts=(V(const=i) if len(it.args) == 1 else V(), x))
                self.assign(s.target, x, b, s)
                b = self.block(s.body, b)
                st = b if not b.dead else None
                for e in self.loops[-1]:
                    st = e if st is None else st.join(e)
                self.loops[-1][:] = []
                if st is None:
                    st = b
                    break
                st = st.copy()
                st.pc = pc
        else:
            el = self.element(itv, st)
            if counted:
                el = V(elts=(V(), el))
            for _ in range(3):
                b = st.copy()
                self.assign(s.target, el, b, s)
                b = self.block(s.body, b)
                st = st.join(b)
                for e in self.loops[-1]:
                    st = st.join(e)
                self.loops[-1][:] = []
        self.loops = self.loops[:-1]
        return st

    s_AsyncFor = s_For

    def s_While(self, s, st):
        self.loops = self.loops + [[]]
        for _ in range(3):
            self.ev(s.test, st)
            b = self.block(s.body, st.copy())
            st = st.join(b)
            for e in self.loops[-1]:
                st = st.join(e)
            self.loops[-1][:] = []
        self.loops = self.loops[:-1]
        return self.block(s.orelse, st)

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, s)
        return self.block(s.body, st)

    s_AsyncWith = s_With

    def s_Try(self, s, st):
        start = st.copy()
        b = self.block(s.body, st)
        ok = self.block(s.orelse, b) if not b.dead else b
        mid = start.join(b) if not b.dead else start
        # effects of the body happen before a handler runs
        mid.fields.update({k: join(v, mid.fields.get(k))
                           for k, v in b.fields.items()})
        mid.heap.update({k: join(v, mid.heap.get(k))
                         for k, v in b.heap.items()})
        out = ok
        for h in s.handlers:
            x = mid.copy()
            x.dead = False
            if h.name:
                x.env[h.name] = BOT
            x = self.block(h.body, x)
            out = out.join(x)
        if s.finalbody:
            dead = out.dead
            out = out.copy()
            out.dead = False
            out = self.block(s.finalbody, out)
            if dead:
                out = self.dead(out)
        return out

    def s_FunctionDef(self, s, st):
        st.env[s.name] = V(obj=('nested', s.name))
        return st

    # ------------------------------------------------------------ assigning
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            if v.const is not NOC and not v.labels:
                pass
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v.elts is not None and len(v.elts) == len(t.elts) and not any(
                    isinstance(x, ast.Starred) for x in t.elts):
                for x, y in zip(t.elts, v.elts):
                    self.assign(x, y, st, node)
            else:
                el = self.element(v, st)
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        x = x.value
                    self.assign(x, el, st, node)
        elif isinstance(t, ast.Attribute):
            self.store_attr(self.ev(t.value, st), t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            k = self.ev(t.slice, st)
            self.store_item(t.value, k, v, st, node, t.slice)

    def guarded(self, v, st):
        """A constant stored under a condition depends on the condition."""
        if v.const is not NOC and not flat(v):
            lab = self.ctl(st)
            if lab:
                return V(lab)
        return v

    def store_attr(self, base, attr, v, st, node):
        v = self.guarded(v, st)
        self.on_store(st, base, attr, v, node)
        if base.obj is not None:
            st.fields[(base.obj, attr)] = v

    def store_item(self, basenode, k, v, st, node, knode=None):
        base = self.ev(basenode, st)
        v = self.guarded(v, st)
        self.on_item(st, base, k, v, node)
        add = V()
        if k.const is not NOC and _hash(k.const):
            add = V(keys={k.const: v})
        else:
            src = self.same_key(node, knode, st)
            if src is not None:
                add = V(flat(src) if not src.keys else src.labels, src.keys)
            else:
                add = V(flat(v) | flat(k) | self.reach(v, st))
        self.absorb(base, add, st, basenode)

    def same_key(self, node, knode, st):
        """`a[k] = b[k]` copies every key of b."""
        val = getattr(node, 'value', None)
        if knode is None or not isinstance(node, ast.Assign):
            return None
        if isinstance(val, ast.Subscript) and \
                ast.dump(val.slice) == ast.dump(knode):
            return self.deref(self.ev(val.value, st), st)
        return None

    def absorb(self, base, add, st, basenode=None):
        if base.refs:
            for r in base.refs:
                st.heap[r] = join(st.heap.get(r), add)
            return
        if isinstance(basenode, ast.Name):
            st.env[basenode.id] = join(V(base.labels, base.keys, NOC,
                                         base.refs, base.obj), add)
        elif isinstance(basenode, ast.Attribute):
            o = self.ev(basenode.value, st)
            if o.obj is not None:
                st.fields[(o.obj, basenode.attr)] = join(base, add)
        elif isinstance(basenode, ast.Subscript):
            o = self.ev(basenode.value, st)
            if o.refs:
                self.absorb(o, V(flat(add)), st)

    def drop_key(self, basenode, k, st):
        base = self.ev(basenode, st)
        if k.const is NOC or not _hash(k.const):
            return
        for r in base.refs:
            h = st.heap.get(r)
            if h is not None and k.const in h.keys:
                keys = dict(h.keys)
                keys.pop(k.const)
                st.heap[r] = V(h.labels, keys, h.const, h.refs, h.obj, None)

    def deref(self, v, st):
        if not v.refs:
            return v
        out = V(v.labels, v.keys)
        todo, done = list(v.refs), set()
        while todo:
            r = todo.pop()
            if r in done:
                continue
            done.add(r)
            h = st.heap.get(r)
            if h is not None:
                out = join(out, V(h.labels, h.keys, NOC, E, None, None))
                todo += list(h.refs)
        return V(out.labels, out.keys, v.const, E, v.obj, v.elts)

    def reach(self, v, st, depth=0):
        """Labels reachable from a value through references."""
        d = self.deref(v, st)
        out = flat(d)
        if depth < 4:
            for x in list(d.keys.values()) + list(d.elts or ()):
                out |= self.reach(x, st, depth + 1)
        return out

    def element(self, v, st):
        d = self.deref(v, st)
        if isinstance(d.const, (tuple, list)):
            return BOT
        lab = E
        for x in list(d.keys.values()) + list(d.elts or ()):
            lab |= self.reach(x, st)
        return V(d.labels | lab)

    def item(self, v, k, st):
        d = self.deref(v, st)
        if d.const is not NOC and k.const is not NOC:
            try:
                return V(const=d.const[k.const])
            except Exception:
                return BOT
        if k.const is not NOC and _hash(k.const):
            if isinstance(k.const, int) and d.elts is not None and \
                    -len(d.elts) <= k.const < len(d.elts):
                return d.elts[k.const]
            out = V(frozenset(extend(x, k.const) for x in d.labels))
            if k.const in d.keys:
                out = join(d.keys[k.const], out) if out.labels \
                    else d.keys[k.const]
            return out
        el = self.element(v, st)
        return V(el.labels | flat(k))

    # ---------------------------------------------------------- expressions
    def ev(self, n, st):
        self.steps += 1
        if n is None:
            return V(const=None)
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is not None:
            return m(n, st)
        out = E
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                v = self.ev(c, st)
                out |= flat(v) | self.reach(v, st)
        return V(out)

    def e_Constant(self, n, st):
        return V(const=n.value)

    def e_Name(self, n, st):
        if n.id in st.env:
            return st.env[n.id]
        f = self.stack[-1][0]
        try:
            c = self.proj.const(f.module, n)
            if _hash(c) or isinstance(c, list):
                return V(const=c)
        except ValueError:
            pass
        return V()

    def e_Attribute(self, n, st):
        d = dotted(n)
        f = self.stack[-1][0]
        if d and d.split('.')[0] not in st.env:
            try:
                c = self.proj.const(f.module, n)
                if _hash(c) or isinstance(c, list):
                    return V(const=c)
            except ValueError:
                pass
        return self.load_attr(self.ev(n.value, st), n.attr, st, n)

    def load_attr(self, b, attr, st, node):
        if b.obj is not None:
            if (b.obj, attr) in st.fields:
                return st.fields[(b.obj, attr)]
            c = self.cls_of(b.obj)
            if c is not None:
                if attr.isupper() or attr.startswith('_'):
                    r = self.proj.member(('cls', c), attr)
                    if r is not None and r[0] == 'cvar':
                        try:
                            k = self.proj.const_of(r)
                            if _hash(k) and (attr.isupper() or
                                             attr not in self.stored()):
                                return V(const=k)
                        except ValueError:
                            pass
                m = self.proj.find_method(c, attr)
                if m is not None and m.is_property:
                    r, out = self.call_func(m, [b], {}, st, node)
                    self.adopt(st, out)
                    return r
            return V({('field', b.obj, attr)})
        return V(frozenset(extend(x, '.' + attr) for x in b.labels))

    def stored(self):
        """Every attribute name the program ever assigns."""
        if not hasattr(self.proj, '_stored_attrs'):
            self.proj._stored_attrs = {
                n.attr for m in self.proj.modules.values()
                for n in ast.walk(m.tree) if isinstance(n, ast.Attribute)
                and isinstance(n.ctx, ast.Store)}
        return self.proj._stored_attrs

    def cls_of(self, obj):
        return obj[1] if isinstance(obj, tuple) and obj[0] in ('self', 'new') \
            else None

    def adopt(self, st, out):
        st.fields.update(out.fields)
        st.heap.update(out.heap)

    def e_Dict(self, n, st):
        site = ('D', self.stack[-1][0].qual, n.lineno, n.col_offset)
        keys, lab = {}, E
        for k, x in zip(n.keys, n.values):
            v = self.ev(x, st)
            if k is None:
                d = self.deref(v, st)
                keys.update(d.keys)
                lab |= d.labels
                continue
            kv = self.ev(k, st)
            if kv.const is not NOC and _hash(kv.const):
                keys[kv.const] = v
                self.on_item(st, V(refs={site}), kv, v, n)
            else:
                lab |= flat(kv) | flat(v) | self.reach(v, st)
        st.heap[site] = V(lab, keys)
        return V(refs={site})

    def e_List(self, n, st):
        site = ('L', self.stack[-1][0].qual, n.lineno, n.col_offset)
        vs = [self.ev(x, st) for x in n.elts]
        lab = E
        for v in vs:
            lab |= flat(v) | self.reach(v, st)
        st.heap[site] = V(lab)
        return V(refs={site}, elts=tuple(vs) if vs else None)

    def e_Tuple(self, n, st):
        vs = tuple(self.ev(x, st) for x in n.elts)
        if vs and all(v.const is not NOC and not v.refs for v in vs):
            return V(const=tuple(v.const for v in vs), elts=vs)
        return V(elts=vs)

    e_Set = e_List

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        if isinstance(n.slice, ast.Slice):
            return V(self.deref(b, st).labels | self.reach(b, st),
                     self.deref(b, st).keys, b.const if False else NOC)
        return self.item(b, self.ev(n.slice, st), st)

    def e_IfExp(self, n, st):
        tv, k = self.test(n.test, st)
        if k is True:
            return self.ev(n.body, st)
        if k is False:
            return self.ev(n.orelse, st)
        a, b = self.ev(n.body, st), self.ev(n.orelse, st)
        out = mark(join(a, b), {m for m in flat(tv) if m[0] == 'truth'})
        if not flat(out):
            out = join(out, V(flat(tv)))
        return out

    def e_BoolOp(self, n, st):
        out = None
        for x in n.values:
            v = self.ev(x, st)
            out = v if out is None else join(out, v)
        marks = {('truth', x) for x in out.labels if x[0] != 'truth'}
        return V(out.labels | (E if out.b else marks), out.keys, NOC,
                 out.refs, out.obj, out.elts, out.b)

    def e_BinOp(self, n, st):
        a, b = self.ev(n.left, st), self.ev(n.right, st)
        if a.const is not NOC and b.const is not NOC and \
                isinstance(n.op, ast.Add):
            try:
                return V(const=a.const + b.const)
            except TypeError:
                pass
        return V(flat(a) | flat(b) | self.reach(a, st) | self.reach(b, st))

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            return self.test(n, st)[0]
        v = self.ev(n.operand, st)
        if v.const is not NOC and isinstance(n.op, ast.USub) and \
                isinstance(v.const, (int, float)):
            return V(const=-v.const)
        return V(flat(v) | self.reach(v, st))

    def e_Compare(self, n, st):
        return self.test(n, st)[0]

    def e_Lambda(self, n, st):
        return V()

    def unrolled(self, n, elts, st):
        """A comprehension over a known sequence with decided conditions:
        the values of its elements, or None."""
        if len(n.generators) != 1:
            return None
        g = n.generators[0]
        itv = self.ev(g.iter, st)
        if isinstance(itv.const, (tuple, list)) and len(itv.const) <= 40:
            items = [V(const=x) for x in itv.const]
        elif itv.elts is not None and not itv.labels and len(itv.elts) <= 40:
            items = list(itv.elts)
        else:
            return None
        out = []
        for x in items:
            inner = st.copy()
            self.assign(g.target, x, inner, g)
            keep = True
            for c in g.ifs:
                k = self.test(c, inner)[1]
                if k is None:
                    return None
                keep = keep and k
            if keep:
                out.append(tuple(self.ev(e, inner) for e in elts))
            self.adopt(st, inner)
        return out

    def _comp(self, n, elts, st):
        got = self.unrolled(n, elts, st)
        if got is not None and isinstance(n, ast.DictComp):
            if all(k.const is not NOC and _hash(k.const) for k, _ in got):
                return V(keys={k.const: v for k, v in got})
        elif got is not None:
            lab = E
            for (v,) in got:
                lab |= self.reach(v, st)
            site = ('C', self.stack[-1][0].qual, n.lineno, n.col_offset)
            st.heap[site] = V(lab)
            if all(v.const is not NOC for (v,) in got):
                st.heap.pop(site)
                return V(elts=tuple(v for (v,) in got))
            return V(refs={site}, elts=tuple(v for (v,) in got))
        inner = st.copy()
        lab = E
        for g in n.generators:
            itv = self.ev(g.iter, inner)
            self.assign(g.target, self.element(itv, inner), inner, g)
            for c in g.ifs:
                self.ev(c, inner)
        for e in elts:
            v = self.ev(e, inner)
            lab |= flat(v) | self.reach(v, inner)
        self.adopt(st, inner)
        return V(lab)

    def e_ListComp(self, n, st):
        return self._comp(n, [n.elt], st)

    e_SetComp = e_GeneratorExp = e_ListComp

    def e_DictComp(self, n, st):
        # {k: f(v) for k, v in d.items()} keeps the keys of d
        if len(n.generators) == 1 and not n.generators[0].ifs or True:
            g = n.generators[0]
            if isinstance(g.iter, ast.Call) and \
                    isinstance(g.iter.func, ast.Attribute) and \
                    g.iter.func.attr == 'items' and \
                    isinstance(g.target, ast.Tuple) and \
                    isinstance(g.target.elts[0], ast.Name) and \
                    isinstance(n.key, ast.Name) and \
                    n.key.id == g.target.elts[0].id:
                src = self.deref(self.ev(g.iter.func.value, st), st)
                if src.keys:
                    x = self._comp(n, [n.key, n.value], st)
                    return V(src.labels, src.keys)
        return self._comp(n, [n.key, n.value], st)

    # ---------------------------------------------------------------- calls
    COPY = {'OrderedDict', 'collections.OrderedDict', 'dict', 'list', 'tuple',
            'sorted', 'copy.deepcopy', 'copy.copy', 'reversed', 'set', 'iter',
            'frozenset'}

    def e_Call(self, n, st):
        f = self.stack[-1][0]
        recv, name = None, dotted(n.func) or '?'
        if isinstance(n.func, ast.Attribute) and \
                isinstance(n.func.value, ast.Call) and \
                dotted(n.func.value.func) == 'super':
            recv, name = st.env.get((f.params or ['self'])[0]), n.func.attr
        elif isinstance(n.func, ast.Attribute):
            head = name.split('.')[0]
            if name == '?' or head in st.env:
                recv = self.ev(n.func.value, st)
                name = n.func.attr
            else:
                r = self.proj.lookup(f.module, name)
                if r is None or r[0] in ('gvar', 'cvar'):
                    recv = self.ev(n.func.value, st)
                    name = n.func.attr
        args, star = [], False
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.append(V(self.element(self.ev(a.value, st), st).labels))
                star = True
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                d = self.deref(v, st)
                kw.update({x: y for x, y in d.keys.items()
                           if isinstance(x, str)})
                kw.setdefault('**', V(flat(d)))
            else:
                kw[k.arg] = v
        r = self.on_call(st, name, recv, args, kw, n)
        if r is not None:
            return r
        b = self.builtin(n, st, name, recv, args, kw)
        if b is not None:
            return b
        targets = self.targets(f, n, st, recv, name)
        everything = E
        for v in list(args) + list(kw.values()) + ([recv] if recv is not None
                                                   else []):
            everything |= flat(v) | self.reach(v, st)
        out = None
        if targets and len(targets) <= 4:
            for t in targets:
                if any(t is g for g, _ in self.stack) or \
                        len(self.stack) > self.max_depth or \
                        isinstance(t.node, ast.Lambda) or t.is_gen:
                    out = join(out, V(everything)) if out else V(everything)
                    continue
                a = list(args)
                if t.cls is not None and t.kind not in ('static',
                                                        'staticmethod') and \
                        t.parent is None:
                    if recv is not None:
                        a = [recv] + a
                    elif t.kind == 'classmethod':
                        a = [V(obj=('self', t.cls.qual))] + a
                    elif t.node.name == '__init__' and not \
                            name.endswith('__init__'):
                        a = [V(obj=('new', t.cls.qual, self.stack[-1][0].qual,
                                    n.lineno, n.col_offset))] + a
                rv, o = self.call_func(t, a, kw, st, n)
                self.adopt(st, o)
                if t.node.name == '__init__' and a and a[0].obj and \
                        a[0].obj[0] == 'new':
                    rv = a[0]
                out = join(out, rv) if out is not None else rv
            return out
        # an unknown callee may store anything into its mutable arguments
        return V(everything)

    def call_func(self, t, args, kw, st, node):
        bound = {}
        ps = list(t.params)
        for i, v in enumerate(args):
            if i < len(ps):
                bound[ps[i]] = v
            elif t.vararg:
                bound[t.vararg] = join(bound.get(t.vararg), V(flat(v)))
        for k, v in kw.items():
            if k in ps or k in t.kwonly:
                bound[k] = v
            elif t.kwarg:
                bound[t.kwarg] = join(bound.get(t.kwarg), V(flat(v), {k: v}))
        inner = st
        if t.parent is not None:
            env = dict(st.env)
            env.update(bound)
            for p in ps:
                if p not in bound:
                    env[p] = self.default(t, p, t.defaults.get(p)
                                          if isinstance(t.defaults, dict)
                                          else None)
            bound = env
        return self.run(t, bound, inner)

    def targets(self, f, n, st, recv, name):
        if recv is not None and recv.obj is not None:
            c = self.cls_of(recv.obj)
            if c is not None:
                m = self.proj.find_method(c, name)
                if m is not None:
                    return [m]
        out = []
        for kind, q in self.cg.resolve_call(f, n):
            if kind == 'fn':
                out.append(self.proj.funcs[q])
        return out

    def builtin(self, n, st, name, recv, args, kw):
        if recv is None:
            if name == 'getattr' and len(args) >= 2 and \
                    isinstance(args[1].const, str):
                v = self.load_attr(args[0], args[1].const, st, n)
                return join(v, args[2]) if len(args) > 2 and flat(v) else v
            if name == 'setattr' and len(args) == 3:
                if isinstance(args[1].const, str):
                    self.store_attr(args[0], args[1].const, args[2], st, n)
                else:
                    self.store_attr(args[0], None, args[2], st, n)
                return V(const=None)
            if name in self.COPY or name.split('.')[-1] == 'OrderedDict':
                if not args:
                    site = ('N', self.stack[-1][0].qual, n.lineno, n.col_offset)
                    st.heap[site] = V(keys={k: v for k, v in kw.items()
                                            if k != '**'})
                    return V(refs={site})
                d = self.deref(args[0], st)
                site = ('N', self.stack[-1][0].qual, n.lineno, n.col_offset)
                if d.const is not NOC and isinstance(d.const, (tuple, list)) \
                        and name in ('list', 'tuple', 'sorted', 'reversed',
                                     'set'):
                    return d
                st.heap[site] = V(d.labels, d.keys)
                for k, v in kw.items():
                    if k != 'key':
                        st.heap[site] = join(st.heap[site], V(keys={k: v}))
                return V(refs={site}, elts=d.elts)
            if name == 'len' and len(args) == 1 and not args[0].labels:
                d = self.deref(args[0], st)
                if isinstance(d.const, (tuple, list)):
                    return V(const=len(d.const))
                if args[0].elts is not None:
                    return V(const=len(args[0].elts))
            if name == 'range' and args and not kw and all(
                    isinstance(a.const, int) for a in args):
                got = range(*[a.const for a in args])
                if len(got) <= 40:
                    return V(const=tuple(got))
            if name in ('isinstance', 'len', 'bool', 'hasattr', 'callable'):
                lab = E
                for a in args:
                    lab |= flat(a) | self.reach(a, st)
                if name == 'bool':
                    return truth(V(lab), True)
                return V(lab, b=name != 'len')
            return None
        if name in ('get', 'pop', 'setdefault') and args:
            v = self.item(recv, args[0], st)
            if name == 'pop' and isinstance(n.func, ast.Attribute):
                self.drop_key(n.func.value, args[0], st)
            if name == 'setdefault' and len(args) > 1 and \
                    isinstance(n.func, ast.Attribute):
                add = V(keys={args[0].const: args[1]}) if \
                    args[0].const is not NOC and _hash(args[0].const) \
                    else V(flat(args[1]))
                self.absorb(recv, add, st, n.func.value)
            if len(args) > 1 and not flat(v):
                v = join(v, args[1])
            elif len(args) > 1:
                v = join(v, V(flat(args[1])))
            return v
        if name in ('items', 'copy', 'keys', 'values'):
            d = self.deref(recv, st)
            if name == 'copy':
                site = ('N', self.stack[-1][0].qual, n.lineno, n.col_offset)
                st.heap[site] = V(d.labels, d.keys)
                return V(refs={site})
            if d.labels or not d.keys:
                el = None
            elif name == 'items':
                el = tuple(V(elts=(V(const=k), v)) for k, v in d.keys.items())
            elif name == 'keys':
                return V(elts=tuple(V(const=k) for k in d.keys))
            else:
                el = tuple(d.keys.values())
            return V(d.labels, d.keys if name != 'keys' else None, elts=el)
        if name in ('append', 'extend', 'add', 'insert', 'update') and \
                isinstance(n.func, ast.Attribute):
            for a in args[-1:]:
                d = self.deref(a, st)
                if name == 'update':
                    add = V(d.labels, d.keys)
                else:
                    add = V(self.reach(a, st) | flat(a))
                self.absorb(recv, add, st, n.func.value)
            for k, v in kw.items():
                if name == 'update' and k != '**':
                    self.absorb(recv, V(keys={k: v}), st, n.func.value)
            return V(const=None)
        if recv.const is not NOC and isinstance(recv.const, str) and \
                all(a.const is not NOC for a in args) and not kw and name in (
                    'partition', 'rpartition', 'strip', 'lstrip', 'rstrip',
                    'format', 'lower', 'upper', 'replace', 'startswith',
                    'endswith', 'split', 'join'):
            try:
                return V(const=getattr(recv.const, name)(
                    *[a.const for a in args]))
            except Exception:
                return BOT
        return None


def truth(v, b=False):
    """A value tested for being true: its false values are told apart."""
    if v.b or not v.labels:
        return v
    return V(v.labels | {('truth', x) for x in v.labels if x[0] != 'truth'},
             v.keys, v.const, v.refs, v.obj, v.elts, b)


def mark(v, marks):
    add = {m for m in marks if m[1] in v.labels}
    if not add:
        return v
    return V(v.labels | add, v.keys, v.const, v.refs, v.obj, v.elts, v.b)


def extend(label, k):
    if label[0] == 'key' and len(label[2]) < 5:
        return ('key', label[1], label[2] + (k,))
    return label


def _hash(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def _load(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
    if isinstance(t, ast.Attribute):
        return ast.copy_location(ast.Attribute(value=t.value, attr=t.attr,
                                               ctx=ast.Load()), t)
    if isinstance(t, ast.Subscript):
        return ast.copy_location(ast.Subscript(value=t.value, slice=t.slice,
                                               ctx=ast.Load()), t)
    return t
