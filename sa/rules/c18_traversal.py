"""C18: what is gone through is not changed on the way.

Within each loop over a container, or over a live view of one, the statements
and the summaries of the functions called are asked whether they change that
container in place; a change is reported when the loop can go on after it."""
import ast

from ..alias import Shares, summaries
from ..core import Rule
from ..interp import Interp, val, cap
from ..project import AnalysisBroken, dotted, own_walk

VIEWS = {'keys', 'items', 'values', 'iteritems', 'iterkeys', 'itervalues'}
LIVE = VIEWS | {'iter', 'enumerate', 'zip', 'filter', 'map', 'chain',
                'islice', 'from_iterable'}


def live(v, n=0):
    """The containers a loop over the value walks while it runs."""
    out = set()
    for t in v:
        if t[0] == 'r' and t[1].split('.')[-1] in LIVE and n < 5:
            name = t[1].split('.')[-1]
            if name in VIEWS:
                out |= {(u, True) for u, _ in live(t[2], n + 1)}
            else:
                args = t[3][1:] if name in ('filter', 'map') else t[3]
                for a in args:
                    out |= live(a, n + 1)
        else:
            out.add((t, False))
    return out


def definite(t):
    """The term stands for one object at a time."""
    k = t[0]
    if k in ('p', 'self', 'gvar', 'mod', 'L', 'D'):
        return True
    if k == 'a':
        return isinstance(t[2], str) and definite(t[1])
    if k == 'i':
        b = t[1]
        if isinstance(b, frozenset):
            if len(b) != 1:
                return False
            b = next(iter(b))
        return t[2][0] == 'c' and definite(b)
    return False


def walked(n):
    """What the loop walks, as written."""
    while isinstance(n, ast.Call):
        if isinstance(n.func, ast.Attribute) and n.func.attr in VIEWS:
            n = n.func.value
        elif isinstance(n.func, ast.Name) and n.func.id in LIVE and n.args:
            n = n.args[0]
        else:
            return None
    return dotted(n) or None


class Walk(Shares):
    def __init__(self, sums, f, report):
        Shares.__init__(self, sums, f)
        self.report = report
        self.pending, self.loops, self.seen = [], [], 0
        self.again = {(x.lineno, x.col_offset) for n in own_walk(f.node)
                      if isinstance(n, (ast.For, ast.While))
                      for b in n.body for x in ast.walk(b)
                      if hasattr(x, 'lineno')}

    def never_inline(self, f):
        return True

    def effect(self, it, st, terms, what, node, text=None, by=None):
        Shares.effect(self, it, st, terms, what, node, text, by)
        if what[0] != 'items' or what[1] not in ('in', 'out'):
            return
        if self.appends(by[1] if by else node):
            return          # what is added at the end is come to in turn
        inside = frozenset(u for t in terms for u in self.inside(it, st, t))
        self.pending.append((frozenset(terms) | inside, node, by))

    @staticmethod
    def appends(n):
        return isinstance(n, ast.AugAssign) or (
            isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
            n.func.attr in ('append', 'extend', 'sort', 'reverse'))

    def marked(self, it, st, node, keys=None):
        """The state after the changes just seen."""
        done, self.pending = self.pending, []
        for terms, n, by in done:
            for loop in self.loops:
                hit = [t for t, _ in loop['over'] if t in terms and definite(t)
                       and not self.made_again(t)]
                if not hit and by is None and loop['text'] and \
                        loop['text'] == self.target(n) and \
                        not loop['rebinds']:
                    hit = [loop['text']]
                if hit:
                    st = st.copy()
                    k = (('loop', id(loop['node'])), 'changed')
                    st.heap[k] = st.heap.get(k, frozenset()) | val(
                        ('x', n.lineno))
                    loop['by'][n.lineno] = (n, by)
        return st

    def made_again(self, t):
        """Made anew each time round some loop: one name for many objects."""
        while t[0] in ('a', 'i'):
            t = t[1] if not isinstance(t[1], frozenset) else next(iter(t[1]))
        if t[0] not in ('L', 'D') or not isinstance(t[1], tuple):
            return False
        return t[1][1:3] in self.again

    @staticmethod
    def target(n):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            return dotted(n.func.value) or None
        if isinstance(n, ast.AugAssign):
            return dotted(n.target) or None
        if isinstance(n, ast.Subscript):
            return dotted(n.value) or None
        return None

    def on_call(self, it, st, ci):
        self.pending = []
        return Shares.on_call(self, it, st, ci)

    def after_call(self, it, st, ci, v):
        keep = self.pending
        x = self.marked(it, st, ci.node)
        self.pending = keep
        return (x, v) if x is not st else Shares.after_call(self, it, st, ci, v)

    def item_del(self, it, st, recv, key, node):
        self.pending = []
        return self.marked(it, Shares.item_del(self, it, st, recv, key, node),
                           node)

    def augmented(self, it, st, target, value, node):
        self.pending = []
        return self.marked(it, Shares.augmented(self, it, st, target, value,
                                                node), node)

    def item_store(self, it, st, recv, key, value, node):
        self.pending = []
        out = Shares.item_store(self, it, st, recv, key, value, node)
        for loop in self.loops:
            over = {t for t, view in loop['over']
                    if (view or t[0] == 'D') and definite(t) and
                    not self.made_again(t)}
            hit = over & set(recv)
            if not hit and loop['views'] and loop['text'] and \
                    loop['text'] == self.target(node) and not loop['rebinds']:
                hit = set(recv)
            if hit and not key <= loop['elems'] and not any(
                    st.facts.get(('in', k, b)) is True
                    for k in key for b in recv):
                self.pending.append((frozenset(hit), node, None))
                out = self.marked(it, out, node)
        return out

    def elements(self, it, st, itv, node):
        loop = next((x for x in self.loops if x['node'] is node), None)
        if loop is not None:
            loop['over'] |= live(itv)
            loop['views'] |= any(v for _, v in live(itv))
            els = it.elems(st, itv)
            loop['elems'] |= els | frozenset(
                w for e in els if e[0] == 'T' for a in e[1][:1] for w in a)
            for m in st.heap.get((('loop', id(node)), 'changed'), ()):
                n, by = loop['by'].get(m[1], (node, None))
                self.report(self.f, node, n, by)
            if isinstance(node.iter, ast.Call) and not node.iter.keywords and \
                    len(node.iter.args) == 1 and \
                    dotted(node.iter.func) == 'enumerate':
                return self.counted(it, st, els, node)
        return Shares.elements(self, it, st, itv, node)

    @staticmethod
    def counted(it, st, els, node):
        """The first time round the index is 0."""
        was = (('round', id(node)), '', ('c', 'str', 'later'))
        if was in (st.rs or ()):
            return None
        els = frozenset(('T', (val(('c', 'int', 0)),) + e[1][1:])
                        if e[0] == 'T' and len(e[1]) == 2 else e for e in els)
        return [(st.with_rs((st.rs or frozenset()) | {was}), els)]


class WalkInterp(Interp):
    def s_For(self, s, st):
        c = self.client
        if len(self.stack) > 1:
            return Interp.s_For(self, s, st)
        st = self.clean(s, st)
        text = walked(s.iter)
        names = set(text.split('.')[:1]) if text else set()
        c.loops.append({
            'node': s, 'over': set(), 'elems': frozenset(), 'views': False,
            'text': text, 'by': {},
            'rebinds': any(isinstance(x, ast.Name) and x.id in names and
                           isinstance(x.ctx, ast.Store) and
                           not self.augment(s, x)
                           for b in s.body + [s.target] for x in ast.walk(b))})
        c.seen += 1
        try:
            fl = Interp.s_For(self, s, st)
        finally:
            c.loops.pop()
        fl.norm = [self.clean(s, x) for x in fl.norm]
        return fl

    @staticmethod
    def augment(s, name):
        return any(isinstance(x, ast.AugAssign) and x.target is name
                   for b in s.body for x in ast.walk(b))

    @staticmethod
    def clean(s, st):
        k = (('loop', id(s)), 'changed')
        if k in st.heap:
            st = st.copy()
            del st.heap[k]
        was = (('round', id(s)), '', ('c', 'str', 'later'))
        if was in (st.rs or ()):
            st = st.with_rs(st.rs - {was})
        return st


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    quals = {q for q, f in proj.funcs.items() if '.test' not in q}
    sums, failed = summaries(proj, cg, quals)
    loops = funcs = 0

    def report(f, loop, n, by):
        via = [] if by is None else [
            'changed in %s at line %d' % (by[0].where,
                                          getattr(by[1], 'lineno', 0))]
        ctx.violation('%s/%s' % (f.qual, walked(loop.iter) or 'loop'), f,
                      'the loop over `%s` goes on after `%s` changed what it '
                      'goes through' % (ast.unparse(loop.iter)[:60],
                                        ast.unparse(n).split('\n')[0][:60]),
                      n,
                      ['loop at line %d' % loop.lineno] + via)
    for q in sorted(quals):
        f = proj.funcs[q]
        if not any(isinstance(n, ast.For) for n in own_walk(f.node)):
            continue
        c = Walk(sums, f, report)
        try:
            WalkInterp(proj, c, None, budget=80000).run(f)
        except AnalysisBroken:
            ctx.note('%s: too much to follow' % q)
            continue
        loops += c.seen and sum(isinstance(n, ast.For)
                                for n in own_walk(f.node))
        funcs += 1
        ctx.analysed([q])
    ctx.count('functions with loops', funcs, 60)
    ctx.count('loops', loops, 100)
    ctx.obligation('no loop goes on over a container after an element of it '
                   'was added or taken out, here or in a function called')


RULE = Rule('C18', run, __doc__)
