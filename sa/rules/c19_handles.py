"""C19: what is opened is closed."""
import ast

from ..core import Rule
from ..interp import Interp, Client, State, NONE, val
from ..project import own_walk, dotted

OPENERS = {
    'open': 'file', 'io.open': 'file', 'codecs.open': 'file',
    'gzip.open': 'file', 'zipfile.ZipFile': 'file',
    'tempfile.TemporaryFile': 'file', 'tempfile.NamedTemporaryFile': 'file',
    'os.open': 'descriptor',
    'socket.socket': 'socket', 'socket.create_connection': 'socket',
    'logging.FileHandler': 'log file',
    'logging.handlers.RotatingFileHandler': 'log file',
    'logging.handlers.TimedRotatingFileHandler': 'log file',
}
# openers whose result holds the handle as its first item
FIRST = {'tempfile.mkstemp': 'descriptor', 'imp.find_module': 'file'}
CLOSES = {'close', 'server_close'}
SERVERS = {'TCPServer', 'UDPServer', 'ThreadingTCPServer', 'BaseServer',
           'ThreadingUDPServer', 'HTTPServer', 'SimpleXMLRPCServer',
           'ForkingTCPServer', 'DocXMLRPCServer'}
# the result stands for the argument
WRAPPERS = {'contextlib.closing', 'os.fdopen', 'iter', 'io.TextIOWrapper',
            'io.BufferedReader', 'io.BufferedWriter'}
QUIET = {'setFormatter', 'addHandler', 'removeHandler', 'getLogger',
         'setblocking', 'settimeout', 'setsockopt', 'fileno'}


def terms(v, out=None):
    """Every term nested in a value."""
    out = [] if out is None else out
    if isinstance(v, (tuple, frozenset)):
        if isinstance(v, tuple) and v and isinstance(v[0], str):
            out.append(v)
        for x in v:
            terms(x, out)
    return out


def fields(v):
    """The lasting places a value may have been loaded from."""
    out = set()
    for t in terms(v):
        if t[0] == 'a' and len(t) > 2 and isinstance(t[2], str):
            out.add(t[2])
        elif t[0] == 'gvar':
            out.add('.'.join(t[1:3]))
        elif t[0] == 'self':
            out.add(t)
    return out


class Handles(Client):
    """State: what is open, what is kept in a lasting place, and the sockets
    whose timeout is set for the moment."""
    small = 20

    def __init__(self, proj, servers):
        self.proj, self.servers = proj, servers
        self.made, self.kept, self.released = {}, {}, set()
        self.timeouts = 0
        self.stored = set()

    def kind(self, ci):
        k = OPENERS.get(ci.name) or FIRST.get(ci.name)
        if k:
            return k
        for t in ci.term or ():
            if t[0] == 'cls' and t[1] in self.servers:
                return 'server'
        return None

    def on_call(self, it, st, ci):
        last = ci.name.split('.')[-1]
        opened, timed = st.rs
        k = self.kind(ci)
        if k:
            f = it.stack[-1][0]
            t = ('R', ci.node.lineno * 1000 + ci.node.col_offset, f.qual)
            self.made[t] = (k, f, ci.node,
                            [x[1] for x in ci.term or () if x[0] == 'cls'])
            it.raise_(st, 'OSError')
            if t in opened:
                self.again.add(t)
            st = st.with_rs((opened | {t}, timed))
            # what was kept in an earlier round is another one
            for place, v in list(st.heap.items()):
                if t not in opened and any(t in terms(x) for x in v):
                    st.heap[place] = frozenset(x for x in v
                                               if t not in terms(x))
            if ci.name in FIRST:
                rest = val(('r', 'rest', frozenset(), (), ci.node.lineno))
                return [(st, val(('T', (val(t), rest, rest)[
                    :3 if ci.name.startswith('imp') else 2])))]
            return [(st, val(t))]
        if ci.name == 'os.close' and ci.args:
            return self.close(st, ci.args[0])
        if last in CLOSES and ci.recv is not None:
            return self.close(st, ci.recv)
        if last == 'settimeout' and ci.args and ci.recv is not None:
            if not set(terms(ci.recv)) & opened:
                key = frozenset(ci.recv)
                if ci.args[0] == NONE:
                    return [(st.with_rs((opened, frozenset(
                        x for x in timed if x[0] != key))), NONE)]
                self.timeouts += 1
                q = it.stack[-1][0].qual
                return [(st.with_rs((opened, timed | {(key, q)})), NONE)]
            return [(st, NONE)]
        if ci.name in WRAPPERS and ci.args:
            return [(st, ci.args[0])]
        if ci.recv is not None and all(t[0] == 'gvar' and t[-1] == 'logger'
                                       for t in ci.recv):
            return [(st, NONE)]
        if last in ('append', 'add', 'setdefault', 'insert', 'put', 'extend',
                    'appendleft', 'update') and ci.recv is not None:
            for a in ci.args:
                self.keep(st, a, ci.recv, last)
        return None

    again = frozenset()

    def close(self, st, who):
        opened, timed = st.rs
        ts = set(terms(who))
        self.released |= fields(who)
        for t in ts & opened:
            if lasting(st, t, (), self):
                self.released |= self.kept.get(t, set())
        if ts & opened:
            return [(st.with_rs((opened - ts, timed)), NONE)]
        return [(st, NONE)]

    def keep(self, st, value, where, name):
        """It is stored in a place that outlives the function."""
        ts = set(terms(value)) & st.rs[0]
        for t in ts:
            for w in where:
                fs = {name} if isinstance(name, str) and w[0] == 'self' else \
                    fields(val(w))
                if w[0] in ('L', 'D', 'T'):
                    continue
                self.kept.setdefault(t, set()).update(fs or {name})
        return st

    def attr_store(self, it, st, recv, attr, value, node):
        ts = set(terms(value)) & st.rs[0]
        for t in ts:
            self.kept.setdefault(t, set()).add(attr)
        return st

    def item_store(self, it, st, recv, key, value, node):
        return self.keep(st, value, recv, '[]')

    def with_exit(self, it, st, ctx, node, exc):
        return self.close(st, ctx)[0][0]

    def lookup_exc(self, it, st, recv, key, node):
        return None if all(t[0] == 'T' for t in recv) else 'LookupError'

    def exceptions(self, it, st, ci):
        return () if ci.name.split('.')[-1] in QUIET else ('*',)


def lasting(st, t, value, c):
    """Is the resource kept, or handed to the caller, in this state."""
    if t in terms(value):
        return 'returned'
    for k, v in st.env.items():
        if k[0].startswith('mod:') and t in terms(v):
            c.kept.setdefault(t, set()).add(k[0][4:] + '.' + k[1])
            return 'kept'
    reach, todo = set(), list(terms(value))
    while todo:
        b = todo.pop()
        if b in reach:
            continue
        reach.add(b)
        for (base, _), v in st.heap.items():
            if base == b:
                todo += terms(v)
    if t in reach:
        return 'returned'
    for (base, attr), v in st.heap.items():
        if t in terms(v) and (base[0] not in ('L', 'D', 'T', 'o', 'R')):
            return 'kept'
    return None


def opens(proj, f, servers):
    n_ = 0
    for n in own_walk(f.node):
        if isinstance(n, ast.Call):
            d = dotted(n.func)
            r = proj.lookup(f.module, d) if d else None
            if r and ((r[0] == 'ext' and (r[1] in OPENERS or r[1] in FIRST)) or
                      (r[0] == 'cls' and r[1] in servers)):
                n_ += 1
    return n_


def closes(f):
    return any(isinstance(n, ast.Call) and (
        isinstance(n.func, ast.Attribute) and
        n.func.attr in CLOSES | {'settimeout'}) for n in own_walk(f.node))


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    servers = {q for q in proj.classes if set(proj.ext_bases(q)) & SERVERS}
    openers = {q for q, f in proj.funcs.items() if opens(proj, f, servers)}
    closers = {q for q, f in proj.funcs.items() if closes(f)}
    c = Handles(proj, servers)
    makers = set()
    todo, done = sorted(openers | closers), set()
    sites = set()
    results = {}
    # what a project context manager or helper closes counts where it is used
    while todo:
        q = todo.pop(0)
        f = proj.funcs[q]
        if f.is_gen and f.ctxmgr:
            for x in sorted(cg.rev.get(q, ())):
                if x not in todo:
                    todo.append(x)
            makers.add(q)
            continue
        c.again = set()
        it = Interp(proj, c, None)
        it.interesting = set(makers) | closers
        rets, raises = it.run(f, State(rs=(frozenset(), frozenset())))
        ctx.analysed(it.inlined)
        bad, hands = [], False
        exits = [('returns', s, v) for s, v in rets] + \
            [('an exception (%s) leaves' % e, s, frozenset())
             for e, s in raises]
        for how, s, v in exits:
            for t in s.rs[0]:
                w = lasting(s, t, v, c)
                if w == 'returned':
                    hands = True
                elif w is None:
                    bad.append((how, t))
        left = {k for s, _ in rets for k in s.rs[1]}
        if left and not all(s.rs[1] for s, _ in rets) or \
                left and not cg.rev.get(q):
            bad += [('returns', (None, k[1])) for k in left]
        elif left:
            hands = True        # sets it for its callers
        for t in c.again:
            bad.append(('opens the next one', t))
        results[q] = (f, bad, len(exits))
        if hands and q not in makers:
            makers.add(q)
            for x in sorted(cg.rev.get(q, ())):
                if x != q and x not in todo:
                    todo.append(x)
    for q, (f, bad, n) in sorted(results.items()):
        ctx.obligation('%s: what it opens is closed, kept or handed on at each '
                       'of %d exits' % (f.where, n))
        for how, t in bad:
            # reported where it is opened, when that is judged by itself
            at = t[1] if t[0] is None else c.made[t][1].qual
            if at != q and at not in makers and at in results:
                continue
            if t[0] is None:
                ctx.violation('%s:timeout' % f.where, f, '%s with the timeout '
                              'of a socket still changed' % how)
                continue
            k, g, node, _ = c.made[t]
            ctx.violation('%s:%s:%s' % (f.where, g.name, k), g, '%s with the %s '
                          'opened here still open' % (how, k), node)
    # what is kept can be closed
    for t, places in sorted(c.kept.items(), key=repr):
        k, g, node, cls = c.made[t]
        own = {x for x in c.released if isinstance(x, tuple) and x[0] == 'self'
               and x[1] in cls}
        ctx.obligation('%s: the %s kept in %s is closed somewhere'
                       % (g.where, k, ', '.join(sorted(map(str, places)))))
        if not (places & c.released) and not own:
            ctx.violation('%s:%s:kept' % (g.where, k), g, 'nothing closes the '
                          '%s kept in %s' % (k, ', '.join(sorted(map(str,
                                                                     places)))),
                          node)
    ctx.count('things opened', len(c.made), 10)
    ctx.count('temporary timeouts', c.timeouts, 1)


RULE = Rule('C19', run, 'typestate of every file, socket, server and descriptor '
            'the package opens')
