"""C20: the verbosity set last is in force, a session log is logged to once."""
import ast

from ..core import Rule
from ..interp import Interp, Client, State, NONE, const, val, consts_of
from ..project import AnalysisBroken, own_walk

OLD = ('R', 1, 'handler in force')
OLDLOG = ('R', 2, 'session log handler')


class Log(Client):
    """State: (handlers on the root logger, (handler, level) pairs, closed)."""
    small = 20
    exact_exc = True

    def __init__(self, proj, start=None):
        self.proj, self.n, self.start = proj, 0, start
        self.levels = set()

    def on_call(self, it, st, ci):
        last = ci.name.split('.')[-1]
        on, levels, closed = st.rs
        if last in ('StreamHandler', 'FileHandler', 'SocketHandler',
                    'RotatingFileHandler', 'TimedRotatingFileHandler'):
            h = ('R', ci.node.lineno, last)
            return [(st.with_rs((on, levels | {(h, 0)}, closed)), val(h))]
        if last in ('addHandler', 'removeHandler') and ci.args:
            hs = frozenset(t for t in ci.args[0] if t[0] == 'R')
            self.n += 1
            if len(hs) != len(ci.args[0]):
                return [(st.with_rs((on | {('?', last)}, levels, closed)),
                         NONE)]
            on = on | hs if last == 'addHandler' else on - hs
            return [(st.with_rs((on, levels, closed)), NONE)]
        if last == 'setLevel' and ci.args and ci.recv is not None and \
                all(t[0] == 'R' for t in ci.recv):
            c = consts_of(ci.args[0])
            lv = c[0] if c and len(c) == 1 else \
                0 if ci.args[0] == val(('ext', 'logging.NOTSET')) else '?'
            for h in ci.recv:
                levels = frozenset(x for x in levels if x[0] != h) | {(h, lv)}
            return [(st.with_rs((on, levels, closed)), NONE)]
        if last == 'close' and ci.recv is not None:
            hs = frozenset(t for t in ci.recv if t[0] == 'R')
            return [(st.with_rs((on, levels, closed | hs)), NONE)]
        if last in ('get', 'pop') and ci.recv is not None and any(
                t[0] == 'gvar' and t[-1] == 'SESSION_LOG_HANDLERS'
                for t in ci.recv):
            k = ('slot',)
            v = st.heap.get((k, 'v'), val(self.start) if self.start else NONE)
            if last == 'pop':
                st = st.copy()
                st.heap[(k, 'v')] = NONE
            return [(st, v)]
        if ci.name == 'int' and ci.args and consts_of(ci.args[0]):
            return [(st, const(int(consts_of(ci.args[0])[0])))]
        if last == 'getLogger':
            return [(st, val(('gvar', 'logging', 'root')))]
        if last == 'handlers' or last == 'hasHandlers':
            return [(st, val(('top',)))]
        return None

    def is_table(self, recv):
        return any(t[0] == 'gvar' and t[-1] == 'SESSION_LOG_HANDLERS'
                   for t in recv)

    def slot(self, st):
        return st.heap.get((('slot',), 'v'),
                           val(self.start) if self.start else NONE)

    def item_load(self, it, st, recv, key, node):
        return (st, self.slot(st)) if self.is_table(recv) else None

    def item_store(self, it, st, recv, key, value, node):
        if self.is_table(recv):
            st = st.copy()
            st.heap[(('slot',), 'v')] = value
        return st

    def item_del(self, it, st, recv, key, node):
        if self.is_table(recv):
            st = st.copy()
            st.heap[(('slot',), 'v')] = NONE
        return st

    def contains(self, it, st, item, coll):
        return self.slot(st) != NONE if self.is_table(coll) else None

    def lookup_exc(self, it, st, recv, key, node):
        return None

    def exceptions(self, it, st, ci):
        return ()


def levels_of(proj):
    m = proj.modules['nxt.nxt_log']
    out = {}
    for k in ('EXECINFO',):
        out[k] = proj.const_of(('gvar', m.name, k))
    return m, out


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    m, lv = levels_of(proj)
    f = proj.func('nxt_log.set_verbosity')
    key = ('mod:' + m.name, 'verbose_handler')
    made = 0
    for prior, plevel in ((None, None), (OLD, 0), (OLD, lv['EXECINFO'])):
        for level in (0, 1, 2, '0', '1', '2'):
            c = Log(proj)
            it = Interp(proj, c, None)
            it.interesting = {q for q in proj.funcs
                              if q.startswith(m.name + '.')}
            st = State(rs=(frozenset([OLD] if prior else []),
                           frozenset([(OLD, plevel)] if prior else []),
                           frozenset()))
            st.env[key] = val(OLD) if prior else NONE
            rets, raises = it.run(f, st, {f.params[0]: const(level)})
            ctx.analysed(it.inlined)
            made += c.n
            what = '%s after %s' % (level, 'nothing' if not prior else
                                    'everything' if not plevel else '1')
            ctx.obligation('%s: %s' % (f.where, what))
            if not rets:
                ctx.violation('%s:%s:raises' % (f.where, level), f,
                              'verbosity %s can not be set' % level)
            for s, v in rets:
                on, levels, _ = s.rs
                want = {0: None, 1: lv['EXECINFO'], 2: 0}[int(level)]
                got = {l for h, l in levels if h in on}
                if want is None and on:
                    bad = 'messages are still output'
                elif want is not None and len(on) != 1:
                    bad = 'messages are output %d times' % len(on)
                elif want is not None and got != {want}:
                    bad = 'the level in force is %s' % ', '.join(map(str, got))
                elif s.env.get(key) != (val(*on) if on else NONE):
                    bad = 'the handler in force is not the one remembered'
                elif on and v != val(*on):
                    bad = 'the handler in force is not returned'
                else:
                    continue
                ctx.violation('%s:%s' % (f.where, what), f,
                              'verbosity %s: %s' % (what, bad))
    ctx.count('changes to the handlers seen', made, 4)
    # session logs
    mk, stop = proj.func('nxt_log.make_session_log'), \
        proj.func('nxt_log.stop_session_log')
    name = val(('p', 'some file'))
    for f, prior in ((mk, None), (mk, OLDLOG), (stop, OLDLOG), (stop, None)):
        c = Log(proj, prior)
        it = Interp(proj, c, None)
        it.interesting = {mk.qual, stop.qual}
        st = State(rs=(frozenset([prior] if prior else []),
                       frozenset([(prior, 0)] if prior else []), frozenset()))
        st.facts[('t', ('p', 'some file'))] = True
        rets, raises = it.run(f, st, {f.params[0]: name})
        ctx.analysed(it.inlined)
        ctx.obligation('%s: with%s an open log for the file'
                       % (f.where, '' if prior else 'out'))
        if not rets:
            raise AnalysisBroken('%s does not return' % f.where)
        for s, v in rets:
            on, _, closed = s.rs
            slot = c.slot(s)
            k = f.where + (':again' if prior else '')
            if f is mk:
                if len(on) != 1:
                    ctx.violation(k, f, 'messages are logged %d times to the '
                                  'session log' % len(on))
                elif slot != val(*on):
                    ctx.violation(k, f, 'the handler of the session log is not '
                                  'remembered, so it can not be stopped')
                elif prior in on and prior in closed:
                    ctx.violation(k, f, 'logs to a closed handler')
            elif prior:
                if on:
                    ctx.violation(k, f, 'messages are still logged to the '
                                  'stopped session log')
                elif slot != NONE:
                    ctx.violation(k, f, 'the stopped handler is kept')
                elif prior not in closed:
                    ctx.violation(k, f, 'the stopped handler is not closed')
    # each level's method logs at that level
    cls = [c for c in proj.classes.values() if c.module is m and
           'addLevelName' in ast.dump(c.node)]
    n = 0
    for c in cls:
        for nm, f in sorted(c.methods.items()):
            want = nm.upper()
            if want not in m.assigns:
                continue
            n += 1
            want = proj.const_of(('gvar', m.name, want))
            it = Interp(proj, Level(want), None)
            rets, raises = it.run(f, State(rs=(None, None)))
            ctx.obligation('%s: logs at its level' % f.where)
            seen = set()
            for s, _ in rets:
                on, at = s.rs
                seen.add((on, at))
            if seen != {(True, want), (False, None)}:
                ctx.violation('%s' % f.where, f, 'does not log exactly when '
                              'its level is enabled, at its level')
    ctx.count('level methods', n, 5)


class Level(Client):
    """State: (is the level enabled, level logged at)."""

    def __init__(self, want):
        self.want = want

    def on_call(self, it, st, ci):
        last = ci.name.split('.')[-1]
        on, at = st.rs
        c = consts_of(ci.args[0]) if ci.args else None
        if last == 'isEnabledFor':
            if not c or c[0] != self.want:
                return [(st, val(('top',)))]
            return [(st.with_rs((b, at)), const(b)) for b in (True, False)]
        if last == '_log' or last == 'log':
            return [(st.with_rs((on, c[0] if c else '?')), NONE)]
        return None

    def exceptions(self, it, st, ci):
        return ()


RULE = Rule('C20', run, 'interpretation of every change of the log handlers from '
            'every state they can be in')
