"""C08: an rpc server started for an execution ends with it."""
import ast

from ..core import Rule
from ..interp import Interp, Client, State, NONE, const, val, consts_of
from ..project import AnalysisBroken, own_walk, dotted

SERVER, CHILD, HANDLE = ('R', 1, 'server'), ('R', 1, 'child'), ('R', 1, 'log')
ENDING = ('terminate', 'kill')


class Sessions(Client):
    """State: a server of ours is alive."""
    small = 14
    exact_exc = True

    def __init__(self, start, running):
        self.start, self.running = start, running
        self.starts = self.ends = 0
        self.skip = set()

    def never_inline(self, f):
        return f.qual == self.start or f.qual in self.skip

    def on_call(self, it, st, ci):
        if any(f.qual == self.start for f in ci.targets or ()):
            self.starts += 1
            it.raise_(st, 'OSError')
            none = (st, NONE)
            return [none] if st.rs else [none, (st.with_rs(True), val(SERVER))]
        if ci.recv is not None and SERVER in ci.recv and \
                ci.name.split('.')[-1] in ENDING:
            self.ends += 1
            it.raise_(st.with_rs(False), '*')
            return [(st.with_rs(False), NONE)]
        return None


class Process(Client):
    """State: (child runs, log open, log socket up, environment keys that are
    not what they were, the server answered when last asked)."""
    small = 14
    exact_exc = True

    def __init__(self, proj, env_set, up, down, alive, answers):
        self.proj, self.env_set, self.up, self.down = proj, env_set, up, down
        self.alive, self.answers = alive, answers
        self.spawned = self.opened = self.envs = 0
        self.paths = {}

    def never_inline(self, f):
        return f.qual in (self.up, self.down) or f.qual in self.alive

    def is_environ(self, v):
        return any(t[0] in ('ext', 'a', 'g') and 'environ' in str(t[-1])
                   for t in v)

    def put(self, st, i, x):
        r = list(st.rs)
        r[i] = x
        return st.with_rs(tuple(r))

    def was(self, key):
        if not self.env_set:
            return NONE
        return const('' if self.env_set == 'empty' else
                     'value of %s before' % (key,))

    def name_of(self, v):
        c = consts_of(v)
        return c[0] if c and len(c) == 1 else '?'

    def env_read(self, st, key, default=NONE):
        k = self.name_of(key)
        if k in st.rs[3]:
            return val(('now', k))
        return self.was(k) if self.env_set else default

    def env_write(self, st, key, value):
        k = self.name_of(key)
        self.envs += 1
        keep = st.rs[3] - {k}
        if self.env_set and value == self.was(k):
            return self.put(st, 3, keep)
        return self.put(st, 3, keep | {k})

    def env_drop(self, st, key):
        k = self.name_of(key)
        keep = st.rs[3] - {k}
        return self.put(st, 3, keep | {k} if self.env_set else keep)

    def on_call(self, it, st, ci):
        tq = {f.qual for f in ci.targets or ()}
        last = ci.name.split('.')[-1]
        if self.up in tq:
            it.raise_(st, 'OSError')
            return [(self.put(st, 2, True), NONE)]
        if self.down in tq:
            return [(self.put(st, 2, False), NONE)]
        if self.answers in tq:
            return [(self.put(st, 4, b), const(b)) for b in (False, True)]
        if tq & self.alive:
            return [(st, val(('top',)))]
        if last == 'Popen':
            self.spawned += 1
            it.raise_(st, 'OSError')
            return [(self.put(st, 0, True), val(CHILD))]
        if ci.name == 'open' or last == 'open' and ci.recv is None:
            self.opened += 1
            it.raise_(st, 'OSError')
            return [(self.put(st, 1, True), val(HANDLE))]
        if ci.name == 'time.sleep':
            it.raise_(st, 'KeyboardInterrupt')
            return [(st, NONE)]
        if ci.recv is not None and CHILD in ci.recv:
            if last in ENDING:
                return [(self.put(st, 0, False), NONE)]
            return [(st, val(('top',)))]
        if ci.recv is not None and HANDLE in ci.recv:
            return [(self.put(st, 1, False) if last == 'close' else st, NONE)]
        if 'environ' in ci.name or (ci.recv is not None and
                                    self.is_environ(ci.recv)):
            if last in ('get', 'getenv') and ci.args:
                return [(st, self.env_read(st, ci.args[0],
                                           ci.arg(1, None, NONE)))]
            if last == 'pop' and ci.args:
                old = self.env_read(st, ci.args[0], ci.arg(1, None, NONE))
                return [(self.env_drop(st, ci.args[0]), old)]
            if last == 'setdefault' and len(ci.args) > 1:
                if self.env_set:
                    return [(st, self.was(self.name_of(ci.args[0])))]
                return [(self.env_write(st, ci.args[0], ci.args[1]),
                         ci.args[1])]
            if last in ('update', 'clear'):
                return [(self.put(st, 3, st.rs[3] | {'?'}), NONE)]
        if ci.name == 'os.getenv' and ci.args:
            return [(st, self.env_read(st, ci.args[0], ci.arg(1, None, NONE)))]
        return None

    def item_load(self, it, st, recv, key, node):
        if self.is_environ(recv):
            if self.lookup_exc(it, st, recv, key, node):
                it.raise_(st, 'KeyError')
                return []
            return st, self.env_read(st, key)
        return None

    def item_store(self, it, st, recv, key, value, node):
        return self.env_write(st, key, value) if self.is_environ(recv) else st

    def item_del(self, it, st, recv, key, node):
        return self.env_drop(st, key) if self.is_environ(recv) else st

    def lookup_exc(self, it, st, recv, key, node):
        if self.is_environ(recv):
            gone = not self.env_set and self.name_of(key) not in st.rs[3]
            return 'KeyError' if gone else None
        return 'LookupError'

    def contains(self, it, st, item, coll):
        if self.is_environ(coll):
            return bool(self.env_set) or self.name_of(item) in st.rs[3]
        return None

    def with_exit(self, it, st, ctx, node, exc):
        return self.put(st, 1, False) if HANDLE in ctx else st

    def exceptions(self, it, st, ci):
        return ()


class Ending(Process):
    """Terminating: the server is told, or refuses to be told."""
    told, refuses = 0, True

    def on_call(self, it, st, ci):
        last = ci.name.split('.')[-1]
        if last == 'kill' and not (ci.recv is not None and CHILD in ci.recv):
            self.told += 1
            if self.refuses:
                it.raise_(st, 'ConnectionRefusedError')
                return []
            return [(self.put(st, 0, False), NONE)]
        if last == 'NxtClient':
            return [(st, val(('R', 1, 'proxy')))]
        return Process.on_call(self, it, st, ci)


class Starting(Client):
    """State: how often the process was run."""
    exact_exc = True

    def __init__(self, run, answers, ran):
        self.run, self.answers, self.ran = run, answers, ran

    def never_inline(self, f):
        return f.qual in (self.run, self.answers)

    def on_call(self, it, st, ci):
        tq = {f.qual for f in ci.targets or ()}
        if self.run in tq or ci.name == 'run':
            return [(st.with_rs(1), const(self.ran))]
        if self.answers in tq or ci.name == 'is_running':
            return [(st, const(True))]
        return None

    def exceptions(self, it, st, ci):
        return ()


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    start = proj.func('RPCServerProcess.start').qual
    prun = proj.func('RPCServerProcess.run')
    up = proj.func('nxt_log.startup_log_socket').qual
    down = proj.func('nxt_log.shutdown_log_socket').qual
    answers = proj.func('RPCServerProcess.is_running').qual
    alive = {answers, proj.func('RPCServerProcess.is_port_available').qual}
    # sessions
    starts = ends = 0
    users = cg.callers_closure({start})
    roots = [f for f in proj.funcs.values() if f.qual in users and
             f.cls is not None and f.cls.name == 'Session' and
             any(proj.funcs[q].name == 'shutdown_rpc_server'
                 for q in cg.edges.get(f.qual, ()) if q in proj.funcs)]
    need = {proj.func('Session.execute_graph').qual,
            proj.func('Session.execute_nodes').qual}
    for q in sorted(need | {f.qual for f in roots}):
        f = proj.funcs[q]
        c = Sessions(start, False)
        it = Interp(proj, c, None)
        it.interesting = users | {proj.func('Session.shutdown_rpc_server').qual}
        rets, raises = it.run(f, State(rs=False))
        ctx.analysed(it.inlined)
        starts += c.starts
        ends += c.ends
        exits = [('returns', s) for s, _ in rets] + \
            [('raises ' + e, s) for e, s in raises]
        ctx.obligation('%s: on %d ways out no server started on the way is '
                       'left running' % (f.where, len(exits)))
        for how, s in exits:
            if s.rs:
                ctx.violation('%s:left-running' % f.where, f,
                              '%s with the rpc server it started still running'
                              % how)
    ctx.count('starts of the server interpreted', starts, 2)
    ctx.count('shutdowns of the server interpreted', ends, 2)
    # a start that finds the server running keeps the one that is owned
    f = proj.func('Session._start_rpc_server')
    c = Sessions(start, True)
    it = Interp(proj, c, None)
    it.interesting = users
    me = ('self', f.cls.qual)
    st = State(rs=True)
    st.heap[(me, 'rpc_server')] = val(SERVER)
    rets, raises = it.run(f, st)
    for s, _ in rets:
        got = s.heap.get((me, 'rpc_server'), val(SERVER))
        if got != val(SERVER):
            ctx.violation('%s:disowned' % f.where, f, 'a start that finds the '
                          'server running forgets the server the session owns')
    ctx.obligation('%s: keeps the server the session owns' % f.where)
    # the process
    spawned = 0
    for env_set in (None, 'empty', 'set'):
        c = Process(proj, env_set, up, down, alive, answers)
        it = Interp(proj, c, None)
        it.interesting = {q for q in cg.reachable([prun.qual])
                          if 'RPCServerProcess' in q}
        rets, raises = it.run(prun, State(rs=(False, False, False,
                                              frozenset(), False)))
        ctx.analysed(it.inlined)
        spawned += c.spawned
        for s, v in rets:
            if s.rs[0] and not s.rs[4]:
                ctx.violation('%s:unanswered' % prun.where, prun, 'returns '
                              'with a server process that never answered')
        exits = [('returns', s) for s, _ in rets] + \
            [('raises ' + e, s) for e, s in raises]
        ctx.obligation('%s: %d ways out leave the environment as it was, the '
                       'log handle closed and, when it fails, no child'
                       % (prun.where, len(exits)))
        for how, s in exits:
            child, handle, sock, env, answered = s.rs
            fails = how != 'returns'
            if env:
                ctx.violation('%s:environment' % prun.where, prun,
                              '%s with the environment variable %s changed%s'
                              % (how, ', '.join(sorted(map(str, env))),
                                 '' if env_set else ' (it was not set)'))
            if handle:
                ctx.violation('%s:handle' % prun.where, prun, '%s with the log '
                              'file still open in this process' % how)
            if fails and child:
                ctx.violation('%s:child' % prun.where, prun, '%s with the '
                              'server process it started still running' % how)
            if fails and sock:
                ctx.violation('%s:socket' % prun.where, prun, '%s with the log '
                              'socket still up' % how)
    ctx.count('server processes spawned', spawned, 2)
    # only a server this start made is handed out
    f = proj.func(start)
    for ran in (False, True):
        c = Starting(prun.qual, answers, ran)
        it = Interp(proj, c, None)
        rets, raises = it.run(f, State(rs=0))
        got = [v for s, v in rets if s.rs]
        if not got:
            raise AnalysisBroken('start does not run a server')
        ctx.obligation('%s: hands out the server exactly when it was started '
                       '(%s)' % (f.where, ran))
        for v in got:
            none = any(t[0] == 'c' for t in v)
            if ran == none:
                ctx.violation('%s:handed-out' % f.where, f, 'answers a server '
                              'that was already running as its own' if not ran
                              else 'does not answer the server it started')
    # ending it
    f = proj.func('RPCServerProcess.terminate')
    me = ('self', f.cls.qual)
    for refuses in (True, False):
        c = Ending(proj, None, up, down, alive, answers)
        c.refuses = refuses
        it = Interp(proj, c, None)
        it.interesting = {q for q in cg.reachable([f.qual])
                          if 'RPCServerProcess' in q}
        st = State(rs=(True, False, True, frozenset(), False))
        st.heap[(me, 'terminal')] = val(CHILD)
        rets, raises = it.run(f, st)
        ctx.analysed(it.inlined)
        if not c.told:
            raise AnalysisBroken('terminate does not tell the server to end')
        ctx.obligation('%s: %d ways out after the server %s end its process '
                       'and the log socket'
                       % (f.where, len(rets) + len(raises),
                          'refused' if refuses else 'was told'))
        for s, _ in rets:
            if s.rs[0]:
                ctx.violation('%s:child' % f.where, f, 'returns with the '
                              'server process running when the server %s'
                              % ('refuses to be told' if refuses else
                                 'was told to end'))
            if s.rs[2]:
                ctx.violation('%s:socket' % f.where, f, 'returns with the log '
                              'socket still up')


RULE = Rule('C08', run, 'typestate of the server process, its log handle, the '
            'log socket and the environment over every way out')
