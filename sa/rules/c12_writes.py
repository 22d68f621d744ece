"""C12: only saving writes to files."""
import ast

from ..core import Rule
from ..interp import Interp, Client, State, NONE, val
from ..project import own_walk, dotted

# what a call changes outside of the process' own memory
FILES = {'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.renames',
         'os.mkdir', 'os.makedirs', 'os.rmdir', 'os.removedirs', 'os.chmod',
         'os.chown', 'os.symlink', 'os.link', 'os.truncate', 'os.utime',
         'os.mkfifo', 'os.open', 'os.write', 'shelve.open', 'dbm.open',
         'sqlite3.connect'}
FILE_MODULES = ('shutil.', 'tempfile.mk', 'tempfile.Named', 'tempfile.Temp',
                'tempfile.Spooled', 'zipfile.', 'tarfile.')
NOT_WRITES = {'shutil.which', 'shutil.get_terminal_size', 'shutil.disk_usage'}
PROCESSES = ('subprocess.', 'multiprocessing.', 'os.system', 'os.popen',
             'os.spawn', 'os.exec', 'os.fork', 'os.kill')
PATHLIB = {'write_text', 'write_bytes', 'unlink', 'rmdir', 'touch', 'mkdir',
           'symlink_to'}
OPENS = {'open', 'io.open', 'codecs.open', 'gzip.open', 'bz2.open',
         'lzma.open'}
MUTATE = {'pop', 'update', 'setdefault', 'clear', 'popitem'}
PURE = {'subprocess.list2cmdline'}
LOGS = {'logging.FileHandler', 'logging.handlers.RotatingFileHandler',
        'logging.handlers.TimedRotatingFileHandler'}

# the operations that are there to write, and what they may change
SAVE = {'file'}
RUN = {'file', 'process', 'environment'}
WRITERS = {
    'nxt_io.save_file_data': SAVE, 'nxt_io.generate_temp_file': SAVE,
    'nxt_io.generate_temp_dir': SAVE,
    'nxt_layer.SpecLayer.save': SAVE, 'nxt_layer.CacheLayer.save': SAVE,
    'stage.Stage.save_to_temp': SAVE, 'stage.Stage.new_sublayer': SAVE,
    'session.Session.save_file': SAVE, 'session.Session.save_layer': SAVE,
    'legacy.cli_file_convert': SAVE, 'cli.convert': SAVE,
    'create_context': SAVE,
    # the log of a session
    'nxt_log.track_log_file': SAVE, 'nxt_log.make_session_log': SAVE,
    'nxt_log.get_new_session_log_filename': SAVE,
    'session.Session.__init__': SAVE,
    # execution in another process
    'cli.main': RUN, 'cli.editor': RUN, 'cli.execute': RUN,
    'execute_graph': RUN,
    'session.Session.execute_graph': RUN,
    'session.Session.execute_nodes': RUN,
    'session.Session.start_rpc_if_needed': RUN,
    'session.Session._start_rpc_server': RUN,
    'session.Session.shutdown_rpc_server': RUN,
    'session.RPCServerProcess.start': RUN,
    'session.RPCServerProcess.run': RUN,
    'session.RPCServerProcess._start_process': RUN,
    'session.RPCServerProcess.terminate': RUN,
    'remote.server.ServerFunctions.exec_in_headless': RUN,
    'remote.server.ServerFunctions.kill': SAVE,
    'remote.server.secure_address': SAVE, 'remote.server.run_server': SAVE,
    'remote.nxt_socket.SocketClientModel._run': RUN,
    'remote.nxt_socket.SocketClientModel.run': RUN,
    'remote.nxt_socket.SocketClientModel.get_cache': SAVE,
}


def is_environ(proj, f, n):
    d = dotted(n)
    r = proj.lookup(f.module, d) if d else None
    return bool(r and r[0] == 'ext' and r[1] == 'os.environ')


def effects(proj, f):
    """(kind, what, node) of everything `f` itself changes outside."""
    for n in own_walk(f.node):
        if isinstance(n, ast.Call):
            d = dotted(n.func)
            r = proj.lookup(f.module, d) if d and \
                d.split('.')[0] not in f.locals else None
            name = r[1] if r and r[0] == 'ext' else \
                d if d and d not in f.locals and r is None and \
                '.' not in d else None
            if name in PURE or name in NOT_WRITES:
                continue
            if name in OPENS:
                modes = [k.value for k in n.keywords if k.arg == 'mode'] + \
                    n.args[1:2]
                m = modes[0] if modes else None
                if m is not None and not (
                        isinstance(m, ast.Constant) and
                        isinstance(m.value, str) and
                        not set(m.value) & set('wax+')):
                    yield 'file', 'opens a file for writing', n
            elif name and (name in FILES or name in LOGS or
                           name.startswith(FILE_MODULES)):
                yield 'file', 'calls ' + name, n
            elif name and name.startswith(PROCESSES):
                yield 'process', 'calls ' + name, n
            elif name in ('os.putenv', 'os.unsetenv'):
                yield 'environment', 'calls ' + name, n
            elif name is None and isinstance(n.func, ast.Attribute):
                if n.func.attr in PATHLIB and not proj.by_name.get(
                        n.func.attr):
                    yield 'file', 'calls ' + n.func.attr, n
                elif n.func.attr in MUTATE and is_environ(proj, f,
                                                          n.func.value):
                    yield 'environment', 'changes os.environ', n
            elif name and name.startswith('os.environ.') and \
                    name.split('.')[-1] in MUTATE:
                yield 'environment', 'changes os.environ', n
        elif isinstance(n, ast.Subscript) and isinstance(
                n.ctx, (ast.Store, ast.Del)) and is_environ(proj, f, n.value):
            yield 'environment', 'changes os.environ', n


BARE = ('s', 'file name')
PATH = ('s', 'path of the original')
PATHS = {'real_path', 'filepath', '_filepath', 'sub_layer_paths', 'alias'}


class Where(Client):
    """Which file is written, in terms of the operation's arguments."""
    small = 12

    def __init__(self, writers):
        self.writers, self.seen = writers, []

    def on_call(self, it, st, ci):
        for g in ci.targets or ():
            if g.qual in self.writers:
                self.seen.append((it.stack[-1][0], ci.node, dict(
                    self.named(g, ci))))
                return [(st, val(('r', g.name, frozenset(), (),
                                  ci.node.lineno)))]
        if ci.name.split('.')[-1] == 'basename':
            return [(st, val(BARE))]
        if ci.name == 'os.path.split':
            return [(st, val(('T', (ci.args[0], val(BARE)))))]
        if ci.name.split('.')[-1] == 'get_alias':
            return [(st, val(PATH))]
        return None

    def attr_load(self, it, st, recv, attr, node):
        return (st, val(PATH)) if attr in PATHS else None

    def named(self, g, ci):
        ps = [p for p in g.params if p != 'self']
        for p, a in zip(ps, ci.args):
            yield p, a
        for k, a in ci.kw.items():
            yield k, a

    def exceptions(self, it, st, ci):
        return ()


def parts(t, out=None):
    out = set() if out is None else out
    if isinstance(t, (tuple, frozenset)):
        if isinstance(t, tuple) and t and isinstance(t[0], str):
            out.add(t)
        for x in t:
            parts(x, out)
    return out


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    funcs = {q: f for q, f in proj.funcs.items()
             if '.test.' not in '.%s.' % f.module.name}
    allowed = {}
    for w, kinds in WRITERS.items():
        q = 'nxt.' + w
        if q in funcs:
            allowed[q] = kinds
    ctx.count('operations that are there to write', len(allowed), 20)
    # a function only those call is part of them
    while True:
        grown = False
        for q in funcs:
            if q in allowed:
                continue
            callers = {c for c in cg.rev.get(q, ()) if c in funcs and c != q}
            if callers and all(c in allowed for c in callers):
                allowed[q] = set.intersection(*(set(allowed[c])
                                                for c in callers))
                grown = True
        if not grown:
            break
    sinks, n = {}, 0
    for q, f in funcs.items():
        es = list(effects(proj, f))
        if es:
            sinks[q] = es
            n += len(es)
    ctx.count('places that change files, processes or the environment', n, 15)
    for q in sorted(funcs):
        f = funcs[q]
        ok = allowed.get(q, set())
        ctx.analysed([q])
        seen = cg.reachable([q])
        hit = None
        for g in seen:
            for kind, what, node in sinks.get(g, ()):
                if kind in ok:
                    continue
                path = cg.path(seen, g)
                # reported where it enters: by the deepest function that may
                # not
                inner = [x for x in path[1:] if kind not in
                         allowed.get(x, set())]
                if inner:
                    continue
                hit = (kind, what, node, g, path)
                break
            if hit:
                break
        if hit:
            kind, what, node, g, path = hit
            ctx.violation('%s:%s' % (f.where, what), f, '%s (%s), and is not an '
                          'operation that is there to change %s' % (
                              what, ' -> '.join(x.split('.')[-1]
                                                for x in path),
                              {'file': 'files', 'process': 'processes',
                               'environment': 'the environment'}[kind]),
                          node if g == q else None,
                          path=path)
    ctx.obligation('%d operations reach nothing that changes files, starts '
                   'processes or changes the environment' % (
                       len(funcs) - len(allowed)))
    # a copy is written where it was asked to be
    writers = {'nxt.nxt_io.save_file_data'}
    f = proj.func('stage.Stage.save_to_temp')
    c = Where(writers)
    it = Interp(proj, c, None)
    it.run(f, State())
    ctx.analysed(it.inlined)

    for g, node, args in c.seen:
        p = args.get('filepath', frozenset())
        ctx.obligation('%s: the copy is written in the directory asked for'
                       % f.where)
        if not p or PATH in parts(p):
            ctx.violation('%s:outside' % f.where, g, 'the copy may be written '
                          'outside of the directory asked for', node)
    ctx.count('copies written', len(c.seen), 1)
    # what is counted alongside a loop is counted in each of its rounds
    for q, g in sorted(funcs.items()):
        for loop in own_walk(g.node):
            if isinstance(loop, ast.For):
                for name, bad in counters(loop):
                    ctx.obligation('%s: `%s` counts every round' % (
                        g.where, name))
                    if bad:
                        ctx.violation('%s:%s' % (g.where, name), g, '`%s` is '
                                      'the position in what is looped over, '
                                      'but not counted in a round that is cut '
                                      'short' % name, bad)


def counters(loop):
    """Names that index what the loop goes over and are counted up by hand at
    the end of its body; with the `continue` that skips that."""
    if not isinstance(loop.iter, ast.Name):
        return
    seq = loop.iter.id
    steps = [s for s in loop.body if isinstance(s, ast.AugAssign) and
             isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and
             isinstance(s.value, ast.Constant) and s.value.value == 1]
    for s in steps:
        name = s.target.id
        used = any(isinstance(x, ast.Subscript) and
                   isinstance(x.value, ast.Name) and x.value.id == seq and
                   isinstance(x.slice, ast.Name) and x.slice.id == name
                   for b in loop.body for x in ast.walk(b))
        if not used:
            continue
        early = [x for b in loop.body[:loop.body.index(s)]
                 for x in continues(b)]
        yield name, (early[0] if early else None)


def continues(s):
    if isinstance(s, ast.Continue):
        return [s]
    if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
        return []
    return [x for c in ast.iter_child_nodes(s) for x in continues(c)]


RULE = Rule('C12', run, 'effect reachability over the call graph from every '
            'operation')
