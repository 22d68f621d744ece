"""C33: a save or load that returns has been done; one that failed raises."""
import ast

from ..core import Rule
from ..interp import Interp, Client, State, val, consts_of
from ..project import own_walk, dotted
from .c05_save import ext_name, write_mode

NO, FAILED, LOST, DONE = 'not done', 'failed', 'lost', 'done'
# what must have been done on every normal return
SAVES = ('nxt_io.save_file_data', 'SpecLayer.save', 'CacheLayer.save',
         'Session.save_layer', 'legacy.cli_file_convert',
         'SocketClientModel.get_cache')
LOADS = ('nxt_io.load_file_data', 'SpecLayer.load_from_filepath',
         'Session.load_file')
# what answers with true where it was done
TRUE_SAVES = ('Session.save_file',)
# what has not failed when it returns
PART_SAVES = ('Stage.save_to_temp', 'nxt.create_context')
PART_LOADS = ('Session.get_stage',)
OPENS = ('open', 'io.open', 'codecs.open', 'os.fdopen',
         'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile')
ENCODES = ('json.dumps', 'pickle.dumps', 'cPickle.dumps')
INTO = ('json.dump', 'pickle.dump', 'cPickle.dump')
READS = ('json.load', 'pickle.load', 'cPickle.load')
MOVES = ('os.replace', 'os.rename', 'shutil.move', 'shutil.copy',
         'shutil.copyfile', 'shutil.copy2')
# calls a handle is given to: those that give it back, those that do not write
WRAPPERS = ('closing', 'TextIOWrapper', 'BufferedWriter', 'enter_context',
            'getwriter', 'suppress')
HANDLE_ONLY = ('append', 'isinstance', 'hasattr', 'getattr', 'id', 'repr', 'str',
               'format', 'debug', 'info', 'warning', 'error', 'callback', 'fsync')


class Done(Client):
    """rule state: what came of it so far"""
    small = 14

    def __init__(self, load, opaque=(), several=False):
        self.load, self.opaque = load, set(opaque)
        self.several = several      # writes more than one file
        self.seen = set()
        self.loops = {}

    def never_inline(self, f):
        return f.qual in self.opaque

    def fail(self, it, st, *excs, how=LOST):
        for e in excs:
            it.raise_(st.with_rs(how), e)

    def done(self, st):
        # another file that is written does not make up for the one that is not
        return st if self.several and st.rs == LOST else st.with_rs(DONE)

    def in_loop(self, f):
        """Is what `f` opens written piece by piece?"""
        if f.qual not in self.loops:
            self.loops[f.qual] = any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                and n.func.attr in ('write', 'writelines')
                for l in own_walk(f.node)
                if isinstance(l, (ast.For, ast.While)) for n in ast.walk(l))
        return self.loops[f.qual]

    def here(self, ci):
        self.seen.add((ci.func.qual, ci.node.lineno))

    def on_call(self, it, st, ci):
        n, some = ci.name, val(('r', 'some'))
        what = n.split('.')[-1] if n else ''
        if n in OPENS:
            mode = ci.arg(1 if n in ('open', 'io.open', 'codecs.open',
                                     'os.fdopen') else 0, 'mode')
            cs = consts_of(mode) if mode is not None else {'r'}
            self.here(ci)
            self.fail(it, st, 'OSError')
            w = cs is None or any(write_mode(c) for c in cs) or \
                n.startswith('tempfile')
            if w and not self.load and self.in_loop(ci.func):
                st = self.done(st)      # no pieces: an empty file
            return [(st, val(('handle',) if w else ('source',)))]
        if n in ENCODES and not self.load:
            self.fail(it, st, 'TypeError', 'ValueError', how=FAILED)
            return [(st, some)]
        if n in INTO and not self.load:
            self.here(ci)
            self.fail(it, st, 'TypeError', 'ValueError', 'OSError')
            return [(self.done(st), val(('c', None)))]
        if n in READS or n in ('json.loads', 'pickle.loads'):
            if not self.load:
                return None
            self.here(ci)
            self.fail(it, st, 'ValueError', 'OSError')
            return [(self.done(st), some)]
        if n in MOVES and not self.load:
            self.fail(it, st, 'OSError')
            return [(st, some)]
        if what in ('write', 'writelines') and ci.recv is not None and \
                ('handle',) in ci.recv and not self.load:
            self.here(ci)
            self.fail(it, st, 'OSError', 'ValueError')
            return [(self.done(st), val(('c', None)))]
        if what == 'read' and ci.recv is not None and ('source',) in ci.recv:
            self.fail(it, st, 'OSError', 'ValueError')
            return [(st, some)]
        if not ci.targets and not self.load and what not in HANDLE_ONLY and any(
                ('handle',) in v for v in list(ci.args) + list(ci.kw.values())
                if v):
            # print(..., file=f), copyfileobj(.., f); closing(f) is f again
            if what in WRAPPERS:
                return [(st, val(('handle',)))]
            self.here(ci)
            self.fail(it, st, 'OSError', 'ValueError')
            return [(self.done(st), some)]
        if what in ('write_text', 'write_bytes') and not self.load and \
                not ci.targets:
            self.here(ci)
            self.fail(it, st, 'OSError', 'ValueError')
            return [(self.done(st), some)]
        return None


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    names = set(OPENS + ENCODES + INTO + READS + MOVES +
                ('json.loads', 'pickle.loads'))
    events = {f.qual for f in proj.funcs.values() if any(
        ext_name(proj, f, n) in names or isinstance(n, ast.Call) and
        isinstance(n.func, ast.Attribute) and n.func.attr in
        ('write_text', 'write_bytes', 'writelines') for n in own_walk(f.node))}
    # building from what was read has a rule of its own for missing references
    opaque = [proj.func(x).qual for x in ('Stage.__init__',
                                          'nxt_socket.send_to_server')]
    todo = [(x, False, 'must') for x in SAVES] + \
        [(x, True, 'must') for x in LOADS] + \
        [(x, False, 'true') for x in TRUE_SAVES] + \
        [(x, False, 'part') for x in PART_SAVES] + \
        [(x, True, 'part') for x in PART_LOADS]
    sites, exits = set(), 0
    for x, load, kind in todo:
        f = proj.func(x)
        c = Done(load, opaque, kind == 'part')
        it = Interp(proj, c, None)
        it.interesting = cg.callers_closure(events) - set(opaque)
        rets, _ = it.run(f, State(rs=NO))
        ctx.analysed(it.inlined)
        sites |= c.seen
        exits += len(rets)
        word = 'read' if load else 'written'
        ctx.obligation('%s: %s on %s of %d normal returns' % (
            f.where, word, {'must': 'each', 'true': 'each true one',
                            'part': 'each that followed a failure'}[kind],
            len(rets)))
        bad = {}
        for st, v in rets:
            if st.rs == DONE:
                continue
            if st.rs in (FAILED, LOST):
                bad['failed'] = 'returns although the file could not be %s: ' \
                    'the failure is swallowed' % word
            elif kind == 'must':
                bad['skipped'] = 'has a way to return on which nothing is %s' \
                    % word
            elif kind == 'true':
                cs = consts_of(v)
                if cs is None or any(cs):
                    bad['claimed'] = 'has a way to answer that it is done on ' \
                        'which nothing is %s' % word
        for k, msg in sorted(bad.items()):
            ctx.violation('%s:%s' % (f.where, k), f, msg)
    ctx.count('places that read, encode or write', len(sites), 4)
    ctx.count('normal returns judged', exits, 8)


RULE = Rule('C33', run, 'typestate of a save or load (not done, failed, done) '
            'over every path, exceptional ones included')
