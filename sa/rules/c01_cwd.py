"""C01: the process working directory is the same on every exit."""
import ast

from ..interp import Interp, Client, State, val, NONE
from ..project import own_walk, dotted, AnalysisBroken
from ..core import Rule

# Process entry points whose purpose is to set up their own process.
PROCESS_ENTRY = ('remote.server.run_server',)
# The user-facing operations: each is checked on its own, whoever calls it.
API = ('nxt_path.full_file_expand', 'Stage.load_from_file', 'Stage.__init__',
       'Stage.load_from_filepath', 'nxt_io.load_file_data')
CHDIR = ('os.chdir', 'os.fchdir')
ENTRY = ('s', 'cwd-on-entry')


def is_chdir(proj, f, n):
    if not isinstance(n, ast.Call):
        return False
    d = dotted(n.func)
    if not d:
        return False
    r = proj.lookup(f.module, d)
    return r is not None and r[0] == 'ext' and r[1] in CHDIR


class Cwd(Client):
    """rule state: (current directory term, has it been changed yet)"""
    small = 10

    def __init__(self, inline):
        self.inline = inline      # functions whose net effect is not neutral
        self.sites = set()

    def setup(self, it):
        self.proj = it.proj

    def never_inline(self, f):
        return not (f.qual in self.inline or it_small(f))

    def on_call(self, it, st, ci):
        cwd, touched = st.rs
        if ci.name == 'os.getcwd':
            return [(st, val(cwd))]
        if ci.name in CHDIR:
            self.sites.add((ci.func.qual, ci.node.lineno, ci.node.col_offset))
            out = []
            for t in ci.args[0] if ci.args else val(('top',)):
                if t != cwd and t != ENTRY:
                    # going back to a directory the process was in is taken
                    # not to fail; going anywhere else may
                    it.raise_(st, 'OSError')
                out.append((st.with_rs((t, True)), NONE))
            return out
        return None


def it_small(f):
    return f.small_pure


def run(ctx):
    proj, cg = ctx.proj, ctx.cg
    skip = {proj.func(x).qual for x in PROCESS_ENTRY}
    direct = {f.qual for f in proj.funcs.values() if f.qual not in skip and
              any(is_chdir(proj, f, n) for n in own_walk(f.node))}
    users = {f.qual for f in proj.funcs.values() if
             any(isinstance(n, ast.Call) and dotted(n.func) == 'os.getcwd'
                 for n in own_walk(f.node))}
    closure = cg.callers_closure(direct)
    for f in proj.funcs.values():
        # short helpers that cannot reach a chdir are looked through for values
        f.small_pure = f.qual not in closure and len(list(own_walk(f.node))) < 60
    api = {proj.func(a).qual for a in API}
    todo = sorted(direct | (api & closure))
    inline, done, sites = set(), {}, set()
    judged = 0
    while todo:
        q = todo.pop(0)
        f = proj.funcs[q]
        if f.is_gen:
            bad, restores = True, False
            if not f.ctxmgr:
                ctx.violation('%s:generator' % f.where, f, 'changes the working '
                              'directory across a yield')
                continue
        else:
            c = Cwd(inline)
            it = Interp(proj, c, None)
            it.interesting = set(inline)
            rets, raises = it.run(f, State(rs=(ENTRY, False)))
            sites |= c.sites
            ctx.analysed(it.inlined)
            exits = [('normal-exit', 'returns', s) for s, _ in rets] + \
                [('exception-exit', 'an exception (%s) leaves' % e, s)
                 for e, s in raises]
            bad = [(k, m, s) for k, m, s in exits if s.rs[0] != ENTRY]
            restores = any(s.rs == (ENTRY, True) for s, _ in rets)
            ctx.obligation('every exit of %s (%d) restores the working directory'
                           % (f.where, len(exits)))
            if not bad:
                judged += 1
                continue
            callers = {x for x in cg.rev.get(q, ()) if x != q}
            if q in api or restores or not callers:
                judged += 1
                for k, m, s in bad:
                    ctx.violation('%s:%s' % (f.where, k), f,
                                  '%s with the working directory changed '
                                  '(left at %s)' % (m, show(s.rs[0])))
                continue
        # a helper whose job is to change the directory: its callers answer
        inline.add(q)
        for x in sorted(cg.rev.get(q, ())):
            if x != q and x not in skip and x not in todo:
                todo.append(x)
                inline.discard(x) if x not in direct else None
    ctx.count('functions that change the working directory', len(direct), 1)
    ctx.count('operations judged on every exit', judged, 2)
    ctx.count('chdir call sites interpreted', len(sites), 2)


def show(t):
    return repr(t)[:120]


RULE = Rule('C01', run,
            'typestate of the process working directory over the '
            'interprocedural control flow, exceptional edges included')
