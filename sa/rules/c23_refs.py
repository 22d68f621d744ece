"""C23: everything nxt's code refers to in nxt exists and accepts its call."""
import ast
import builtins
import collections
import functools
import importlib
import json
import logging
import os
import re
import string
import symtable
import types

from ..assigned import unassigned
from ..core import Rule
from ..pointsto import PointsTo
from ..project import dotted, BUILTIN_METHODS, own_walk

PY2 = {'basestring', 'unicode', 'long', 'xrange', 'raw_input', 'reload',
       'unichr', 'execfile', 'reduce', 'file', 'cmp', 'intern', 'WindowsError'}
MODULE_NAMES = {'__name__', '__file__', '__doc__', '__path__', '__package__',
                '__builtins__', '__spec__', '__loader__', '__dict__', '__class__'}
HANDLED = {'name': {'NameError', 'ImportError', 'ModuleNotFoundError'},
           'attr': {'AttributeError'},
           'import': {'ImportError', 'ModuleNotFoundError'},
           'call': {'TypeError'},
           'local': {'UnboundLocalError'}}
NODE_GLOBALS = {'self', 'STAGE', '__stage__', 'nxt_path', 'w', 'types',
                'execute', 'ExitNode', 'ExitGraph'}
TOKEN = re.compile(r'\$\{[^{}]*\}')


def stdlib_attrs(mods):
    """Attribute names of builtin types, of the modules nxt imports and of
    the classes in them (and in what those import from)."""
    import importlib
    out = set()
    for t in vars(builtins).values():
        out |= set(dir(t))
    extra = ['io', 'socket', 'subprocess', 'logging', 'logging.handlers',
             'threading', 'argparse', 'xmlrpc.client', 'xmlrpc.server',
             'socketserver', 'code', 'types', 'collections', 'datetime',
             'tempfile', 'pathlib', 'inspect', 're', 'traceback', 'codecs',
             'pickle', 'functools', 'itertools', 'contextlib', 'ast', 'queue',
             'struct', 'select', 'shutil', 'platform', 'time', 'copy', 'json',
             'os', 'os.path', 'sys', 'math', 'random', 'uuid', 'hashlib',
             'importlib', 'importlib.util', 'string', 'textwrap', 'warnings']
    for name in sorted(set(extra) | set(mods)):
        if name.split('.')[0] in ('nxt', 'nxt_editor', 'imp'):
            continue
        try:
            m = importlib.import_module(name)
        except Exception:
            continue
        for k, v in list(vars(m).items()):
            out.add(k)
            if isinstance(v, type):
                out |= set(dir(v))
    # instance attributes no class dictionary shows
    out |= {'returncode', 'stdin', 'stdout', 'stderr', 'pid', 'args',
            'message', 'strerror', 'errno', 'filename', 'lineno', 'offset',
            'text', 'msg', 'levelno', 'levelname', 'exc_info', 'exc_text',
            'name', 'handlers', 'formatter', 'stream', 'level', 'server',
            'request', 'connection', 'maxsize', 'sock', 'parent', 'args',
            'func', 'keywords', 'module', 'modules', 'links', 'created',
            'getMessage', 'lineno', 'pathname', 'funcName', 'im_func',
            'iteritems', 'itervalues', 'iterkeys', 'has_key', 'next', 'func_code',
            'find_module', 'load_module', 'load_source', 'PY_SOURCE',
            'register_instance', 'baseFilename', 'allow_reuse_address'}
    return out


PLAIN = {'str': str, 'int': int, 'float': float, 'bool': bool,
         'none': type(None), 'bytes': bytes}
MADE = {'list': (list, collections.deque), 'set': (set, frozenset),
        'dict': (dict, collections.OrderedDict, collections.defaultdict,
                 collections.Counter), 'tuple': (tuple,)}
OLD = {'decode', 'encode', 'has_key', 'iteritems', 'itervalues', 'iterkeys',
       'next'}


class Scope(object):
    """What a piece of code can see."""

    def __init__(self, module, func):
        self.module, self.func = module, func

    def is_local(self, name):
        g = self.func
        while g is not None:
            if name in g.locals or name in g.nested:
                return True
            g = g.parent
        return False


def python2(test):
    """Which branch of a version test only old interpreters take."""
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and \
            'version_info' in ast.dump(test.left):
        if isinstance(test.ops[0], (ast.Eq, ast.Lt, ast.LtE)):
            v = ast.unparse(test.comparators[0])
            return 'body' if isinstance(test.ops[0], (ast.Lt, ast.LtE)) or \
                v == '2' else 'orelse'
        return 'orelse'
    return None


def guarded(parents, n, kind):
    """Is the failure of `n` expected where it stands?"""
    child, p = n, parents.get(n)
    while p is not None:
        if isinstance(p, ast.Try) and any(child is x for x in p.body):
            for h in p.handlers:
                names = [] if h.type is None else [h.type] if not isinstance(
                    h.type, ast.Tuple) else h.type.elts
                if any((dotted(x) or '?').split('.')[-1] in HANDLED[kind]
                       for x in names):
                    return True
        if isinstance(p, (ast.If, ast.IfExp)) and child is not p.test:
            t = ast.dump(p.test)
            old = python2(p.test)
            body = p.body if isinstance(p.body, list) else [p.body]
            inbody = any(child is x for x in body)
            if old is not None and inbody == (old == 'body'):
                return True
            if old is None and ("'hasattr'" in t or 'has_editor' in t or
                                'PY2' in t or 'version_info' in t):
                return True
        child, p = p, parents.get(p)
    return False


def parent_map(tree):
    out = {}
    for p in ast.walk(tree):
        for c in ast.iter_child_nodes(p):
            out[c] = p
    return out


class Refs(object):
    def __init__(self, ctx):
        self.ctx, self.proj, self.cg = ctx, ctx.proj, ctx.cg
        p = self.proj
        self.counts = dict.fromkeys(('names', 'local names', 'filled texts',
                                     'unpacked results', 'module attributes',
                                     'class attributes', 'own attributes',
                                     'library attributes',
                                     'attributes of known objects',
                                     'other attributes', 'calls'), 0)
        self.mod_names = {}
        for m in p.modules.values():
            self.mod_names[m.name] = self.module_names(m)
        self.pt = PointsTo(p, ctx.cg)
        # attributes given to objects from outside their class
        self.stored = set()
        # attribute -> classes it is stored on; stored on who knows what
        self.stored_on, self.anywhere = {}, set()
        mods = set()
        for m in p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, (ast.Store, ast.Del)):
                    self.stored.add(n.attr)
                    self.store(n)
                elif isinstance(n, ast.Call):
                    d = dotted(n.func)
                    if d == 'setattr' and len(n.args) == 3:
                        try:
                            c = p.const(m, n.args[1])
                            if isinstance(c, str):
                                self.stored.add(c)
                                self.anywhere.add(c)
                        except ValueError:
                            pass
                    if d in ('type', 'namedtuple', 'collections.namedtuple'):
                        for a in n.args:
                            for x in ast.walk(a):
                                if isinstance(x, ast.Constant) and \
                                        isinstance(x.value, str):
                                    names = set(
                                        x.value.replace(',', ' ').split())
                                    self.stored |= names
                                    self.anywhere |= names
                    if (d or ast.unparse(n.func)).split('.')[-1] in (
                            'add_argument', 'add_parser', 'add_subparsers',
                            'set_defaults'):
                        # what parsed command lines have
                        for a in n.args + [k.value for k in n.keywords]:
                            if isinstance(a, ast.Constant) and \
                                    isinstance(a.value, str):
                                self.stored.add(
                                    a.value.lstrip('-').replace('-', '_'))
                        self.stored |= {k.arg for k in n.keywords if k.arg}
                elif isinstance(n, ast.Import):
                    mods |= {al.name for al in n.names}
                elif isinstance(n, ast.ImportFrom) and n.module:
                    mods.add(n.module)
        self.external = stdlib_attrs(mods)
        self.pool = set(self.stored) | self.external
        for c in p.classes.values():
            self.pool |= set(c.attrs) | set(c.methods) | {c.name}
            self.pool |= {x.target.id for x in c.node.body
                          if isinstance(x, ast.AnnAssign) and
                          isinstance(x.target, ast.Name)}
        for m in p.modules.values():
            self.pool |= self.mod_names[m.name]
        self.pool |= {f.name for f in p.funcs.values()}
        self.logger_attrs = set(dir(logging.getLogger('nxt'))) | {
            x for c in p.classes.values()
            if any(b.split('.')[-1] in ('Logger', 'getLoggerClass')
                   for b in p.ext_bases(c.qual)) or c.name == 'NXTLogger'
            for x in set(c.methods) | set(c.attrs)}
        # saved attribute names of nodes are attributes of node objects
        try:
            for c in ('INTERNAL_ATTRS', 'META_ATTRS'):
                for k in p.klass(c).attrs:
                    try:
                        v = p.class_const(p.klass(c).qual, k)
                    except ValueError:
                        continue
                    self.pool |= {x for x in (v if isinstance(v, (
                        tuple, list)) else [v]) if isinstance(x, str)}
        except Exception:
            pass

    def store(self, n):
        toks = self.pt.of(n.value)
        kinds = {t[1] for t in toks if isinstance(t, tuple) and
                 t[0] in ('i', 'c')}
        if 'unk' in toks or not kinds:
            self.anywhere.add(n.attr)
        else:
            self.stored_on.setdefault(n.attr, set()).update(kinds)

    def tok_has(self, t, attr):
        """May what the token stands for have the attribute?"""
        if t in PLAIN:
            return hasattr(PLAIN[t], attr) or attr in OLD
        if not isinstance(t, tuple):
            return True
        if t[0] == 'lit':
            return hasattr(str, attr) or attr in OLD
        if t[0] == 'o':
            if t[1] not in MADE:
                return True
            return any(hasattr(k, attr) for k in MADE[t[1]]) or attr in OLD
        if t[0] in ('i', 'c'):
            if t[1] not in self.proj.classes or self.open_class(t[1]) and \
                    attr in self.pool:
                return True
            fam = set(self.proj.mro(t[1])) | set(self.proj.subclasses(t[1]))
            return self.class_has(t[1], attr) or attr in self.anywhere or \
                bool(self.stored_on.get(attr, set()) & fam) or \
                attr in ('__dict__', '__class__', '__name__', '__bases__')
        return True

    def objects(self, node):
        """What an expression may be, or None when that is not known."""
        toks = {t for t in self.pt.of(node) if t != 'none'}
        return None if not toks or 'unk' in toks else toks

    def made_by_nxt(self, toks):
        return bool(toks) and all(isinstance(t, tuple) and t[0] == 'i' and
                                  t[1] in self.proj.classes for t in toks)

    @functools.lru_cache(None)
    def external_has(self, path, attr):
        """Has the library object `path` the attribute?  None: not known."""
        if path.split('.')[0] in ('nxt_editor', 'imp', 'nxt', '__future__'):
            return None
        cur, parts = None, path.split('.')
        for i in range(len(parts), 0, -1):
            try:
                cur = importlib.import_module('.'.join(parts[:i]))
            except Exception:
                continue
            for x in parts[i:]:
                cur = getattr(cur, x, None)
            break
        if cur is None or not (isinstance(cur, type) or
                               isinstance(cur, types.ModuleType)):
            return None
        return hasattr(cur, attr)

    def logger_var(self, r):
        """Is it a variable of a module that holds an nxt logger?"""
        if r[0] != 'gvar':
            return False
        vals = self.proj.modules[r[1]].assigns.get(r[2])
        vals = vals if isinstance(vals, list) else [vals]
        return bool(vals) and all(
            isinstance(v, ast.Call) and (dotted(v.func) or '').split('.')[-1]
            == 'getLogger' for v in vals)

    def module_names(self, m):
        t = symtable.symtable(m.src, m.path, 'exec')
        out = {s.get_name() for s in t.get_symbols()
               if s.is_assigned() or s.is_imported() or s.is_namespace()}

        def sub(x):
            for c in x.get_children():
                for s in c.get_symbols():
                    if s.is_declared_global() and s.is_assigned():
                        out.add(s.get_name())
                sub(c)
        sub(t)
        if m.is_pkg:
            pre = m.name + '.'
            out |= {k[len(pre):] for k in self.proj.modules
                    if k.startswith(pre) and '.' not in k[len(pre):]}
        return out | MODULE_NAMES

    # ----------------------------------------------------------------- names
    def names(self, m, parents):
        t = symtable.symtable(m.src, m.path, 'exec')
        bad = {}

        def sub(x, fn):
            for s in x.get_symbols():
                nm = s.get_name()
                if s.is_referenced() and s.is_global() or (
                        x.get_type() == 'module' and s.is_referenced() and
                        not s.is_assigned() and not s.is_imported()):
                    self.counts['names'] += 1
                    if nm not in self.mod_names[m.name] and \
                            not hasattr(builtins, nm) and nm not in PY2:
                        bad.setdefault(nm, (x.get_name(), x.get_lineno()))
            for c in x.get_children():
                sub(c, c.get_name())
        sub(t, '<module>')
        if not bad:
            return
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and n.id in bad and \
                    isinstance(n.ctx, ast.Load) and \
                    not guarded(parents, n, 'name'):
                fn, _ = bad[n.id]
                self.ctx.violation(
                    '%s:%s:name-%s' % (m.rel, fn, n.id), '%s:%d' % (
                        m.rel, n.lineno), 'the name %r is not defined' % n.id)

    # ------------------------------------------------------------ attributes
    def static(self, sc, node):
        """What a dotted expression statically denotes, or None."""
        d = dotted(node)
        if not d or sc.is_local(d.split('.')[0]):
            if isinstance(node, ast.Name) and sc.func is not None:
                # a name imported inside the function
                r = self.proj.lookup_name(sc.module, node.id)
                g = sc.func
                while g is not None:
                    for x in own_walk(g.node):
                        if isinstance(x, (ast.Import, ast.ImportFrom)) and \
                                any((a.asname or a.name) == node.id
                                    for a in x.names):
                            return r
                    g = g.parent
            return None
        cur = self.proj.lookup_name(sc.module, d.split('.')[0])
        for p in d.split('.')[1:]:
            nxt = self.proj.member(cur, p)
            if nxt is not None and nxt[0] == 'cvar':
                return None
            cur = nxt
        return cur

    @functools.lru_cache(None)
    def class_has(self, cq, attr):
        p = self.proj
        if p.ext_bases(cq) and set(p.ext_bases(cq)) - {'object'}:
            return True
        if hasattr(type, attr) or hasattr(object, attr) or \
                attr in ('__module__', '__dict__', '__name__'):
            return True
        if p.member(('cls', cq), attr) is not None:
            return True
        for c in p.mro(cq):
            for n in ast.walk(p.classes[c].node):
                if isinstance(n, ast.ClassDef) and n.name == attr:
                    return True
            # assigned in the class body in any way
            for n in p.classes[c].node.body:
                for x in ast.walk(n) if not isinstance(
                        n, ast.FunctionDef) else ():
                    if isinstance(x, ast.Name) and x.id == attr and \
                            isinstance(x.ctx, ast.Store):
                        return True
        return False

    @functools.lru_cache(None)
    def open_class(self, cq):
        """Classes whose instances take attributes that are not in the code."""
        p = self.proj
        fam = set(p.mro(cq)) | set(p.subclasses(cq))
        for c in fam:
            if set(p.ext_bases(c)) - {'object'}:
                return True
            k = p.classes[c]
            if '__getattr__' in k.methods or '__getattribute__' in k.methods:
                return True
            for f in k.methods.values():
                for n in own_walk(f.node):
                    if isinstance(n, ast.Call) and n.args and \
                            dotted(n.func) == 'setattr' and \
                            isinstance(n.args[0], ast.Name) and \
                            f.params and n.args[0].id == f.params[0]:
                        return True
                    if isinstance(n, ast.Attribute) and n.attr == '__dict__' \
                            and isinstance(n.value, ast.Name) and \
                            n.value.id == 'self':
                        return True
        return False

    def own(self, f):
        g = f
        while g.cls is None and g.parent is not None:
            g = g.parent
        return g if g.cls is not None and g.kind in (
            'method', 'setter') and g.params else None

    def attribute(self, sc, n, parents):
        base = self.static(sc, n.value)
        where = self.label(sc)
        if base is not None and base[0] == 'mod':
            self.counts['module attributes'] += 1
            if n.attr not in self.mod_names[base[1]] and \
                    self.proj.member(base, n.attr) is None and \
                    not guarded(parents, n, 'attr'):
                self.ctx.violation(
                    '%s:%s.%s' % (where, base[1], n.attr), self.at(sc, n),
                    'module %s has no %r' % (base[1], n.attr))
            return
        if base is not None and base[0] == 'cls':
            self.counts['class attributes'] += 1
            if not self.class_has(base[1], n.attr) and \
                    n.attr not in self.stored and \
                    not guarded(parents, n, 'attr'):
                self.ctx.violation(
                    '%s:%s.%s' % (where, base[1].split('.')[-1], n.attr),
                    self.at(sc, n), 'class %s has no %r'
                    % (base[1].split('.')[-1], n.attr))
            return
        if base is not None and base[0] == 'ext':
            self.counts['library attributes'] += 1
            if self.external_has(base[1], n.attr) is False and \
                    n.attr not in self.stored and not n.attr.startswith(
                        '__') and not guarded(parents, n, 'attr'):
                self.ctx.violation(
                    '%s:%s.%s' % (where, base[1], n.attr), self.at(sc, n),
                    'the library object %s has no %r' % (base[1], n.attr))
            return
        if base is not None and base[0] == 'fn':
            return
        if base is not None and self.logger_var(base):
            self.counts['library attributes'] += 1
            if n.attr not in self.logger_attrs and n.attr not in self.stored \
                    and not guarded(parents, n, 'attr'):
                self.ctx.violation(
                    '%s:logger.%s' % (where, n.attr), self.at(sc, n),
                    'a logger of nxt has no %r' % n.attr)
            return
        g = self.own(sc.func) if sc.func is not None else None
        if g is not None and isinstance(n.value, ast.Name) and \
                n.value.id == g.params[0]:
            cq = g.cls.qual
            if not self.open_class(cq):
                self.counts['own attributes'] += 1
                fam = set(self.proj.mro(cq)) | set(self.proj.subclasses(cq))
                if not any(self.class_has(c, n.attr) for c in fam) and \
                        n.attr not in self.stored and \
                        not guarded(parents, n, 'attr'):
                    self.ctx.violation(
                        '%s:self.%s' % (where, n.attr), self.at(sc, n),
                        '%s has no %r' % (g.cls.name, n.attr))
                return
        toks = self.objects(n.value)
        if toks is not None:
            self.counts['attributes of known objects'] += 1
            if not any(self.tok_has(t, n.attr) for t in toks) and \
                    not guarded(parents, n, 'attr'):
                self.ctx.violation(
                    '%s:.%s' % (where, n.attr), self.at(sc, n),
                    'nothing this can be has an attribute %r (it is one of: '
                    '%s)' % (n.attr, ', '.join(self.pt.show(toks)[:4])))
                return
        self.counts['other attributes'] += 1
        if n.attr not in self.pool and not n.attr.startswith('__') and \
                not guarded(parents, n, 'attr'):
            self.ctx.violation(
                '%s:.%s' % (where, n.attr), self.at(sc, n),
                'nothing in nxt or in the libraries it uses has an attribute '
                '%r' % n.attr)

    def label(self, sc):
        return sc.func.where if sc.func is not None else sc.module.rel

    def at(self, sc, n):
        return '%s:%d%s' % (sc.module.rel, n.lineno, ' (%s)' % sc.func.name
                            if sc.func is not None else '')

    # ----------------------------------------------------------------- calls
    def fits(self, f, call, bound):
        params = list(f.params)
        if bound and params:
            params = params[1:]
        npos = len(call.args)
        if npos > len(params) and not f.vararg:
            return 'takes %d arguments, gets %d' % (len(params), npos)
        got = set(params[:npos])
        for k in call.keywords:
            if k.arg in got:
                return 'gets %r twice' % k.arg
            if k.arg not in params and k.arg not in f.kwonly and not f.kwarg:
                return 'has no parameter %r' % k.arg
            got.add(k.arg)
        for p in params + f.kwonly:
            if p not in got and p not in f.defaults:
                return 'misses the argument %r' % p
        return None

    def call(self, sc, n, parents):
        if any(isinstance(a, ast.Starred) for a in n.args) or \
                any(k.arg is None for k in n.keywords):
            return
        p, fn = self.proj, n.func
        cands = []            # (Func, bound)
        base = self.static(sc, fn)
        if base is not None and base[0] == 'fn':
            f = p.funcs[base[1]]
            # a method reached through its class
            cands = [(f, f.kind == 'classmethod')]
        elif base is not None and base[0] == 'cls':
            if set(p.ext_bases(base[1])) - {'object'} and \
                    p.find_method(base[1], '__init__') is None:
                return
            f = p.find_method(base[1], '__init__')
            if f is None:
                return
            cands = [(f, True)]
        elif base is not None:
            return
        elif isinstance(fn, ast.Name):
            g = sc.func
            while g is not None:
                if fn.id in g.nested:
                    assigned = any(isinstance(x, ast.Name) and x.id == fn.id
                                   and isinstance(x.ctx, ast.Store)
                                   for x in own_walk(g.node))
                    if not assigned:
                        cands = [(g.nested[fn.id], False)]
                    break
                if fn.id in g.locals:
                    return
                g = g.parent
        elif isinstance(fn, ast.Attribute):
            g = self.own(sc.func) if sc.func is not None else None
            if g is not None and isinstance(fn.value, ast.Name) and \
                    fn.value.id in (g.params[0],):
                fam = set(p.subclasses(g.cls.qual)) | {g.cls.qual}
                fs = {p.find_method(c, fn.attr) for c in fam} - {None}
                cands = [(f, f.kind != 'staticmethod') for f in fs]
            elif self.made_by_nxt(self.objects(fn.value)):
                fs = {p.find_method(t[1], fn.attr)
                      for t in self.objects(fn.value)} - {None}
                cands = [(f, f.kind != 'staticmethod') for f in fs]
            elif fn.attr not in BUILTIN_METHODS and \
                    fn.attr not in self.external and \
                    fn.attr not in self.stored and \
                    dotted(fn.value) != 'super':
                cands = [(f, f.kind != 'staticmethod' and f.cls is not None)
                         for f in p.by_name.get(fn.attr, ())
                         if f.cls is not None and not f.is_property]
        cands = [(f, b) for f, b in cands if not f.is_property and
                 f.node.decorator_list == [] or f.kind in (
                     'staticmethod', 'classmethod')]
        if not cands:
            return
        self.counts['calls'] += 1
        why = [self.fits(f, n, b) for f, b in cands]
        if all(why) and not guarded(parents, n, 'call'):
            f = cands[0][0]
            self.ctx.violation(
                '%s:call-%s-%s' % (self.label(sc), f.name,
                                   why[0].replace(' ', '-')),
                self.at(sc, n), 'the call of %s does not fit: it %s'
                % (f.name, why[0]))

    def fields(self, sc, n):
        """Fields of a literal text that its format call does not fill."""
        fn = n.func
        if not (isinstance(fn, ast.Attribute) and fn.attr == 'format' and
                isinstance(fn.value, ast.Constant) and
                isinstance(fn.value.value, str)) or any(
                    isinstance(a, ast.Starred) for a in n.args) or any(
                        k.arg is None for k in n.keywords):
            return
        self.counts['filled texts'] += 1
        auto, kw = 0, {k.arg for k in n.keywords}
        try:
            parts = list(string.Formatter().parse(fn.value.value))
        except ValueError:
            parts = []
        for _, field, spec, _ in parts:
            if field is None:
                continue
            head = re.split(r'[.\[]', field)[0]
            if head == '':
                head, auto = str(auto), auto + 1
            if (int(head) >= len(n.args)) if head.isdigit() else (
                    head not in kw):
                self.ctx.violation(
                    '%s:format-%s' % (self.label(sc), head), self.at(sc, n),
                    'the text has a field {%s} that nothing fills' % head)

    def unpacked(self, sc, n):
        """Unpacking what a function returns into more or fewer names."""
        t = n.targets[0]
        if len(n.targets) != 1 or not isinstance(t, (ast.Tuple, ast.List)) \
                or not isinstance(n.value, ast.Call) or any(
                    isinstance(x, ast.Starred) for x in t.elts):
            return
        fns = self.callees(sc, n.value)
        sizes = [size for f in fns for size in returned(f)]
        if not sizes or None in sizes:
            return
        self.counts['unpacked results'] += 1
        if all(z != len(t.elts) for z in sizes):
            self.ctx.violation(
                '%s:unpack-%s' % (self.label(sc), fns[0].name),
                self.at(sc, n), '%s returns %d values, %d are expected' % (
                    fns[0].name, sizes[0], len(t.elts)))

    def callees(self, sc, call):
        p, fn = self.proj, call.func
        base = self.static(sc, fn)
        if base is not None:
            return [p.funcs[base[1]]] if base[0] == 'fn' else []
        if not isinstance(fn, ast.Attribute):
            return []
        toks = self.objects(fn.value)
        g = self.own(sc.func) if sc.func is not None else None
        if g is not None and isinstance(fn.value, ast.Name) and \
                fn.value.id == g.params[0]:
            fam = set(p.subclasses(g.cls.qual)) | {g.cls.qual}
        elif self.made_by_nxt(toks):
            fam = {t[1] for t in toks}
        else:
            return []
        return sorted({p.find_method(c, fn.attr) for c in fam} - {None},
                      key=lambda f: f.qual)

    # ------------------------------------------------------------------ walk
    def walk(self, sc, body, parents):
        todo = list(body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for x in n.decorator_list + list(n.args.defaults) + [
                        d for d in n.args.kw_defaults if d is not None]:
                    todo.append(x)
                f = self.proj.node_func.get(id(n))
                if f is not None:
                    self.ctx.analysed([f.qual])
                    self.walk(Scope(sc.module, f), n.body, parents)
                continue
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.attribute(sc, n, parents)
            elif isinstance(n, ast.Call):
                self.call(sc, n, parents)
                self.fields(sc, n)
            elif isinstance(n, ast.Assign):
                self.unpacked(sc, n)
            todo.extend(ast.iter_child_nodes(n))

    def imports(self, m, parents):
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)) and \
                    not guarded(parents, n, 'import'):
                for nm, b in self.proj.import_bindings(m, n):
                    if b[0] == 'from' and b[2] != '*' and \
                            b[2] not in self.mod_names[b[1]]:
                        self.ctx.violation(
                            '%s:import-%s.%s' % (m.rel, b[1], b[2]),
                            '%s:%d' % (m.rel, n.lineno),
                            'module %s has no %r to import' % (b[1], b[2]))


def returned(f):
    """How many values each return of a function gives; None: not known."""
    if isinstance(f.node, ast.Lambda) or f.is_property:
        return [None]
    out = []
    for n in own_walk(f.node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return [None]
        if isinstance(n, ast.Return):
            v = n.value
            out.append(len(v.elts) if isinstance(v, ast.Tuple) and not any(
                isinstance(x, ast.Starred) for x in v.elts) else None)
    return out or [None]


def test_names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {
        ast.unparse(x) for x in ast.walk(n) if isinstance(x, ast.Attribute)}


def tests_around(parents, n, top):
    """Names in the conditions that decide whether `n` is reached."""
    out, child, p = set(), n, parents.get(n)
    while p is not None and child is not top:
        if isinstance(p, (ast.If, ast.While, ast.IfExp)) and \
                child is not p.test:
            out |= test_names(p.test)
        elif isinstance(p, ast.BoolOp):
            for v in p.values:
                if v is child:
                    break
                out |= test_names(v)
        elif isinstance(p, ast.comprehension):
            for v in p.ifs:
                out |= test_names(v)
        child, p = p, parents.get(p)
    return out


def local_names(ctx, refs, m, f, parents):
    """Reads of local names that no assignment reaches."""
    bad = unassigned(f)
    n = sum(1 for x in own_walk(f.node) if isinstance(x, ast.Name) and
            isinstance(x.ctx, ast.Load) and x.id in f.locals)
    refs.counts['local names'] += n
    for read, how in bad:
        if guarded(parents, read, 'name') or guarded(parents, read, 'local'):
            continue
        if how == 'some':
            # is what decides the assignment asked again before the read?
            deciding, asked = set(), tests_around(parents, read, f.node)
            for x in own_walk(f.node):
                if isinstance(x, ast.Name) and x.id == read.id and \
                        isinstance(x.ctx, ast.Store):
                    deciding |= tests_around(parents, x, f.node)
                    st = x
                    while st is not None and not isinstance(st, ast.stmt):
                        st = parents.get(st)
                    up = parents.get(st)
                    for k in ('body', 'orelse', 'finalbody', 'handlers'):
                        blk = getattr(up, k, None)
                        if isinstance(blk, list) and any(
                                b is st for b in blk) and up is not f.node:
                            for b in blk:
                                for y in ast.walk(b):
                                    if isinstance(y, ast.Name) and isinstance(
                                            y.ctx, ast.Store):
                                        deciding.add(y.id)
                elif isinstance(x, (ast.If, ast.Assert)) and \
                        x.lineno < read.lineno and (
                            isinstance(x, ast.Assert) or any(
                                isinstance(y, (ast.Return, ast.Raise,
                                               ast.Continue, ast.Break))
                                for y in ast.walk(x))):
                    asked |= test_names(x.test)
            deciding.discard(read.id)
            if deciding & asked:
                continue
        ctx.violation(
            '%s:unassigned-%s' % (f.where, read.id), '%s:%d (%s)' % (
                m.rel, read.lineno, f.name),
            'the local name %r is read where it is %sassigned' % (
                read.id, 'not ' if how == 'no' else 'not always '))


class FakeModule(object):
    is_pkg = False


def graph_code(ctx, refs):
    """Node code of the graphs that come with nxt."""
    proj = ctx.proj
    base = os.path.join(proj.root, 'nxt')
    n = 0
    for dirpath, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d not in ('test', '__pycache__'))
        for fname in sorted(files):
            if not fname.endswith('.nxt'):
                continue
            path = os.path.join(dirpath, fname)
            rel = os.path.relpath(path, proj.root)
            try:
                with open(path, encoding='utf-8') as fp:
                    data = json.load(fp)
            except ValueError:
                continue
            for npath, node in sorted(data.get('nodes', {}).items()):
                code = '\n'.join(node.get('code') or [])
                if not code.strip():
                    continue
                src = TOKEN.sub('_nxt_token', code)
                try:
                    tree = ast.parse(src)
                except SyntaxError:
                    continue        # what the tokens stand for is not known
                n += 1
                m = FakeModule()
                m.name, m.rel, m.tree = 'graph:' + rel + npath, rel, tree
                m.src, m.path, m.assigns = src, rel, {}
                m.names = {'nxt_path': ('mod', 'nxt.nxt_path')}
                for st in ast.walk(tree):
                    if isinstance(st, (ast.Import, ast.ImportFrom)):
                        for nm, b in proj.import_bindings(m, st):
                            m.names[nm] = b
                for st in ast.walk(tree):
                    if isinstance(st, ast.Name) and isinstance(
                            st.ctx, ast.Store):
                        m.names.pop(st.id, None)
                parents = parent_map(tree)
                m.rel = rel + npath
                refs.imports(m, parents)
                sc = Scope(m, None)
                proj.modules[m.name] = m
                try:
                    for x in ast.walk(tree):
                        if isinstance(x, ast.Attribute) and isinstance(
                                x.ctx, ast.Load):
                            b = refs.static(sc, x.value)
                            if b is not None and b[0] in ('mod', 'cls'):
                                refs.attribute(sc, x, parents)
                        elif isinstance(x, ast.Call):
                            if refs.static(sc, x.func) is not None:
                                refs.call(sc, x, parents)
                finally:
                    del proj.modules[m.name]
    return n


def run(ctx):
    refs = Refs(ctx)
    for m in list(ctx.proj.modules.values()):
        if '.plugins' in m.name or m.name.endswith('_template'):
            continue
        parents = parent_map(m.tree)
        refs.names(m, parents)
        refs.imports(m, parents)
        refs.walk(Scope(m, None), m.tree.body, parents)
        for f in ctx.proj.funcs.values():
            if f.module is m:
                local_names(ctx, refs, m, f, parents)
        ctx.obligation('%s: names, attributes and calls resolve' % m.rel)
    g = graph_code(ctx, refs)
    ctx.count('nodes with code in the graphs that come with nxt', g, 3)
    for k, v in refs.counts.items():
        ctx.count(k, v, 3)


RULE = Rule('C23', run, 'resolution of every name, module and class attribute, '
            'own attribute and call in the package against its definitions')
