"""Running rules, evidence, known findings."""
import json
import os
import sys
import time
import traceback

from .project import Project, CallGraph, AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Rule(object):
    def __init__(self, pid, run, technique, selftest=None):
        self.pid, self.run, self.technique = pid, run, technique
        self.selftest = selftest


class Ctx(object):
    def __init__(self, proj, cg, pid, tier='quick'):
        self.proj, self.cg, self.pid, self.tier = proj, cg, pid, tier
        self.violations = {}
        self.obligations = []
        self.funcs = set()
        self.counts = {}
        self.notes = []

    def violation(self, key, where, message, node=None, path=None):
        """`key` names the construct, never a line number."""
        at = ''
        if where is not None and hasattr(where, 'module'):
            line = getattr(node, 'lineno', where.node.lineno)
            at = '%s:%d (%s)' % (where.module.rel, line,
                                 where.qual[len(where.module.name) + 1:])
        elif where:
            at = str(where)
        key = '%s/%s' % (self.pid, key)
        self.violations.setdefault(key, {
            'key': key, 'at': at, 'message': message, 'path': path or []})

    def obligation(self, text):
        self.obligations.append(text)

    def analysed(self, quals):
        self.funcs |= set(quals)

    def count(self, name, n, floor):
        """Instances found; below the floor the analysis itself is broken."""
        self.counts[name] = n
        if n < floor:
            raise AnalysisBroken('%s: found %d, expected at least %d'
                                 % (name, n, floor))

    def note(self, text):
        self.notes.append(text)


def load_known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    with open(p) as fp:
        for line in fp:
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            # finding: <key> :: <what fails>
            if line.startswith('finding:'):
                key, _, what = line[len('finding:'):].partition('::')
                out[key.strip()] = what.strip()
    return out


_loaded = {}


def load(root):
    if root not in _loaded:
        p = Project(root)
        _loaded[root] = (p, CallGraph(p))
    return _loaded[root]


def evaluate(rule, root='/repo', tier='quick'):
    proj, cg = load(root)
    ctx = Ctx(proj, cg, rule.pid, tier)
    try:
        rule.run(ctx)
    except AnalysisBroken as e:
        # what was found before stays found
        known = load_known()
        if all(k in known for k in ctx.violations):
            raise
        ctx.note('incomplete: %s' % e)
    return ctx


def main_check(rule, root, tier, seed):
    t0 = time.time()
    try:
        ctx = evaluate(rule, root, tier)
        if rule.selftest is not None:
            rule.selftest(ctx)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (rule.pid, e))
        return 3
    except Exception:       # never an answer about the code
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % rule.pid)
        return 3
    known = load_known()
    new, listed = [], []
    for k in sorted(ctx.violations):
        (listed if k in known else new).append(ctx.violations[k])
    ev = {
        'property': rule.pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'static analysis of the current sources: '
                           + rule.technique,
            'modules_parsed': len(ctx.proj.modules),
            'functions_in_program': len(ctx.proj.funcs),
            'source_digest': ctx.proj.digest(),
            'functions_analysed': sorted(ctx.funcs),
            'rule_instances': ctx.counts,
            'obligations': len(ctx.obligations),
            'discharged': len(ctx.obligations) - len(ctx.violations)
            if len(ctx.obligations) >= len(ctx.violations) else 0,
            'samples': sorted(set(ctx.obligations))[:60],
            'notes': ctx.notes,
            'violations': new, 'known_findings': listed,
        },
        'wall_s': round(time.time() - t0, 3),
        'violations': len(new),
    }
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, rule.pid + '.json')
    with open(out, 'w') as fp:
        json.dump(ev, fp, indent=1, sort_keys=True)
    print('%s: %d functions analysed, %d obligations, instances %s'
          % (rule.pid, len(ctx.funcs), len(ctx.obligations), ctx.counts))
    for v in listed:
        print('KNOWN-FINDING: property=%s %s -- %s'
              % (rule.pid, v['key'], known[v['key']]))
    for v in new:
        print('%s: %s [%s]' % (v['at'], v['message'], v['key']))
    if new:
        for v in new:
            print('VIOLATION property=%s replay=%s' % (rule.pid, out))
        return 1
    return 0
