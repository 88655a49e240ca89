"""Obligations, verdicts, evidence."""
import json
import os
import resource
import signal
import sys
import time
import traceback

from .val import *
from . import val as V
from . import identity
from .model import Project, AnalysisBroken, REPO
from .interp import Interp, Budget, leaves_of, mentions, subst, stub

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

_project = None


def project():
    global _project
    if _project is None:
        _project = Project()
    return _project


class Check:
    """collects obligations: every one is a rule applied to a construct of the source"""

    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.obs = []            # (rule, construct, verdict, detail, loc)
        self.analysed = set()
        self.assume = []
        self.t0 = time.time()
        self.extra = {}
        self.explanation = ''

    @property
    def thorough(self):
        return self.tier == 'thorough'

    @property
    def n(self):
        return 40 if self.thorough else 10

    # ---------------------------------------------------------------- recording
    def ob(self, rule, construct, verdict, detail='', loc=None):
        self.obs.append((rule, construct, verdict, detail, loc))
        return verdict

    def holds(self, rule, construct, detail='', loc=None):
        return self.ob(rule, construct, True, detail, loc)

    def violated(self, rule, construct, detail='', loc=None):
        return self.ob(rule, construct, False, detail, loc)

    def undecided(self, rule, construct, detail='', loc=None):
        return self.ob(rule, construct, None, detail, loc)

    def same(self, rule, construct, got, want, domain=None, care=TRUE, loc=None, what=''):
        """obligation: the value the source computes is the value the specification names"""
        if got is V.BOT or care is FALSE:
            return self.violated(rule, construct, '%s: no path returns a value' % what, loc)
        try:
            v, lits, x, y = identity.agree(got, want, domain, care, n=self.n, seed=1 if not self.thorough else 11)
        except (TooBig, RecursionError) as e:
            return self.undecided(rule, construct, 'comparison too large (%s)' % type(e).__name__, loc)
        d = what
        if v is False and (f := foreign(x, y)):
            v = None
            d = '%s: not decided: computed through %s, which is not modelled' % (what, f)
        elif v is False:
            d = '%s computes %s where %s is required' % (what or 'source', clip(show(x)), clip(show(y)))
            if lits:
                d += ' when ' + clip(V.show_lits(lits))
        elif v is None:
            d = '%s: not decided: %s' % (what, clip(show(got)))
        return self.ob(rule, construct, v, d, loc)

    def total(self, rule, construct, pc, domain=None, loc=None, what='', pending=()):
        """obligation: the function returns for every admissible input"""
        v = True
        d = what
        k = 0
        for lits, (p,) in V.paths(pc):
            if p is TRUE:
                continue
            k += 1
            if k > 200:
                v = None
                break
            kinds = {V.atom_of(i)[0] for i in lits}
            if kinds - {'lt', 'gt', 'eq', 'eqv', 'isnone', 'truth'}:
                continue
            if identity.sampleable(lits, domain):
                v = False
                d = '%s does not return when %s' % (what, clip(V.show_lits(lits)))
                for s, e in pending:
                    d += ' (raises %s)' % show(e)
                break
        return self.ob(rule, construct, v, d, loc)

    # ---------------------------------------------------------------- finish
    def floor(self, rule, n):
        """a rule that matched fewer constructs than it must is broken, not satisfied"""
        k = sum(1 for o in self.obs if o[0] == rule)
        if k < n and not any(o[2] is not True for o in self.obs):
            # what could not be analysed is listed as undecided, and what is violated stops an analysis early
            raise AnalysisBroken('rule %s applied to %d constructs, expected at least %d' % (rule, k, n))

    def visited(self, ip):
        self.analysed |= {'%s:%s' % v for v in ip.visited}


def foreign(x, y):
    """a library computation the term vocabulary has no meaning for, on the computed side only"""
    def odd(l):
        if not isinstance(l, V.App):
            return False
        o = l.op
        if o in identity.ARRANGED:
            return not identity.evaluable(l)
        return (o.startswith('call:') and o not in identity.KNOWN_CALLS and not o.endswith(('.File', 'open')) and (any(not isinstance(a, V.Const) for a in l.args) or not o.startswith(('call:numpy.', 'call:scipy.')))) or \
            o in ('rows', 'invert', 'literal', 'list?', 'seg?', 'popped', 'loopread') or (o.startswith('op') and o[2:3].isupper() and o not in identity.KNOWN_OPS)
    if not isinstance(x, (V.Leaf, V.Ite)):
        return None
    w = set(identity.apps(y)) if isinstance(y, (V.Leaf, V.Ite)) else set()
    # the absolute values of a transform are evaluated, and so is the position of their maximum
    seen = [a for a in identity.apps(x) if a.op == 'f:abs' and identity.transform(a.args[0])]
    w |= {a.args[0] for a in seen}
    w |= {a for a in identity.apps(x) if a.op in ('call:numpy.argmax', 'call:numpy.argmin') and len(a.args) == 1 and any(q in seen for q in identity.apps(a.args[0]))}
    for l in identity.apps(x):
        if odd(l) and l not in w:
            return l.op
    return None


def clip(s, n=300):
    s = str(s)
    return s if len(s) <= n else s[:n] + '...'


def known_findings():
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: '):
                # known: property=<id> key=<rule>|<construct> :: text
                head, _, text = ln[7:].partition(' :: ')
                pid, _, key = head.partition(' key=')
                out[(pid.split('=', 1)[1], key.strip())] = text
    return out


def run(pid, tier):
    from . import checks
    import importlib
    mod, fn, level = checks.REGISTRY[pid]
    c = Check(pid, tier)
    code = 0
    broken = None

    def stop(*a):
        raise Budget('time')
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(780)
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    try:
        getattr(importlib.import_module('sa.checks.' + mod), fn)(c)
    except AnalysisBroken as e:
        broken = str(e)
    except (Budget, MemoryError) as e:
        c.undecided('budget', pid, 'the analysis stopped: %s %s' % (type(e).__name__, e))
    finally:
        signal.alarm(0)
    known = known_findings()
    viol = [o for o in c.obs if o[2] is False]
    und = [o for o in c.obs if o[2] is None]
    ok = [o for o in c.obs if o[2] is True]
    reported = []
    seen = set()
    for o in viol:
        k = (pid, '%s|%s' % (o[0], o[1]))
        if k in known:
            if k not in seen:
                print('KNOWN-FINDING: property=%s %s' % (pid, known[k]))
            seen.add(k)
        else:
            reported.append(o)
    if broken is None and not c.obs:
        broken = 'no obligation was generated'
    if broken is None and not reported and not ok:
        broken = 'no obligation could be decided (%d undecided)' % len(und)
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    path = os.path.join(evdir, pid + '.json')
    rules = {}
    for o in c.obs:
        r = rules.setdefault(o[0], {'obligations': 0, 'discharged': 0, 'violated': 0, 'undecided': 0})
        r['obligations'] += 1
        r[{True: 'discharged', False: 'violated', None: 'undecided'}[o[2]]] += 1
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': level,
        'coverage': {
            'explanation': c.explanation or 'static analysis of the source; every obligation is one rule applied to one construct',
            'obligations': len(c.obs), 'discharged': len(ok), 'violated': len(viol), 'undecided': len(und),
            'rules': rules,
            'constructs': sorted({o[1] for o in c.obs})[:400],
            'functions_analysed': sorted(c.analysed),
            'undecided_obligations': [{'rule': o[0], 'construct': o[1], 'why': clip(o[3], 400)} for o in und][:100],
            'known_findings_seen': sorted('%s %s' % k for k in seen),
            **c.extra,
        },
        'assumptions': c.assume,
        'violations': [{'rule': o[0], 'construct': o[1], 'detail': clip(o[3], 1500), 'where': o[4] and str(o[4])} for o in reported],
        'wall_s': round(time.time() - c.t0, 3),
    }
    if broken:
        ev['coverage']['analysis_broken'] = broken
    with open(path, 'w') as h:
        json.dump(ev, h, indent=1, sort_keys=True)
        h.write('\n')
    print('%s %s: %d obligations, %d discharged, %d violated, %d undecided, %.2fs' % (
        pid, tier, len(c.obs), len(ok), len(viol), len(und), ev['wall_s']))
    for o in und[:40]:
        print('UNDECIDED %s %s: %s' % (o[0], o[1], clip(o[3], 200)))
    if reported:
        for o in reported[:20]:
            print('  %s at %s%s: %s' % (o[0], o[1], ' [%s]' % (o[4],) if o[4] else '', clip(o[3], 600)))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if broken:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, broken))
        return 2
    return 0
