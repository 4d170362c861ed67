"""Common driver: runs one property's analysis, matches known findings, writes evidence, prints the verdict."""
import os, sys, json, time, traceback
from facts import VERIF, AnalysisError

KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Finding(object):
    def __init__(self, rule, key, loc, msg, trace=()):
        self.rule, self.key, self.loc, self.msg, self.trace = rule, key, loc, msg, list(trace)

    def ident(self):
        return '%s|%s' % (self.rule, self.key)


class Report(object):
    def __init__(self, prop):
        self.prop = prop
        self.findings = {}
        self.counts = {}
        self.samples = {}
        self.notes = []
        self.assumptions = []
        self.rules = []

    def ok(self, rule, what=None, n=1):
        """one obligation checked and discharged"""
        self.counts.setdefault(rule, [0, 0])
        self.counts[rule][0] += n
        self.counts[rule][1] += n
        if what is not None:
            s = self.samples.setdefault(rule, [])
            if len(s) < 12:
                s.append(str(what))

    def bad(self, rule, key, loc, msg, trace=()):
        """one obligation violated; key identifies the instance independently of line numbers"""
        f = Finding(rule, key, loc, msg, trace)
        self.counts.setdefault(rule, [0, 0])
        self.counts[rule][0] += 1
        self.findings.setdefault(f.ident(), f)

    def require(self, rule, n, what=''):
        """anchor check: a rule that matches fewer instances than this is analysing nothing"""
        have = self.counts.get(rule, [0, 0])[0]
        if have < n:
            raise AnalysisError('rule %s: only %d instances found, at least %d expected: %s' % (rule, have, n, what or 'the anchor has vanished'))


def load_known(prop):
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                ident, _, desc = rest.partition(' :: ')
                res[ident.strip()] = desc.strip()
    return res


def run_check(prop, fn, level, explanation, assumptions=(), technique=''):
    t0 = time.time()
    rep = Report(prop)
    try:
        prog = fn(rep)
    except AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % prop)
        return 3
    known = load_known(prop)
    viol = []
    seen_known = []
    for f in rep.findings.values():
        if f.ident() in known:
            seen_known.append(f)
        else:
            viol.append(f)
    for f in seen_known:
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, known[f.ident()], f.loc))
    obl = sum(c[0] for c in rep.counts.values())
    dis = sum(c[1] for c in rep.counts.values())
    for r in sorted(rep.counts):
        print('  rule %-40s obligations %5d  discharged %5d' % (r, rep.counts[r][0], rep.counts[r][1]))
    for n in rep.notes:
        print('  note:', n)
    rdir = os.path.join(VERIF, 'build', 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, prop + '.txt')
    if viol:
        with open(path, 'w') as o:
            for f in viol:
                o.write('%s: [%s] %s\n    instance: %s\n' % (f.loc, f.rule, f.msg, f.ident()))
                for t in f.trace:
                    o.write('      %s\n' % t)
        for f in viol[:30]:
            print('%s: [%s] %s' % (f.loc, f.rule, f.msg))
            print('      instance: ' + f.ident())
            for t in f.trace[:12]:
                print('      ' + t)
        if len(viol) > 30:
            print('... %d more in %s' % (len(viol) - 30, path))
    cov = dict(explanation=explanation, obligations=obl, discharged=dis,
               per_rule={r: dict(obligations=c[0], discharged=c[1], samples=rep.samples.get(r, [])) for r, c in rep.counts.items()},
               units_parsed=len(prog.units), units_reparsed=prog.extracted, functions_in_program=len(prog.functions), classes_in_program=len(prog.classes),
               known_findings=[f.ident() for f in seen_known], notes=rep.notes[:50])
    if level == 'proof':
        cov.update(checker_cmd='python3 sa/check.py ' + prop, trusted_base=['clang 18 front end', '/verif/tool/extract.cpp', '/verif/sa'])
    ev = dict(property=prop, tier=os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick',
              seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov,
              assumptions=list(assumptions) + rep.assumptions, wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
    print('property %s: %d obligations, %d discharged, %d known findings, %d violations, %.1f s' % (prop, obl, dis, len(seen_known), len(viol), time.time() - t0))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0
