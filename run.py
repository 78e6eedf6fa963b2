#!/usr/bin/env python3
"""Decide one property of s2s on /repo's current tree.

  run.py ID [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
"""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import build          # noqa: E402
import config         # noqa: E402
import core           # noqa: E402
import special        # noqa: E402

BUDGET = {'quick': 58, 'thorough': 2400}
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known(prop):
    """[(finding text)] listed and not fixed"""
    out = []
    for l in open(KNOWN):
        if l.startswith('finding: property=%s ' % prop):
            out.append(l[len('finding: property=%s ' % prop):].strip())
    return out


def evidence(r, violations, rules):
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    samples, per = [], {}
    for s in r.samples:
        k = s.split(' ')[0]
        if per.get(k, 0) < 4:
            per[k] = per.get(k, 0) + 1
            samples.append(s[:400])
    cov = dict(evaluations=r.evals, distinct_nontrivial=r.nontrivial, rule=rules, samples=samples[:40],
               generated_cases=r.cases, programs_built_from_schemas=r.schemas, labels=dict(sorted(r.labels.items())[:200]),
               seconds_building=round(getattr(r, 't_build', 0), 1), driven=getattr(r, 'targets', ['include']))
    cov.update(r.counts)
    if r.notes:
        cov['notes'] = r.notes
    e = dict(property=r.prop, tier=r.tier, seed=r.seed, level=LEVEL.get(r.prop, 'exploration'), coverage=cov,
             assumptions=['x86-64 Linux, g++ 14, -std=c++23: little-endian host with the type sizes of that platform',
                          'the reference model in cpp/model.hpp states what the documentation promises'],
             wall_s=round(time.time() - r.t0, 1), violations=violations)
    tmp = '%s/evidence/.%s.%d' % (VERIF, r.prop, os.getpid())
    with open(tmp, 'w') as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, '%s/evidence/%s.json' % (VERIF, r.prop))


LEVEL = {'C05': 'fault_enumeration', 'C13': 'fault_enumeration'}


def rules_of(groups):
    names = []
    for g in groups or []:
        for c in g.checks.split(','):
            n = c.split(':')[0]
            if n not in names:
                names.append(n)
    return '; '.join('%s: %s' % (n, config.RULES[n]) for n in names)


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    r = core.Run(prop, tier, seed)
    try:
        if '--replay' in a:
            data = json.load(open(a[a.index('--replay') + 1]))
            bad = special.replay(r, data) if data['kind'].startswith('x-') else r.replay(data)
            if bad:
                print('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(a[a.index('--replay') + 1])))
            return 1 if bad else 0
        rules = ''
        viol = None
        try:
            if prop in special.RUN:
                rules = special.RUN[prop](r, BUDGET[tier])
            else:
                gs = config.groups(prop)
                rules = rules_of(gs)
                r.drive(gs, BUDGET[tier], 1.5 if tier == 'quick' else 'all')
        except core.Violation as v:
            viol = v
        evidence(r, 1 if viol else 0, rules or special.RULE.get(prop, 'the run stopped at a violation'))
        for k in known(prop):
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        if viol:
            print(viol.message)
            print('VIOLATION property=%s replay=%s' % (prop, viol.replay))
            return 1
        print('%s held: %d evaluations, %d distinct non-trivial, %d schemas, %.0f s' %
              (prop, r.evals, r.nontrivial, r.schemas, time.time() - r.t0))
        return 0
    except core.Harness as e:
        print('the machinery could not decide: %s' % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        r.close()


if __name__ == '__main__':
    sys.exit(main())
