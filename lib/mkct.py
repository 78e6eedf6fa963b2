"""Rebuild ct.json: the corpus schemas g++ 14 can evaluate in the compiler on
the unchanged tree. Development tool; no check runs it.

  python3 lib/mkct.py [FAMILY...]   (all of them, or these again)
"""
import json
import os
import sys

import build
import core
import special

FAMS = dict(general=70, con=30, magic=30, lens=30, cond=30, comp=30, union=40, maybe=30, wide=30, ceil=30, nest=40, float=20, tiny=20, odd=25)


def main():
    r = core.Run('mkct', 'quick', 5)
    c = core.corpus()
    out, bad = {}, []
    with build.pool() as pool:
        co = special.checks_obj(r, pool)

        def one(fam, s, i):
            it = ('%s%d' % (fam, s), build.corpus_schema(fam, s), 1)
            for rec in it[1]['recs']:
                for f in rec['fields']:
                    for g in [f] + [f.get('b') or {}] + f.get('alts', []):
                        if g.get('k') == 'vecrec' and g.get('m') is not None:
                            return fam, s, 'ceiling on records'
            cases = special.dump_cases(r, [it], 60, 900000 + i, co)
            v = special.ct_judge(r, [it], cases, '%s/j%d' % (r.dir, i), 'include')
            return fam, s, v and v[1]
        futs = []
        for fam, n in FAMS.items():
            if sys.argv[1:] and fam not in sys.argv[1:]:
                continue
            for s, cost in c.get(fam, [])[:n]:
                futs.append(pool.submit(one, fam, s, len(futs)))
        for f in futs:
            fam, s, m = f.result()
            if m:
                bad.append((fam, s, m))
                print(fam, s, m, flush=True)
            else:
                out.setdefault(fam, []).append(s)
    path = os.path.join(build.VERIF, 'lib', 'ct.json')
    if sys.argv[1:]:
        out = dict(json.load(open(path)), **out)
    with open(path, 'w') as f:
        json.dump(out, f, sort_keys=True)
    print({k: len(v) for k, v in out.items()}, len(bad))
    r.close()


main()
