"""Rebuild corpus.json: per family, the seeds whose schemas compile on the
unchanged tree, have wires the generator finds, and on which the model and the
code agree over a short run of every check. Development tool; no check runs it.

  python3 lib/mkcorpus.py FAMILY FROM TO   (appends to corpus.json)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

import build
import emit

ALL = 'rd_ok,rd_mut,rd_trunc,rd_rand,rd_len,wr_ok,wr_bad,wr_fault,rt_wr,rt_rd,dual,pure,hist,life,nest,pol,map,sizes,sweep,vast'


def main():
    fam, lo, hi = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    path = os.path.join(build.VERIF, 'lib', 'corpus.json')
    tmp = tempfile.mkdtemp(prefix='hvc')
    ok, out = build.compile_obj(build.VERIF + '/cpp/checks.cpp', tmp + '/checks.o', ['-O2', '-I' + build.VERIF + '/cpp'])
    assert ok, out
    rows = []

    def one(seed):
        s = build.corpus_schema(fam, seed)
        src = '%s/%d.cpp' % (tmp, seed)
        open(src, 'w').write(emit.tu([('%s%d' % (fam, seed), s, -1)], subs=True))
        t = time.time()
        ok, out = build.compile_obj(src, src + '.o', ['-O1', '-ftrivial-auto-var-init=pattern'] + build.flags_for('include'))
        t = time.time() - t
        if not ok:
            return seed, 'COMPILE ' + build.first_error(out), t, 0
        subprocess.check_call([build.CXX, src + '.o', tmp + '/checks.o', '-o', src + '.x'])
        subprocess.call([src + '.x', '--checks', ALL, '--cases', '4000', '--out', src + '.json', '--tmp', src + '.tmp', '--cpu', '60'])
        r = json.load(open(src + '.json'))
        for x in ('', '.o', '.x', '.json'):
            try:
                os.unlink(src + x)
            except OSError:
                pass
        if r['failure'] or r['error']:
            return seed, 'FAIL ' + json.dumps(r['failure'] or r['error'])[:700], t, 0
        bad = r['labels'].get('rd_ok/ungenerable', 0)
        n = 4000 / len(ALL.split(','))
        return seed, '', t, 1 - bad / n

    with build.pool() as p:
        for seed, msg, t, rate in p.map(one, range(lo, hi)):
            if msg:
                print(fam, seed, msg, flush=True)
            elif rate >= 0.6 and t < float(os.environ.get("MAXCOST", "9")):
                rows.append([seed, round(t, 1)])
    c = json.load(open(path)) if os.path.exists(path) else {}
    have = {s for s, _ in c.get(fam, [])}
    c[fam] = sorted(c.get(fam, []) + [r for r in rows if r[0] not in have])
    with open(path, 'w') as f:
        f.write('{\n' + ',\n'.join(' %s: %s' % (json.dumps(k), json.dumps(c[k])) for k in sorted(c)) + '\n}\n')
    print(fam, 'kept', len(rows), 'of', hi - lo, 'mean cost', sum(r[1] for r in rows) / max(1, len(rows)))
    shutil.rmtree(tmp)


main()
