"""Building schema programs from /repo's current tree, driving the generated
cases through them, and turning what comes back into a verdict and evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import shutil
import sys
import time

import build
import emit
import schema as schema_mod

VERIF = build.VERIF
OUT = os.path.join(VERIF, 'build')
RUNFLAGS = ['-O1', '-ftrivial-auto-var-init=pattern']
COV = ['-fsanitize-coverage=trace-cmp,trace-pc']   # steers generation in the thorough tier, see Guide in checks.cpp
SAN = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS',
       '-fno-omit-frame-pointer']
SAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0',
           'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=0'}


class Harness(Exception):
    """the machinery could not decide; never a verdict about s2s"""


class Violation(Exception):
    def __init__(self, message, replay):
        super().__init__(message)
        self.message, self.replay = message, replay


class Group:
    """schemas of some families, driven by one mix of checks under one build"""

    def __init__(self, fams, checks, cases, kinds=1, defs=(), flags=None, env=None, subs=False, twins=False,
                 extra=(), wrap=(), secs=None, label='', probe=None):
        self.fams, self.checks, self.cases, self.kinds = fams, checks, cases, kinds
        self.defs, self.flags, self.env, self.subs, self.twins = list(defs), flags, env or {}, subs, twins
        self.extra, self.wrap, self.secs, self.label = list(extra), list(wrap), secs, label
        self.probe = probe


def corpus():
    return json.load(open(os.path.join(VERIF, 'lib', 'corpus.json')))


def pick(fams, seed, scale):
    """[(name, schema, cost)] — a seeded choice from each family"""
    c = corpus()
    out = []
    for fam in sorted(fams):
        rows = list(c.get(fam, []))
        random.Random('%s/%s' % (seed, fam)).shuffle(rows)
        n = fams[fam]
        n = len(rows) if scale == 'all' else min(len(rows), max(1, int(round(n * scale))))
        for s, cost in rows[:n]:
            out.append(('%s%d' % (fam, s), build.corpus_schema(fam, s), cost))
    return out


def spread(items, k):
    """k lists of about equal cost, in a deterministic order"""
    bins = [[0.0, []] for _ in range(k)]
    for it in sorted(items, key=lambda x: (-x[2], x[0])):
        b = min(bins, key=lambda b: b[0])
        b[0] += it[2] - 1.4
        b[1].append(it)
    return [b[1] for b in bins if b[1]]


def tu_text(items, g):
    rows = []
    for name, s, _ in items:
        if g.twins:
            k = len(rows)
            rows.append((name, s, k + 1))
            rows.append((name + '~', schema_mod.respell(s, 'twin/' + name), k))
        else:
            rows.append((name, s, -1))
    return emit.tu(rows, subs=g.subs)


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.dir = os.path.join(OUT, '%s_%d' % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.words = None
        self.evals = self.nontrivial = self.cases = self.schemas = 0
        self.labels, self.samples, self.notes = {}, [], []
        self.counts = {}
        self.checks_obj = {}

    # ------------------------------------------------------------ bookkeeping
    def left(self, budget):
        return budget - (time.time() - self.t0)

    def add(self, evals, nontrivial, samples=(), labels=None):
        self.evals += evals
        self.nontrivial += nontrivial
        self.samples += list(samples)
        for k, v in (labels or {}).items():
            self.labels[k] = self.labels.get(k, 0) + v

    def violation(self, message, data):
        data = dict(data, property=self.prop, message=message)
        h = hashlib.sha256(json.dumps(data, sort_keys=True).encode()).hexdigest()[:12]
        d = os.path.join(OUT, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%s.json' % (self.prop, h))
        with open(p, 'w') as f:
            json.dump(data, f, indent=1)
        raise Violation(message, p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # --------------------------------------------------------------- building
    def compile_group(self, g, items, target, pool):
        """futures of executables for the group's schemas"""
        flags = (g.flags if g.flags is not None else RUNFLAGS) + build.flags_for(target) + \
            ['-DHV_KINDS=%d' % g.kinds] + g.defs
        ckey = ' '.join([f for f in (g.flags or []) if f.startswith('-fsan')])
        if g.wrap:
            ckey += ' -DHV_NO_NEW'
        if ckey not in self.checks_obj:
            o = '%s/checks%d.o' % (self.dir, len(self.checks_obj))
            cflags = ['-O2', '-I' + VERIF + '/cpp'] + (ckey.replace(',undefined', '').split() + ['-DHV_NO_NEW'] if ckey else [])   # the harness's own arithmetic is not what is judged
            self.checks_obj[ckey] = (o, pool.submit(build.compile_obj, VERIF + '/cpp/checks.cpp', o, cflags))
        bins = spread(items, build.JOBS)
        return [(b, pool.submit(self.one_tu, g, b, '%s/%s_%s_%d' % (self.dir, g.label, hashlib.md5(target.encode()).hexdigest()[:6], i), flags))
                for i, b in enumerate(bins)], self.checks_obj[ckey], flags

    def one_tu(self, g, items, base, flags):
        src = base + '.cpp'
        with open(src, 'w') as f:
            f.write(tu_text(items, g))
        ok, out = build.compile_obj(src, base + '.o', flags)
        return ok, out, base

    def link(self, g, base, checks_o):
        san = [f for f in (g.flags or []) if f.startswith('-fsan')]
        rc, out = build.run([build.CXX] + san + [base + '.o', checks_o, '-o', base + '.x'], timeout=300)
        if rc:
            raise Harness('link: ' + out[:400])
        os.unlink(base + '.o')
        return base + '.x'

    def split(self, g, items, base, flags, target, pool):
        """a translation unit did not compile: which schema is it?"""
        good = []
        futs = []
        for i, it in enumerate(items):
            futs.append((it, pool.submit(self.one_tu, g, [it], '%s_s%d' % (base, i), flags)))
        for it, f in futs:
            ok, out, b = f.result()
            if not ok:
                # compiled on the tree it was recorded on; make sure of it here
                ok2, out2, b = self.one_tu(g, [it], b, flags)
                if not ok2:
                    self.violation('a well-formed schema (%s) no longer compiles: %s' % (it[0], build.first_error(out2)),
                                   dict(kind='compile', name=it[0], schema=it[1], group=group_json(g), target=target))
            good.append(([it], b))
        return good

    # ---------------------------------------------------------------- running
    def drive(self, groups, budget, scale=1):
        """compile every group, then run every executable"""
        targets = build.targets()
        self.targets = targets
        kept = [g for g in groups if not g.probe or self.works(g)]
        self.notes += ['%s: does not run here, left out' % g.label for g in groups if g not in kept]
        groups = kept
        with build.pool() as pool:
            plans = []
            for i, g in enumerate(groups):
                g.label = g.label or 'g%d' % i
                if self.tier != 'quick' and not g.wrap:
                    g.defs = g.defs + COV
                items = pick(g.fams, '%d/%s/%s' % (self.seed, self.prop, g.label), scale)
                items += [(n, s, 3.5) for n, s in g.extra]
                self.schemas += len(items)
                for t in targets:
                    plans.append((g, t) + self.compile_group(g, items, t, pool))
            exes = []
            for g, t, futs, (co, cfut), flags in plans:
                for items, f in futs:
                    ok, out, base = f.result()
                    if ok:
                        exes.append((g, t, items, base, co, cfut))
                    else:
                        for its, b in self.split(g, items, base, flags, t, pool):
                            exes.append((g, t, its, b, co, cfut))
            for e in exes:
                ok, out = e[5].result()
                if not ok:
                    raise Harness('checks.cpp: ' + build.first_error(out))
            self.t_build = time.time() - self.t0
            jobs = []
            for i, (g, t, items, base, co, cfut) in enumerate(exes):
                jobs.append(pool.submit(self.run_exe, g, t, items, self.link(g, base, co), i, budget, len(exes)))
            bad = None
            for j in cf.as_completed(jobs):
                v = j.result()
                if v and bad is None:
                    bad = v
        if bad:
            raise bad

    def works(self, g):
        """does a small correct program run under this group's build here?"""
        p = self.dir + '/probe_' + g.label
        with open(p + '.cpp', 'w') as f:
            f.write(g.probe)
        if build.run([build.CXX] + build.STD + g.flags + [p + '.cpp', '-o', p], timeout=120)[0]:
            return False
        return all(build.run([p], timeout=30, env=dict(os.environ, **g.env))[0] == 0 for _ in range(3))

    def exe_cmd(self, g, exe, seed, secs):
        return g.wrap + [exe, '--checks', g.checks, '--seed', str(seed), '--cases', str(g.cases * self.mult()),
                         '--cpu', str(int(secs) + 60), '--secs', str(int(secs)), '--kinds', str(g.kinds), '--tmp', exe + '.tmp', '--dict', ','.join(map(str, self.dict()))]

    def dict(self):
        if self.words is None:
            self.words = build.literals()
        return self.words

    def mult(self):
        return 1 if self.tier == 'quick' else 8

    def run_exe(self, g, target, items, exe, idx, budget, total):
        waves = (total + build.JOBS - 1) // build.JOBS
        secs = g.secs or max(8, (budget - self.t_build) / waves)
        seed = int(hashlib.sha256(('%d/%s/%s/%d' % (self.seed, self.prop, g.label, idx)).encode()).hexdigest()[:12], 16)
        env = dict(os.environ, **g.env)
        rep = None
        for attempt in range(3):
            out = exe + '.json'
            if os.path.exists(out):
                os.unlink(out)
            rc, txt = build.run(self.exe_cmd(g, exe, seed, secs) + ['--out', out], timeout=secs * 2 + 200, env=env)
            try:
                rep = json.load(open(out))
            except (OSError, ValueError):
                rep = None
                last = 'no report: rc %d %s' % (rc, txt[-300:])
                continue
            if not rep['error']:
                break
            last = rep['error']
            if 'HARNESS' in last:
                break
            if 'does not reproduce' in last and attempt == 1:
                # died twice on the same seed: the history before the case matters
                try:
                    self.violation('the run dies: ' + last, dict(kind='run', names=[i[0] for i in items], schemas=[i[1] for i in items],
                                                                group=group_json(g), target=target, seed=seed, cases=g.cases * self.mult(), dict=self.dict()))
                except Violation as v:
                    return v
        if rep is None or rep['error']:
            raise Harness(last)
        self.cases += rep['cases']
        self.add(rep['evaluations'], rep['distinct_nontrivial'], rep['samples'], rep['labels'])
        f = rep['failure']
        if not f:
            os.unlink(exe)
            return None
        name = f['schema'].rstrip('~')
        it = next(i for i in items if i[0] == name)
        base = dict(kind='case', name=f['schema'], schema=it[1], group=group_json(g), target=target)
        try:
            for tape in (f['tape'], f['first']):
                fails = [self.replay_case(g, exe, f['check'], f['schema'], tape, env) for _ in range(3)]
                if all(x is not None for x in fails):
                    self.violation('%s on %s: %s' % (f['check'], f['schema'], fails[0]), dict(base, check=f['check'], tape=tape))
            # not on its own: does the whole run fail the same way again?
            for _ in range(2):
                rc, txt = build.run(self.exe_cmd(g, exe, seed, secs) + ['--out', exe + '.again'], timeout=secs * 2 + 200, env=env)
                r2 = json.load(open(exe + '.again'))
                if not r2['failure'] or r2['failure']['check'] != f['check'] or r2['failure']['schema'] != f['schema']:
                    break
            else:
                self.violation('%s on %s, after the cases before it: %s' % (f['check'], f['schema'], f['message']),
                               dict(base, kind='run', names=[i[0] for i in items], schemas=[i[1] for i in items], check=f['check'],
                                    seed=seed, cases=g.cases * self.mult(), dict=self.dict()))
        except Violation as v:
            return v
        self.notes.append('not reproducible, ignored: %s' % f['message'][:200])
        return None

    def replay_case(self, g, exe, check, name, tape, env):
        p = '%s.%d.tape' % (exe, len(tape))
        with open(p, 'w') as f:
            f.write('%s %s %s\n' % (check, name, ' '.join(map(str, tape))))
        rc, txt = build.run(g.wrap + [exe, '--replay', p, '--kinds', str(g.kinds), '--tmp', exe + '.tmp'], timeout=200, env=env)
        if rc == 1:
            lines = [l for l in txt.splitlines() if l.strip()]
            return (lines[-1] if lines else 'fails')[:600]
        return None

    # --------------------------------------------------------------- replaying
    def replay(self, data):
        """True if the recorded failure is still there"""
        g = Group({}, **data['group'])
        g.label = 'replay'
        k = data['kind']
        rows = list(zip(data['names'], data['schemas'])) if k == 'run' else [(data['name'].rstrip('~'), data['schema'])]
        items = [(n, s, 1) for n, s in rows]
        with build.pool() as pool:
            flags = (g.flags if g.flags is not None else RUNFLAGS) + build.flags_for(data['target']) + ['-DHV_KINDS=%d' % g.kinds] + g.defs
            self.compile_group(g, [], data['target'], pool)
            co, cfut = list(self.checks_obj.values())[0]
            ok, out, base = self.one_tu(g, items, self.dir + '/replay', flags)
            if not cfut.result()[0]:
                raise Harness('checks.cpp does not compile')
        if not ok:
            print('does not compile: ' + build.first_error(out))
            return True
        if k == 'compile':
            return False
        exe = self.link(g, base, co)
        env = dict(os.environ, **g.env)
        if k == 'case':
            m = self.replay_case(g, exe, data['check'], data['name'], data['tape'], env)
            print(m or 'holds')
            return m is not None
        rc, txt = build.run(g.wrap + [exe, '--checks', g.checks, '--seed', str(data['seed']), '--cases', str(data['cases']), '--cpu', '600',
                             '--kinds', str(g.kinds), '--tmp', exe + '.tmp', '--dict', ','.join(map(str, data.get('dict', []))), '--out', exe + '.json'], timeout=900, env=env)
        r = json.load(open(exe + '.json'))
        print((r['failure'] or {}).get('message') or r['error'] or 'holds')
        return bool(r['failure'] or r['error'])


def group_json(g):
    return dict(checks=g.checks, cases=g.cases, kinds=g.kinds, defs=g.defs, flags=g.flags, env=g.env, subs=g.subs, twins=g.twins, wrap=g.wrap)
