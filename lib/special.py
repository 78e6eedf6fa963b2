"""Properties that need more than driving schema programs: ceilings under other
build-wide defaults (C12), evaluation in the compiler (C17), programs that must
not compile (C18), and the single header with its generator (C23)."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys

import build
import config
import core
import emit
import reject
from core import Group, Violation

VERIF = build.VERIF


# ----------------------------------------------------------------------- C12
def c12_groups(seed):
    r = random.Random('c12/%d' % seed)
    small = r.choice([1, 5, 16, 24, 33, 64, 100, 255, 256, 1000])
    huge = '18446744073709551615ul'
    return [
        Group(dict(ceil=26, lens=4, cond=3, comp=3, nest=2, general=3), 'rd_len:6,rd_mut:1,rd_ok:1', 40000, label='declared'),
        Group(dict(ceil=4, lens=8, comp=4, cond=3, union=2), 'rd_len:5,rd_mut:1,rd_ok:1', 30000, label='default%d' % small,
              defs=['-DS2S_DEFAULT_MAX_BYTES=%d' % small, '-DHV_DEFAULT_CEILING=%dul' % small]),
        Group(dict(ceil=4, lens=3), 'rd_len:3,rd_mut:1', 20000, label='unbounded',
              defs=['-DS2S_DEFAULT_MAX_BYTES=%s' % huge, '-DHV_DEFAULT_CEILING=%s' % huge]),
    ]


def run_c12(r, budget):
    gs = c12_groups(r.seed)
    r.drive(gs, budget, 1 if r.tier == 'quick' else 'all')
    return rules_of(gs)


def rules_of(groups):
    names = []
    for g in groups or []:
        for c in g.checks.split(','):
            n = c.split(':')[0]
            if n not in names:
                names.append(n)
    return '; '.join('%s: %s' % (n, config.RULES[n]) for n in names)


# ----------------------------------------------------------------------- C17
CT = ['-O0', '-fconstexpr-ops-limit=4000000000', '-fconstexpr-loop-limit=100000000', '-fmax-errors=4']
RULE17 = ('a case is a wire (valid, mutated, cut or random) or a value (valid or perturbed, sometimes into a full stream) with the result the '
          'model gives it; the cast is a static_assert evaluated by the compiler and the same cast runs at run time on two kinds of stream; '
          'non-trivial when bytes go in or come out')


def ct_compile(r, src, flags):
    rc, out = None, ''
    for _ in range(2):
        rc, out = build.run([build.CXX] + build.STD + CT + flags + ['-c', src, '-o', src + '.o'], timeout=700)
        if not build.compiler_trouble(rc, out):
            return rc, out
    raise core.Harness('compiler trouble: %s' % out[:300])


def ct_judge(r, items, cases, base, target):
    """None, or (case id, message)"""
    src = base + '.cpp'
    with open(src, 'w') as f:
        f.write(emit.ct_tu([(n, s) for n, s, _ in items], cases))
    rc, out = ct_compile(r, src, build.flags_for(target))
    if rc:
        # name the case: by its message, or by the line of its assertion
        m = re.search(r'HVCASE (\d+)', out)
        if m and 'static assertion failed: HVCASE' in out:
            return int(m.group(1)), 'the compiler evaluates it to something else than the run-time result'
        lines = open(src).read().splitlines()
        for m in re.finditer(re.escape(src) + r':(\d+):', out):
            l = lines[int(m.group(1)) - 1]
            c = re.search(r'"HVCASE (\d+)"', l)
            if c:
                return int(c.group(1)), 'the compiler cannot evaluate it: ' + build.first_error(out)
        return -1, 'does not compile: ' + build.first_error(out)
    rc, out = build.run([build.CXX, src + '.o', '-o', src + '.x'])
    if rc:
        raise core.Harness('link: ' + out[:300])
    rc, out = build.run([src + '.x'], timeout=120)
    if rc:
        m = re.search(r'HVRUN (\d+) (\w+)', out)
        if m:
            return int(m.group(1)), 'at run time (%s stream) the result is not the one the compiler computes' % m.group(2)
        return -1, 'the program dies at run time (%d)' % rc
    return None


def dump_cases(r, items, n, seed, pool_obj):
    base = '%s/dump%d' % (r.dir, seed % 1000000007)
    with open(base + '.cpp', 'w') as f:
        f.write(emit.model_tu([(nm, s) for nm, s, _ in items]))
    ok, out = build.compile_obj(base + '.cpp', base + '.o', ['-O0', '-I' + VERIF + '/cpp'])
    if not ok:
        raise core.Harness('model program: ' + build.first_error(out))
    co, fut = pool_obj
    if not fut.result()[0]:
        raise core.Harness('checks.cpp does not compile')
    rc, out = build.run([build.CXX, base + '.o', co, '-o', base + '.x'])
    if rc:
        raise core.Harness('link: ' + out[:300])
    rc, out = build.run([base + '.x', '--dump', str(n), '--seed', str(seed), '--out', base + '.txt'], timeout=300)
    if rc:
        raise core.Harness('dump: ' + out[:300])
    return list(enumerate(open(base + '.txt').read().splitlines()))


def checks_obj(r, pool):
    o = r.dir + '/checks.o'
    return o, pool.submit(build.compile_obj, VERIF + '/cpp/checks.cpp', o, ['-O2', '-I' + VERIF + '/cpp'])


def run_c17(r, budget):
    ct = json.load(open(os.path.join(VERIF, 'lib', 'ct.json')))
    fams = dict(general=12, con=5, magic=4, lens=5, cond=4, comp=4, union=6, maybe=5, wide=4, ceil=3, nest=4, float=2, tiny=2)
    items = []
    for fam in sorted(fams):
        rows = list(ct.get(fam, []))
        random.Random('%d/ct/%s' % (r.seed, fam)).shuffle(rows)
        for s in rows[:fams[fam] if r.tier == 'quick' else 1000]:
            items.append(('%s%d' % (fam, s), build.corpus_schema(fam, s), 4.0))
    per = 14 if r.tier == 'quick' else 60
    r.targets = build.targets()
    r.schemas = len(items)
    bins = core.spread(items, max(build.JOBS, len(items) // 7))
    with build.pool() as pool:
        co = checks_obj(r, pool)

        def one(i, b):
            cases = dump_cases(r, b, per, r.seed * 1000 + i, co)
            res = []
            for t in r.targets:
                res.append((t, ct_judge(r, b, cases, '%s/ct%d%s' % (r.dir, i, t), t)))
            return b, cases, res
        futs = [pool.submit(one, i, b) for i, b in enumerate(bins)]
        bad = None
        for f in futs:
            b, cases, res = f.result()
            keys = set()
            for cid, line in cases:
                p = line.split()
                name = b[int(p[1])][0]
                keys.add((name, line))
                k = ('read' if p[0] == 'R' else 'write') + '/' + ('ok' if p[3] == '1' else 'error %s' % p[4])
                r.labels[k] = r.labels.get(k, 0) + 1
            r.evals += 3 * len(cases) * len(res)
            r.nontrivial += len([1 for _, l in keys if len(l.split()) > 14])
            r.cases += len(cases)
            r.samples += ['%s %s' % (b[int(l.split()[1])][0], l[:200]) for _, l in cases[:3]]
            for t, v in res:
                if v and bad is None:
                    bad = (b, cases, t, v)
        if bad:
            b, cases, t, (cid, msg) = bad
            if cid < 0:
                # which schema is it?
                for it in b:
                    v = ct_judge(r, [it], [], r.dir + '/alone', t)
                    if v:
                        r.violation('%s: %s' % (it[0], v[1]), dict(kind='x-ct', name=it[0], schema=it[1], line='', target=t))
                raise core.Harness(msg)
            line = dict(cases)[cid]
            it = b[int(line.split()[1])]
            p = line.split()
            p[1] = '0'
            line = ' '.join(p)
            v = ct_judge(r, [it], [(0, line)], r.dir + '/alone', t)
            if not v:
                raise core.Harness('not reproducible alone: ' + msg)
            r.violation('%s: %s: %s' % (it[0], line[:300], v[1]), dict(kind='x-ct', name=it[0], schema=it[1], line=line, target=t))
    return RULE17


# ----------------------------------------------------------------------- C18
RULE18 = ('a case is one mistake put into a well-formed schema (or the schema itself); the compiler must reject the first and accept the '
          'second; every case is non-trivial and distinct by its program text')
FAMS18 = ['general', 'tiny', 'lens', 'cond', 'comp', 'union', 'maybe', 'con', 'ceil', 'nest', 'magic', 'wide', 'manyalt']


def run_c18(r, budget):
    n = 1000 if r.tier == 'quick' else 8000
    per = 8 if r.tier == 'quick' else 24
    c = core.corpus()
    rows = [(fam, s) for fam in FAMS18 for s, cost in c.get(fam, []) if cost < (12 if fam == 'manyalt' else 6)]
    rnd = random.Random('c18/%d' % r.seed)
    rnd.shuffle(rows)
    seen, todo, goods, nears = {}, [], [], []
    for fam, s in rows:
        if len(todo) >= n:
            break
        sch = build.corpus_schema(fam, s)
        rr = random.Random('%d/%s%d' % (r.seed, fam, s))
        ms = reject.mistakes(sch, rr)
        kinds = sorted({k for k, _ in ms}, key=lambda k: (seen.get(k, 0), rr.random()))
        for k in (kinds + kinds)[:per]:
            go = rr.choice([g for kk, g in ms if kk == k])
            good, bad, text = go()
            seen[k] = seen.get(k, 0) + 1
            todo.append(('%s%d' % (fam, s), k, text, bad.program()))
        goods.append(('%s%d' % (fam, s), reject.Bad(sch).program()))
        if len(goods) % 2:
            text, prog = reject.near(sch, rr)
            nears.append(('%s%d with %s' % (fam, s, text), prog))
            r.labels['close to a mistake'] = r.labels.get('close to a mistake', 0) + 1
            if r.labels['close to a mistake'] <= 3:
                r.samples.append('accepted: ' + nears[-1][0])
    # and a few that are merely long
    for fam in ('bulk', 'huge'):
        for s, _ in rnd.sample(c.get(fam, []), min(len(c.get(fam, [])), 2 if r.tier == 'quick' else 6)):
            goods.insert(0, ('%s%d' % (fam, s), reject.Bad(build.corpus_schema(fam, s)).program()))
    r.targets = build.targets()
    goods += nears
    # ill-formed ones share programs too, at most one of a schema in each
    groups = [[]]
    rnd.shuffle(todo)
    for m in todo:
        g = next((g for g in groups if len(g) < 32 and all(x[0] != m[0] for x in g)), None)
        if g is None:
            groups.append([])
            g = groups[-1]
        g.append(m)
    r.schemas = len(goods)
    with build.pool() as pool:
        for t in r.targets:
            d = '%s/%s' % (r.dir, t)
            os.makedirs(d)
            flags = ['-O0'] + build.flags_for(t)
            rc, out = build.run([build.CXX] + build.STD + flags + ['-x', 'c++-header', VERIF + '/cpp/harness.hpp', '-o', d + '/harness.hpp.gch'], timeout=300)
            if rc:
                if build.compiler_trouble(rc, out):
                    raise core.Harness('precompiled header: ' + out[:300])
                r.violation('the library does not compile: ' + build.first_error(out), dict(kind='x-accept', name='-', program=reject.PROLOGUE, target=t))
            flags = ['-I' + d] + flags

            def judge(i, kind, text):
                p = '%s/%s%d.cpp' % (d, kind, i)
                with open(p, 'w') as f:
                    f.write(text)
                return build.syntax(p, flags)
            # well-formed ones share programs, six at a time
            gf = []
            for i in range(0, len(goods), 6):
                gf.append((goods[i:i + 6], pool.submit(judge, i, 'g', merge([g for _, g in goods[i:i + 6]]))))
            bf = [(g, pool.submit(rejects, '%s/b%d.cpp' % (d, i), [m[3] for m in g], flags)) for i, g in enumerate(groups)]
            for gs, f in gf:
                ok, out = f.result()
                if not ok:
                    for j, (name, text) in enumerate(gs):
                        ok1, out1 = judge(10000 + j, 'a', text)
                        if not ok1:
                            r.violation('well-formed schema %s is rejected: %s' % (name, build.first_error(out1)),
                                        dict(kind='x-accept', name=name, program=text, target=t))
                    # each alone compiles: what failed is having them in one program (two of the same type, say)
                r.evals += len(gs)
                r.nontrivial += len(gs)
                r.labels['accepted'] = r.labels.get('accepted', 0) + len(gs)
            for g, f in bf:
                for j, ((name, k, text, prog), msg) in enumerate(zip(g, f.result())):
                    if not msg:
                        # no complaint about this one among the others: ask for it alone
                        ok, out = judge(20000 + j, 'b', prog)
                        if ok:
                            r.violation('ill-formed schema accepted (%s): %s: %s' % (name, k, text), dict(kind='x-reject', name=name, mistake=text, program=prog, target=t))
                        msg = build.first_error(out)
                        r.labels['judged alone'] = r.labels.get('judged alone', 0) + 1
                    r.evals += 1
                    r.labels['rejected/' + k] = r.labels.get('rejected/' + k, 0) + 1
                    if r.labels['rejected/' + k] == 1:
                        r.samples.append('%s %s: %s -> %s' % (k, name, text, msg[:120]))
            r.nontrivial += len({m[3] for m in todo})
    r.cases = len(todo) + len(goods)
    return RULE18


def rejects(path, progs, flags):
    """per program, the complaint the compiler has about it when it sees them all ('' if none)"""
    out, spans, line = [reject.PROLOGUE], [], reject.PROLOGUE.count('\n') + 1
    for i, p in enumerate(progs):
        body = rename(p, i)
        spans.append((line, line + body.count('\n')))
        line += body.count('\n') + 1
        out.append(body + '\n')
    with open(path, 'w') as f:
        f.write(''.join(out))
    p = subprocess.Popen([build.CXX] + build.STD + flags + ['-fsyntax-only', '-fmax-errors=0', '-fno-diagnostics-show-caret', '-fdiagnostics-color=never', path],
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    where = re.compile(r':(\d+):\d+:\s+(?:error: (.*)|.*required from)')
    name = (path + ':').encode()
    hits = {}
    for raw in p.stderr:
        raw = raw[:4000]
        if not raw.lstrip().startswith(name):
            continue
        m = where.match(raw.lstrip()[len(name) - 1:].decode('utf-8', 'replace'))
        if m:
            hits.setdefault(int(m.group(1)), m.group(2) or 'in an instantiation')
    p.wait()
    return [next((hits[n] for n in sorted(hits) if a <= n <= b), '') for a, b in spans]


def rename(p, i):
    return p[len(reject.PROLOGUE):].replace('P::', 'P%d::' % i).replace('namespace P ', 'namespace P%d ' % i).replace('bool use(', 'bool use%d(' % i)


def merge(progs):
    out = [reject.PROLOGUE]
    for i, p in enumerate(progs):
        out.append(rename(p, i))
    return '\n'.join(out)


# ----------------------------------------------------------------------- C23
RULE23 = ('schema cases as in C01-C14 on the single header (a failure counts only if the headers under include behave differently on the same '
          'case); plus generated trees of headers, amalgamated and compared after preprocessing with what the preprocessor makes of the tree '
          'itself; non-trivial when a tree has at least three files')
MIX23 = dict(general=8, nest=3, con=3, lens=3, cond=2, comp=2, union=4, maybe=3, wide=3, magic=3, ceil=2, float=2, tiny=1)
AMALGAM = build.REPO + '/scripts/amalgam.py'


def amalgamate(root, entry, out, hashseed='0'):
    env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE='1')
    rc, txt = build.run([sys.executable, AMALGAM, root, entry, out], timeout=60, env=env)
    return rc == 0 and os.path.exists(out)


LOCAL = r'^[ \t]*#[ \t]*include[ \t]*"([^"]+)"'


def gen_tree(seed):
    """{path: text}, entry — an acyclic include tree with system includes"""
    r = random.Random(seed)
    n = r.choice([1, 2, 3, 4, 5, 6, 8, 10, 14])
    dirs = ['', 'a/', 'b/', 'a/c/', 'lib/x/']
    names = []
    for i in range(n):
        p = r.choice(dirs) + r.choice(['h', 'fwd', 'impl', 'a_b', 'types'])
        bare = p + '.' + r.choice(['hpp', 'hpp', 'h'])
        # the same file name in several directories, as often as not
        names.append(bare if r.random() < 0.5 and bare not in names else p + '%d.%s' % (i, r.choice(['hpp', 'hpp', 'h'])))
    files = {}
    for i, p in enumerate(names):
        deps = [j for j in range(i) if r.random() < min(1.0, 2.2 / max(1, i))]
        if r.random() < 0.7:
            r.shuffle(deps)
        g = '_G%d_' % i
        L = ['#ifndef %s' % g, '#define %s' % g, '']
        if r.random() < 0.5:
            L.append('// header %d: #include "not_an_include.hpp" in a comment' % i)
        inc = []
        for j in deps:
            inc.append(r.choice(['#include "%s"%s', '#include "%s"%s', '  #include  "%s"%s', '# include "%s"%s', '#include"%s"%s']) % (
                os.path.relpath(names[j], os.path.dirname(p) or '.'), r.choice(['', '', '', ' ', '\t', ' // for %d' % j, '  /* %d */' % j])))
        for s in r.sample(['vector', 'array', 'string', 'cstdint', 'type_traits', 'optional'], r.randrange(4)):
            inc.append(r.choice(['#include <%s>', '#include <%s>', '#include  <%s>', '  #include <%s>', '#include<%s>', '# include <%s>', '#include <%s> // std', '#include <%s>  ']) % s)
        r.shuffle(inc)
        cut = r.randint(0, len(inc)) if r.random() < 0.2 else len(inc)
        L += inc[:cut]
        if r.random() < 0.15:
            inc.append('#include <%s>' % r.choice(['sys/types.h', 'stdint.h']))
        body = ['struct begin_%d;' % i, 'namespace n%d {' % r.randrange(3)]
        for k in range(r.randint(1, 4)):
            uses = ' + '.join(['%d' % r.randrange(100)] + ['v%d_0' % j for j in deps if r.random() < 0.7])
            body.append('%sstatic const char* const s%d_%d = "%s"; enum { v%d_%d = 1 };' % (
                ' ' * r.randrange(4), i, k, r.choice(['x', '// no comment', 'a\\\\b', 'é', '\\"q\\"', 'a/*b*/c', '#include', '#include <none>', 'tab\tin', '  two  blanks ']), i, k))
            body.append('inline int f%d_%d() { return %s; }' % (i, k, uses))
        body.append('}')
        if cut < len(inc):
            body = inc[cut:] + body
        L += body
        if r.random() < 0.6:
            L += ['#define M%d(x) ((x) + %d)' % (i, i), '#if defined(_G%d_) && M%d(1) > 0' % (i, i), 'struct t%d { int a; };' % i, '#endif']
        L.append('struct end_%d;' % i)
        L.append('#endif' + r.choice([' // ' + g, '']))
        if r.random() < 0.15:
            # text after the guard: kept, and kept once (the file is inlined once)
            L.append('/* tail of %d */' % i)
        files[p] = '\n'.join(L) + r.choice(['\n', '\n\n', ''])
    # the entry reaches most of it
    entry = 'entry.hpp'
    top = [j for j in range(n) if r.random() < 0.6] or [n - 1]
    L = ['#ifndef _ENTRY_', '#define _ENTRY_'] + ['#include "%s"' % names[j] for j in top] + ['#include <array>', 'struct entry_marker {};', '#endif', '']
    files[entry] = '\n'.join(L)
    return files, entry


def blanks(text):
    """white space made one blank, but not in strings"""
    return re.sub(r'"(?:\\.|[^"\\])*"|\s+', lambda m: m.group(0) if m.group(0)[0] == '"' else ' ', text).strip()


def preprocess(path, incs, strip=True):
    p = subprocess.run([build.CXX, '-E', '-P', '-nostdinc', '-w', '-x', 'c++'] + ['-I' + i for i in incs] + [path], capture_output=True, timeout=60)
    return p.returncode, blanks(p.stdout.decode('utf-8', 'replace'))


def tree_check(files, entry, d):
    """None or what is wrong with the amalgamation of this tree"""
    shutil.rmtree(d, ignore_errors=True)
    root = d + '/tree'
    sysd = d + '/sys'
    for p, t in files.items():
        os.makedirs(os.path.dirname(os.path.join(root, p)), exist_ok=True)
        with open(os.path.join(root, p), 'w', encoding='utf-8') as f:
            f.write(t)
    os.makedirs(sysd)
    os.makedirs(sysd + '/sys')
    for s in ['vector', 'array', 'string', 'cstdint', 'type_traits', 'optional', 'stdint.h', 'sys/types.h']:
        with open(os.path.join(sysd, s), 'w') as f:
            f.write('#define HAVE_%s 1\n' % re.sub(r'\W', '_', s))
    e = os.path.join(root, entry)
    o1, o2 = d + '/one.hpp', d + '/two.hpp'
    if not amalgamate(root, e, o1, '1'):
        return 'no output'
    if not amalgamate(root, e, o2, '77'):
        return 'no output the second time'
    t1 = open(o1, encoding='utf-8').read()
    if t1 != open(o2, encoding='utf-8').read():
        return 'two runs give different output'
    iso = d + '/iso'
    os.makedirs(iso)
    shutil.copy(o1, iso + '/one.hpp')
    rc0, want = preprocess(e, [sysd])
    rc1, got = preprocess(iso + '/one.hpp', [sysd])
    if rc0:
        raise core.Harness('a generated tree does not preprocess')
    if rc1:
        return 'the output does not preprocess on its own'
    cw, cg = chunks(want), chunks(got)
    order = [i for i, _ in cg[0]]
    if len(set(order)) != len(order):
        return 'a header is inlined twice: %s' % order
    if sorted(order) != sorted(i for i, _ in cw[0]):
        return 'headers inlined: %s, headers reached: %s' % (order, [i for i, _ in cw[0]])
    for p, t in files.items():
        m = re.search(r'struct begin_(\d+);', t)
        for inc in re.findall(LOCAL, t, re.M):
            dep = re.search(r'struct begin_(\d+);', files[os.path.normpath(os.path.join(os.path.dirname(p), inc))])
            if m and dep and int(m.group(1)) in order and order.index(int(dep.group(1))) > order.index(int(m.group(1))):
                return 'header %s comes before header %s, which it includes' % (m.group(1), dep.group(1))
    if (dict(cw[0]), cw[1]) != (dict(cg[0]), cg[1]):
        i = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
        return 'the output preprocesses to other text: ...%s... instead of ...%s...' % (got[max(0, i - 30):i + 60], want[max(0, i - 30):i + 60])
    # the system includes the reached files ask for are still there
    reach = {i for p, t in files.items() for i in re.findall(r'^\s*#\s*include\s*<(\w+)>', t, re.M) if reachable(files, entry, p)}
    have = set(re.findall(r'^\s*#\s*include\s*<(\w+)>', t1, re.M))
    if not reach <= have:
        return 'system includes lost: %s' % sorted(reach - have)
    return None


def chunks(text):
    """([(file number, its text)] in order, what is outside them)"""
    out = [(int(i), t) for i, t in re.findall(r'struct begin_(\d+);(.*?)struct end_\1;', text)]
    return out, blanks(re.sub(r'struct begin_(\d+);(.*?)struct end_\1;', ' ', text))


def reachable(files, entry, path):
    seen, todo = set(), [entry]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        for i in re.findall(LOCAL, files[p], re.M):
            todo.append(os.path.normpath(os.path.join(os.path.dirname(p), i)))
    return path in seen


def shrink_tree(files, entry, d):
    """drop files nobody includes, and lines, while it still fails"""
    msg = tree_check(files, entry, d)
    again = True
    while again:
        again = False
        for p in sorted(files):
            for k, l in enumerate(files[p].splitlines()):
                if l.startswith('#if') or l.startswith('#endif') or l.startswith('#define _') or not l.strip():
                    continue
                t = files[p].splitlines()
                del t[k]
                f2 = dict(files, **{p: '\n'.join(t) + '\n'})
                for q in sorted(f2):
                    if q != entry and not reachable(f2, entry, q):
                        f2.pop(q)
                try:
                    m = tree_check(f2, entry, d)
                except (core.Harness, KeyError):
                    m = None
                if m:
                    files, msg, again = f2, m, True
                    break
            if again:
                break
    return files, msg


def same_on(r, data, target, tmp):
    """does the recorded case also fail on this form of the library?"""
    sub = core.Run(r.prop, r.tier, r.seed)
    try:
        import contextlib
        import io
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            bad = sub.replay(dict(data, target=target))
        return bad, buf.getvalue().strip()
    finally:
        sub.close()


def run_c23(r, budget):
    n = 60 if r.tier == 'quick' else 900

    def tree(i):
        files, entry = gen_tree('%d/%d' % (r.seed, i))
        d = '%s/tree%d' % (r.dir, i)
        m = tree_check(files, entry, d)
        if m:
            files, m = shrink_tree(files, entry, d)
        shutil.rmtree(d, ignore_errors=True)
        return files, entry, m
    with build.pool() as pool:
        keys = set()
        for files, entry, m in pool.map(tree, range(n)):
            r.evals += 1
            r.cases += 1
            if len(files) >= 3:
                keys.add(json.dumps(files, sort_keys=True))
            if len(r.samples) < 2:
                r.samples.append('tree of %d files: %s' % (len(files), sorted(files)))
            if m:
                r.violation('amalgamation: ' + m, dict(kind='x-tree', files=files, entry=entry))
        r.nontrivial += len(keys)
        r.labels['trees'] = n
    # the header alone, from a place where nothing else of the project is
    alone = r.dir + '/alone'
    os.makedirs(alone)
    shutil.copy(build.REPO + '/single_header/s2s.hpp', alone + '/s2s.hpp')
    targets = ['copy:' + alone + '/s2s.hpp']
    fresh = r.dir + '/fresh'
    os.makedirs(fresh)
    if not amalgamate(build.REPO + '/include', build.REPO + '/include/s2s.hpp', fresh + '/s2s.hpp'):
        r.violation('amalgamating the sources gives nothing', dict(kind='x-fresh'))
    if open(fresh + '/s2s.hpp', 'rb').read() != open(alone + '/s2s.hpp', 'rb').read():
        targets += ['copy:' + fresh + '/s2s.hpp', 'include']
        r.notes.append('the sources do not amalgamate to the shipped header: both were driven')
    g = Group(MIX23, 'rd_ok:2,rd_mut:3,wr_ok:2,wr_bad:3,rd_len:1,wr_fault:1,dual:1,sizes:1,pol:1', 40000, label='single', subs=False)
    old = build.targets
    try:
        build.targets = lambda: targets
        r.drive([g], budget, 1 if r.tier == 'quick' else 'all')
    except Violation as v:
        # only a difference between the two forms is this property's business
        data = json.load(open(v.replay))
        base = 'include' if data['target'] != 'include' else 'single'
        bad, txt = same_on(r, data, base, None)
        if bad:
            r.notes.append('%s, and the same with the other form: not a difference between them' % v.message[:200])
            return RULE23
        if data['target'].startswith('copy:'):
            data['target'] = 'fresh' if data['target'].startswith('copy:' + fresh) else 'single'
        r.violation('only on %s: %s' % (data['target'], v.message), {k: x for k, x in data.items() if k not in ('message', 'property')})
    finally:
        build.targets = old
    return RULE23


# --------------------------------------------------------------------- replay
def replay(r, data):
    k = data['kind']
    t = data.get('target', 'include')
    if k == 'x-ct':
        cases = [(0, data['line'])] if data['line'] else []
        v = ct_judge(r, [(data['name'], data['schema'], 1)], cases, r.dir + '/alone', t)
        print(v[1] if v else 'holds')
        return bool(v)
    if k in ('x-reject', 'x-accept'):
        p = r.dir + '/p.cpp'
        with open(p, 'w') as f:
            f.write(data['program'])
        ok, out = build.syntax(p, ['-O0'] + build.flags_for(t))
        print('compiles' if ok else build.first_error(out))
        return ok if k == 'x-reject' else not ok
    if k == 'x-tree':
        m = tree_check(data['files'], data['entry'], r.dir + '/tree')
        print(m or 'holds')
        return bool(m)
    if k == 'x-fresh':
        return not amalgamate(build.REPO + '/include', build.REPO + '/include/s2s.hpp', r.dir + '/s2s.hpp')
    raise core.Harness('unknown replay kind ' + k)


RUN = {'C12': run_c12, 'C17': run_c17, 'C18': run_c18, 'C23': run_c23}
RULE = {'C17': RULE17, 'C18': RULE18, 'C23': RULE23}
