"""Compiling schema translation units against the current tree of /repo."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HV_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'gen'))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import emit      # noqa: E402
import schema    # noqa: E402
from profiles import PROFILES  # noqa: E402

CXX = 'g++-14'
STD = ['-std=c++23', '-w', '-g0']
JOBS = int(os.environ.get('HV_JOBS', '8'))


def corpus_schema(fam, seed):
    tag, prof = PROFILES[fam]
    s = schema.generate('%s/%d' % (fam, seed), prof)
    if fam in ('odd', 'broad', 'longmag', 'cases', 'slot', 'shared', 'elems', 'kin'):
        getattr(schema, fam)(s, seed)
    for r in s['recs']:
        r['fields'][0]['id'] += '%s%d' % (tag, seed)
    return s


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, x in os.walk(p) for f in x)
        for f in fs:
            h.update(os.path.relpath(f, REPO).encode() + b'\0')
            try:
                h.update(open(f, 'rb').read())
            except OSError:
                h.update(b'?')
            h.update(b'\0')
    return h.hexdigest()


def include_hash():
    return tree_hash([REPO + '/include'])


def single_hash():
    return tree_hash([REPO + '/single_header/s2s.hpp'])


def targets():
    """Which copies of the library a check drives. The two shipped forms are the
    same code on the unchanged tree (recorded in targets.json); when just one of
    them is changed that one is driven, when both are, both (one suffices if the
    header is what the sources amalgamate to)."""
    try:
        rec = json.load(open(os.path.join(VERIF, 'lib', 'targets.json')))
    except OSError:
        rec = {}
    inc, one = include_hash() != rec.get('include'), single_hash() != rec.get('single')
    if one and not inc:
        return ['single']
    if one and inc:
        try:
            out = os.path.join(VERIF, 'build', 'fresh_%d.hpp' % os.getpid())
            os.makedirs(os.path.dirname(out), exist_ok=True)
            p = subprocess.run([sys.executable, REPO + '/scripts/amalgam.py', REPO + '/include', REPO + '/include/s2s.hpp', out],
                               capture_output=True, timeout=60)
            same = p.returncode == 0 and open(out, 'rb').read() == open(REPO + '/single_header/s2s.hpp', 'rb').read()
            os.unlink(out)
        except Exception:
            same = False
        return ['include'] if same else ['include', 'single']
    return ['include']


def literals(raw=False):
    """Numbers written in the library's code, the unusual ones several times over:
    what the generators should also try. Steers only; no verdict depends on it."""
    import re
    count = {}
    files = [os.path.join(d, f) for d, _, fs in os.walk(REPO + '/include') for f in fs] + [REPO + '/single_header/s2s.hpp']
    for p in sorted(files):
        try:
            t = open(p, errors='replace').read()
        except OSError:
            continue
        t = re.sub(r'//[^\n]*|/\*.*?\*/', '', t, flags=re.S)
        here = {}
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|0[bB][01']+|\d[\d']*)[uUlLzZ]*\b", t):
            w = m.group(1).replace("'", '')
            try:
                v = int(w, 8) if len(w) > 1 and w.isdigit() and w[0] == '0' else int(w, 0)
            except ValueError:
                continue
            here[v] = here.get(v, 0) + 1
        for m in re.finditer(r"(?<![\w.])(\d+|0[xX][0-9a-fA-F]+)[uUlLzZ]*\s*(<<|\*)\s*(\d+)[uUlLzZ]*\b(?:\s*(\*)\s*(\d+)[uUlLzZ]*\b)?", t):
            try:
                a, b = int(m.group(1), 0), int(m.group(3))
            except ValueError:
                continue
            v = a * b if m.group(2) == '*' else a << b if b < 64 else 0
            if m.group(4):
                v *= int(m.group(5))
            here[v] = here.get(v, 0) + 1
        for m in re.finditer(r"(?<!\w)'([^'\\\n])'", t):
            here[ord(m.group(1))] = here.get(ord(m.group(1)), 0) + 1
        for v, n in here.items():
            count[v] = max(count.get(v, 0), n) if 'single_header' in p else count.get(v, 0) + n
    if raw:
        return count
    try:
        known = {int(k): n for k, n in json.load(open(os.path.join(VERIF, 'lib', 'targets.json'))).get('literals', {}).items()}
    except (OSError, ValueError):
        known = {}
    out = []
    for v, n in sorted(count.items()):
        if 2 < v < 1 << 64:
            out += [v] * (1 + 8 * min(2, max(0, n - known.get(v, 0))))
    return out[:400]


def flags_for(target):
    if target.startswith('copy:'):
        return ['-DHV_SINGLE="%s"' % target[5:], '-I' + VERIF + '/cpp']
    if target == 'fresh':
        out = os.path.join(VERIF, 'build', 'fresh_%d.hpp' % os.getpid())
        subprocess.run([sys.executable, REPO + '/scripts/amalgam.py', REPO + '/include', REPO + '/include/s2s.hpp', out], capture_output=True, timeout=60)
        return ['-DHV_SINGLE="%s"' % out, '-I' + VERIF + '/cpp']
    if target == 'single':
        return ['-DHV_SINGLE="%s/single_header/s2s.hpp"' % REPO, '-I' + VERIF + '/cpp']
    return ['-I' + REPO + '/include', '-I' + VERIF + '/cpp']


def run(cmd, timeout=None, cwd=None, env=None):
    """(returncode, output); the output trimmed, since s2s diagnostics are huge"""
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = -1000, e.stdout or b''
    txt = out[:200000].decode('utf-8', 'replace')
    return rc, '\n'.join(l[:300] for l in txt.splitlines()[:60])


def compiler_trouble(rc, out):
    """the compiler died rather than rejected the program"""
    return rc < 0 or rc > 1 or re.search(r'internal compiler error|Killed|out of memory|No space left|cannot allocate|terminated signal', out) is not None


def first_error(out):
    for l in out.splitlines():
        if 'error:' in l or 'static assertion' in l:
            return re.sub(r'^.*?(error:)', r'\1', l)[:240]
    return (out.splitlines() or ['?'])[0][:240]


class CompileError(Exception):
    pass


def compile_obj(src, obj, flags, timeout=600):
    for attempt in range(3):
        rc, out = run([CXX] + STD + flags + ['-c', src, '-o', obj], timeout=timeout)
        if rc == 0:
            return True, ''
        if compiler_trouble(rc, out):
            time.sleep(2 + 5 * attempt)
            continue
        return False, out
    raise RuntimeError('compiler trouble: rc %d %s' % (rc, out[:300]))


def syntax(src, flags, timeout=300):
    """True/False: does the program compile (no code generated)"""
    for attempt in range(3):
        rc, out = run([CXX] + STD + flags + ['-fsyntax-only', src], timeout=timeout)
        if rc == 0:
            return True, ''
        if compiler_trouble(rc, out):
            time.sleep(2 + 5 * attempt)
            continue
        return False, out
    raise RuntimeError('compiler trouble: rc %d %s' % (rc, out[:300]))


def pool():
    return cf.ThreadPoolExecutor(JOBS)
