"""Random generation of s2s schemas as plain-JSON syntax trees.

A schema is {"recs": [rec, ...], "top": i, "fns": [fn, ...], "le_only": bool}.
A record is {"fields": [field, ...]}; nested records come earlier in "recs".
A field is {"id": str, "k": kind, "sp": int, ...}; "sp" seeds the spelling
choices (option order, explicit defaults, aliases) made while emitting C++, so
a schema emits the same text every time and a twin with other "sp" values is the
same schema in another spelling.
"""
import random

INTS = {
    'u8': (1, 0), 'u16': (2, 0), 'u32': (4, 0), 'u64': (8, 0),
    'i8': (1, 1), 'i16': (2, 1), 'i32': (4, 1), 'i64': (8, 1),
    'char': (1, 1), 'char8_t': (1, 0), 'char16_t': (2, 0), 'char32_t': (4, 0),
    'll': (8, 1), 'ull': (8, 0), 'wchar_t': (4, 1),
}
FLOATS = {'f32': (4, 0), 'f64': (8, 0)}
OTHER = {'bool': (1, 2)}     # never drawn; see odd()
COMMON = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64']
UNSIGNED = ['u8', 'u16', 'u32', 'u64']

IDS = ['a', 'b', 'c', 'd', 'e', 'n', 'len', 'length', 'len1', 'len10', 'le', 'tag', 'tags', 'type',
       'data', 'dat', 'data_', 'body', 'x', 'x1', 'x10', 'x100', 'value', 'size', 'id', 'field', 'flags',
       'flag', 'count', 'crc', 'hdr', 'header', 'header.sub', 'p q', '0', '00', '_', '__', 'A', 'Aa',
       'a-b', 'payload', 'payload_length', 'opt', 'rest', 'zz', 'long_identifier_' + 'q' * 40,
       'long_identifier_' + 'q' * 39 + 'r', 'long_identifier_' + 'q' * 39, 'version', 'kind', 'ver', 'k',
       '\\x01', '~', 'e2', 'e3', 'mm', 'm1', 'm2', 'm3', 'w', 'ww', 'www'] + ['f%d' % i for i in range(80)]


def bits(ctype):
    return tsize(ctype) * 8


def tsize(ctype):
    return (INTS.get(ctype) or FLOATS.get(ctype) or OTHER[ctype])[0]


def signed(ctype):
    return (INTS.get(ctype) or FLOATS.get(ctype) or OTHER[ctype])[1]


def dom(ctype, width):
    """Values a field of this type and width can hold and give back."""
    if ctype == 'bool':
        return 0, min(width, 1)
    if width < tsize(ctype):
        return 0, (1 << (8 * width)) - 1
    if signed(ctype):
        return -(1 << (bits(ctype) - 1)), (1 << (bits(ctype) - 1)) - 1
    return 0, (1 << bits(ctype)) - 1


DEFAULT = dict(
    kinds=dict(int=10, magicnum=1, magicbytes=1, magicstr=1, arr=3, carr=1, fstr=1, cstr=1, vec=4, str=3,
               rec=2, arrrec=1, vecrec=2, maybe=3, union=3),
    nf=(2, 8), depth=2, p_constraint=0.3, p_narrow=0.35, p_share=0.35, p_computed=0.2,
    p_ceiling=0.2, ceil_small=True, modes=dict(match=4, compute=2, ladder=3), alts=(2, 5), p_eq=0.15,
    p_exotic=0.15, float=0.0, p_union_con=0.25, p_alt_con=0.3, p_rec_con=0.15, p_seq_con=0.2, nest_nf=(1, 4),
    p_len_con=0.15, p_between=0.4, maybe_con_deps=True, p_gap=0.0,
)


class G:
    def __init__(self, seed, profile=None):
        self.r = random.Random(seed)
        self.p = dict(DEFAULT)
        self.p.update(profile or {})
        self.s = {'recs': [], 'fns': [], 'le_only': False}
        self.floaty = self.r.random() < self.p['float']
        self.s['le_only'] = self.floaty
        self.uniq = 0

    # ---------------------------------------------------------------- helpers
    def sp(self):
        return self.r.randrange(1 << 30)

    def wpick(self, d):
        ks = list(d)
        return self.r.choices(ks, [d[k] for k in ks])[0]

    def new_id(self, rec):
        used = {f['id'] for f in rec['fields']}
        if not rec['fields']:
            self.uniq += 1
            return self.r.choice(['r', 'a', 'len', 'head']) + '_%d' % (len(self.s['recs']) + 1000 * self.uniq)
        while True:
            i = self.r.choice(IDS)
            if i not in used:
                return i

    def add(self, rec, f):
        f['id'] = self.new_id(rec)
        f.setdefault('sp', self.sp())
        rec['fields'].append(f)
        return len(rec['fields']) - 1

    def ctype(self, kinds=None):
        if kinds:
            return self.r.choice(kinds)
        if self.r.random() < self.p['p_exotic']:
            return self.r.choice(list(INTS))
        return self.r.choice(COMMON)

    def etype(self):
        if self.floaty and self.r.random() < 0.5:
            return self.r.choice(list(FLOATS))
        return self.ctype()

    def width(self, ctype, p=None):
        if self.r.random() < (self.p['p_narrow'] if p is None else p) and tsize(ctype) > 1:
            return self.r.randint(1, tsize(ctype))
        return tsize(ctype)

    def fn(self, expr, n, ret, rec=None, args=None):
        typed = None
        if rec is not None and args and all(rec['fields'][a]['k'] in ('int', 'magicnum') for a in args):
            if self.r.random() < 0.4:
                typed = [rec['fields'][a]['t'] for a in args]
        self.s['fns'].append({'expr': expr, 'n': n, 'ret': ret, 'style': self.r.randrange(3), 'typed': typed})
        return len(self.s['fns']) - 1

    # ------------------------------------------------------------ expressions
    def atom(self, n):
        r = self.r
        a = 'm%d' % r.randrange(n)
        b = 'm%d' % r.randrange(n)
        c = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 16, 127, 128, 200, 255, 256, 1000])
        return r.choice([
            '(%s & %dul) != 0' % (a, r.choice([1, 2, 4, 8, 0x80])),
            '%s %% %dul == %dul' % (a, r.randint(2, 5), r.randrange(2)),
            '%s < %dul' % (a, c), '%s >= %dul' % (a, c), '%s == %dul' % (a, c), '%s != %dul' % (a, c),
            '(%s + %s) %% 3 != 1' % (a, b), '%s >= %s' % (a, b), '%s == %s' % (a, b),
            '((%s ^ %s) & 1ul) == 0' % (a, b),
        ])

    def pred_expr(self, n):
        r = self.r
        e = self.atom(n)
        while r.random() < 0.35:
            e = r.choice(['(%s) && (%s)', '(%s) || (%s)']) % (e, self.atom(n))
        # every argument has some part in it
        missing = [i for i in range(n) if 'm%d' % i not in e]
        for i in missing:
            e = '(%s) != ((m%d & 1ul) != 0)' % (e, i)
        if r.random() < 0.15:
            e = '!(%s)' % e
        return e

    def pick_args(self, rec, n=None, prefer_int=True):
        m = len(rec['fields'])
        if m == 0:
            return []
        if n is None:
            n = self.r.choices([1, 2, 3, 4, 6], [6, 3, 1, 0.5, 0.3])[0]
        out = []
        ints = [i for i, f in enumerate(rec['fields']) if f['k'] in ('int', 'magicnum')]
        for _ in range(n):
            if ints and prefer_int and self.r.random() < 0.7:
                out.append(self.r.choice(ints))
            else:
                out.append(self.r.randrange(m))
        return out

    def pred(self, rec):
        args = self.pick_args(rec)
        if not args:
            return {'f': self.fn('true', 0, 'bool'), 'a': []}
        return {'f': self.fn(self.pred_expr(len(args)), len(args), 'bool', rec, args), 'a': args}

    # ------------------------------------------------------------ constraints
    def ival(self, lo, hi):
        r = self.r
        c = [lo, lo + 1, hi, hi - 1, (lo + hi) // 2, 0, 1, 2, 5, 10, 100, 127, 128, 255, 256, 0x1234, 0xffff, 0x10000,
             0x7fffffff, 0x80000000, -1, -2, -128]
        c = [x for x in c if lo <= x <= hi]
        return r.choice(c) if r.random() < 0.6 else r.randint(lo, hi)

    def con_int(self, ctype, width, small=False, allow_eq=True):
        r = self.r
        lo, hi = dom(ctype, width)
        if small:
            op = r.choice(['lte', 'lt', 'neq', 'gte', 'any_of', 'gt', 'eq'])
            if op in ('lte', 'lt'):
                v = [r.randint(2, min(hi, 9))]
            elif op == 'any_of':
                v = sorted({r.randrange(0, 7) for _ in range(3)})
            elif op == 'eq':
                v = [r.randrange(5)]
            elif op == 'gt':
                v = [0]
            elif op == 'gte':
                v = [1]
            else:
                v = [r.randrange(4)]
            return {'op': op, 'v': v}
        if allow_eq and r.random() < self.p['p_eq']:
            return {'op': 'eq', 'v': [self.ival(lo, hi)]}
        op = r.choice(['neq', 'lt', 'gt', 'lte', 'gte', 'any_of', 'fn'])
        if op == 'fn':
            return {'op': 'fn', 'f': self.fn(r.choice(['m0 % 3 != 1', '(m0 & 1ul) == 0', 'm0 % 7 < 5', '(m0 & 0x80ul) == 0']), 1, 'bool')}
        if op == 'any_of':
            n = r.choices([1, 2, 3, 5, 9, 17], [2, 4, 4, 3, 1, 1])[0]
            return {'op': op, 'v': sorted({self.ival(lo, hi) for _ in range(n)}, key=lambda x: r.random())}
        v = self.ival(lo, hi)
        if op == 'lt' and v == lo:
            v += 1
        if op == 'gt' and v == hi:
            v -= 1
        return {'op': op, 'v': [v]}

    def evals(self, ctype, n):
        lo, hi = dom(ctype, tsize(ctype))
        return [self.ival(lo, hi) for _ in range(n)]

    def con_seq(self, f, ctype, n, frozenable=True):
        """constraint over a fixed array (flat element lists)"""
        r = self.r
        if ctype in FLOATS or r.random() < 0.25 or f['k'] in ('carr', 'cstr'):
            return self.con_fn()
        ops = ['neq', 'any_of']
        if frozenable:
            ops.append('eq')
        if f['k'] == 'arr':
            ops += ['lt', 'gte_', 'lte', 'gt']
        op = r.choice(ops)
        if op == 'gte_':
            op = 'gt'
        k = r.randint(2, 4) if op == 'any_of' else 1
        if f['k'] == 'fstr':
            mk = lambda: [r.choice([65, 66, 0, 97, 255 - 256, 32]) for _ in range(n - 1)] + [0]
        else:
            mk = lambda: self.evals(ctype, n)
        vals = []
        while len(vals) < k:
            v = mk()
            if v not in vals:
                vals.append(v)
            elif n <= 1:
                break
        if op in ('lt', 'gt'):
            lo, hi = dom(ctype, tsize(ctype))
            if (op == 'lt' and all(x == lo for x in vals[0])) or (op == 'gt' and all(x == hi for x in vals[0])):
                op = 'neq'
        return {'op': op, 'v': vals}

    def con_fn(self):
        return {'op': 'fn', 'f': self.fn(self.r.choice(['m0 % 3 != 1', 'm0 % 2 == 0', 'm0 % 5 < 4', '(m0 & 3ul) != 3', 'm0 % 11 != 2']), 1, 'bool')}

    # ------------------------------------------------------------------ sizes
    def int_field(self, rec, kinds=None, width=None, con=None, p_con=None):
        t = self.ctype(kinds)
        w = self.width(t) if width is None else width
        f = {'k': 'int', 't': t, 'w': w}
        if con is not None:
            f['c'] = con(t, w)
        elif self.r.random() < (self.p['p_constraint'] if p_con is None else p_con):
            f['c'] = self.con_int(t, w)
        return self.add(rec, f)

    def len_source(self, rec):
        """index of an int field to take a length from"""
        cand = [i for i, f in enumerate(rec['fields']) if f['k'] == 'int' and f.get('role') != 'plain']
        lens = [i for i in cand if rec['fields'][i].get('role') == 'len']
        x = self.r.random()
        if lens and x < self.p['p_share']:
            return self.r.choice(lens)
        if cand and x < self.p['p_share'] + 0.15:
            i = self.r.choice(cand)
            rec['fields'][i]['role'] = 'len'
            return i
        kinds = UNSIGNED if self.r.random() < 0.8 else None
        i = self.int_field(rec, kinds, p_con=0)
        f = rec['fields'][i]
        f['role'] = 'len'
        if self.r.random() < self.p['p_len_con']:
            f['c'] = self.con_int(f['t'], f['w'], small=True)
        if self.r.random() < self.p['p_between']:
            self.add(rec, {'k': 'int', 't': self.ctype(), 'w': None})
            g = rec['fields'][-1]
            g['w'] = self.width(g['t'])
        return i

    def size(self, rec):
        r = self.r
        if r.random() < self.p['p_computed']:
            args = self.pick_args(rec, r.choice([1, 1, 2, 2, 3]))
            if not args:
                args = [self.int_field(rec, p_con=0)]
            n = len(args)
            forms = ['m0 % 7', '(m0 & 3ul) + 1', 'm0 % 5 * 2']
            if n >= 2:
                forms += ['(m0 % 4) * (m1 % 4)', '(m0 + m1) % 9', '(m0 ^ m1) & 7ul']
            e = r.choice(forms)
            for i in range(n):
                if 'm%d' % i not in e:
                    e = '(%s + m%d %% 3)' % (e, i)
            # plain products and sums over ints kept small by the value generator
            if all(rec['fields'][a]['k'] == 'int' for a in args) and r.random() < 0.5:
                e = r.choice(['m0 * m1', 'm0 + m1'] if n == 2 else ['m0', 'm0 + 1', 'm0 * 2'] if n == 1 else ['m0 + m1 * m2'])
                for a in args:
                    rec['fields'][a].setdefault('small', 1)
            ret = r.choice(['u64', 'u32', 'u64', 'u16' if '%' in e else 'u64'])
            return {'k': 'fn', 'f': self.fn(e, n, ret, rec, args), 'a': args}
        return {'k': 'field', 'i': self.len_source(rec)}

    def ceiling(self, esz):
        if self.r.random() >= self.p['p_ceiling']:
            return None
        if self.p['ceil_small']:
            return self.r.choice([0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 64, 100, 127, 128, 255, 256, 4096]) * \
                self.r.choice([1, 1, esz]) + self.r.choice([0, 0, 0, 1, esz - 1])
        return self.r.choice([1 << 24, 1 << 20, 1 << 25])

    # ------------------------------------------------------------ containers
    def seq_payload(self, f, k):
        r = self.r
        if k == 'arr':
            f['t'] = self.etype()
            dims = [r.choices([1, 2, 3, 4, 7, 16, 0], [2, 4, 3, 2, 1, 0.5, 0])[0]]
            if r.random() < 0.25:
                dims.append(r.randint(1, 3))
                if r.random() < 0.3:
                    dims.append(r.randint(1, 3))
            f['d'] = dims
        elif k == 'carr':
            f['t'] = self.etype()
            f['d'] = [r.randint(1, 5)]
            if r.random() < 0.25:
                f['d'].append(r.randint(1, 3))
        elif k in ('fstr', 'cstr'):
            f['n'] = r.choice([1, 2, 3, 4, 7, 8, 15, 31])
        elif k == 'magicbytes':
            f['v'] = [r.choice([0, 0xff, 0x80, r.randrange(256)]) for _ in range(r.choice([1, 2, 3, 4, 8, 13]))]
        elif k == 'magicstr':
            f['v'] = [r.choice([65, 90, 97, 48, 32, 126]) for _ in range(r.choice([1, 2, 3, 4, 7]))]
        elif k == 'magicnum':
            f['t'] = self.ctype()
            f['w'] = self.width(f['t'])
            f['v'] = self.ival(*dom(f['t'], f['w']))

    def plain(self, rec, k, depth, in_maybe=False):
        """a non-maybe, non-union field dict (without id); may add dependencies to rec"""
        r = self.r
        f = {'k': k, 'sp': self.sp()}
        con = not in_maybe
        if k == 'int':
            f['t'] = self.ctype()
            f['w'] = self.width(f['t'])
            if con and r.random() < self.p['p_constraint']:
                f['c'] = self.con_int(f['t'], f['w'])
        elif k in ('arr', 'carr', 'fstr', 'cstr', 'magicbytes', 'magicstr', 'magicnum'):
            self.seq_payload(f, k)
            if con and k in ('arr', 'carr', 'fstr', 'cstr') and r.random() < self.p['p_seq_con']:
                n = 1
                for d in f.get('d', [f.get('n', 0) + 1]):
                    n *= d
                f['c'] = self.con_seq(f, f.get('t', 'char'), n)
        elif k in ('vec', 'str'):
            if k == 'vec':
                f['t'] = self.etype()
                f['per'] = [r.randint(1, 3)] if r.random() < 0.15 else []
                if f['per'] and r.random() < 0.3:
                    f['per'].append(2)
            f['s'] = self.size(rec)
            esz = tsize(f['t']) if k == 'vec' else 1
            for d in f.get('per', []):
                esz *= d
            f['m'] = self.ceiling(esz)
            if con and r.random() < self.p['p_seq_con']:
                f['c'] = self.con_fn()
        elif k in ('rec', 'arrrec', 'vecrec'):
            f['r'] = self.rec(depth - 1)
            if k == 'arrrec':
                f['n'] = r.randint(1, 3)
            if k == 'vecrec':
                f['s'] = self.size(rec)
                f['m'] = self.ceiling(r.choice([8, 16, 24, 40]))
            if con and r.random() < self.p['p_rec_con']:
                f['c'] = self.con_fn()
        return f

    ALT = dict(int=5, rec=2, arr=2, fstr=1, vec=3, str=2, arrrec=1, vecrec=1)

    def alt(self, rec, depth, seen):
        kinds = dict(self.p.get('alt_kinds') or self.ALT)
        if depth <= 0:
            for k in ('rec', 'arrrec', 'vecrec'):
                kinds.pop(k, None)
        for _ in range(30):
            k = self.wpick(kinds)
            save = len(rec['fields'])
            if k in ('vec', 'str', 'vecrec') and not self.p.get('alt_new_len', True):
                continue
            if k == 'str' and 'std::string' in seen:
                continue
            f = {'k': k, 'sp': self.sp()}
            if k == 'int':
                t = self.etype() if self.floaty else self.ctype()
                f['t'] = t
                f['w'] = self.width(t) if t in INTS else tsize(t)
                if self.r.random() < self.p['p_alt_con'] and t in INTS:
                    f['c'] = self.con_int(t, f['w'])
                key = t
            elif k == 'arr':
                f['t'] = self.etype()
                f['d'] = [self.r.randint(1, 4)]
                if self.r.random() < self.p['p_alt_con']:
                    f['c'] = self.con_seq(f, f['t'], f['d'][0])
                key = 'arr %s %d' % (f['t'], f['d'][0])
            elif k == 'fstr':
                f['n'] = self.r.randint(1, 6)
                if self.r.random() < self.p['p_alt_con']:
                    f['c'] = self.con_seq(f, 'char', f['n'] + 1)
                key = 'fstr %d' % f['n']
            elif k == 'vec':
                f['t'] = self.etype()
                f['per'] = []
                key = 'vec ' + f['t']
            elif k == 'str':
                key = 'std::string'
            else:
                f['r'] = None
                key = None
            if key in seen:
                continue
            if k in ('rec', 'arrrec', 'vecrec'):
                f['r'] = self.rec(depth - 1)
                if k == 'arrrec':
                    f['n'] = self.r.randint(1, 3)
                key = '%s %d' % (k, f['r'])
                if k != 'rec' and self.r.random() < self.p['p_alt_con']:
                    f['c'] = self.con_fn()
            if k in ('vec', 'str', 'vecrec'):
                f['s'] = self.size(rec)
                f['m'] = self.ceiling(tsize(f['t']) if k == 'vec' else 1)
                if 'c' not in f and self.r.random() < self.p['p_alt_con']:
                    f['c'] = self.con_fn()
            seen.add(key)
            return f
        return None

    def union(self, rec, depth):
        r = self.r
        mode = self.wpick(self.p['modes'])
        nalt = r.randint(*self.p['alts'])
        if r.random() < 0.06:
            nalt = r.randint(9, 12)
        seen = set()
        f = {'k': 'union', 'mode': mode, 'sp': self.sp()}
        if mode == 'match':
            cand = [i for i, g in enumerate(rec['fields']) if g['k'] == 'int' and g.get('role') == 'disc' and 'c' not in g]
            lens = [i for i, g in enumerate(rec['fields']) if g['k'] == 'int' and g.get('role') == 'len' and 'c' not in g]
            if cand and r.random() < self.p.get('p_share_disc', 0.08):
                d = r.choice(cand)
            elif lens and r.random() < self.p.get('p_disc_is_len', 0.05):
                d = r.choice(lens)
            else:
                d = self.int_field(rec, p_con=0)
                rec['fields'][d]['role'] = 'disc'
                if r.random() < self.p['p_between']:
                    self.add(rec, self.plain(rec, 'int', 0))
            f['m'] = d
            g = rec['fields'][d]
            lo, hi = dom(g['t'], g['w'])
        alts = []
        for _ in range(nalt):
            a = self.alt(rec, depth, seen)
            if a:
                alts.append(a)
        f['alts'] = alts
        if mode == 'match':
            vals = []
            pool = list(range(0, 16)) + [lo, hi, hi - 1, -1, 127, 128, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000]
            pool = [x for x in pool if lo <= x <= hi]
            if g.get('role') == 'len':
                pool = [x for x in range(8) if x <= hi]
            while len(vals) < len(alts):
                v = r.choice(pool) if r.random() < 0.8 or g.get('role') == 'len' else r.randint(lo, hi)
                if v not in vals:
                    vals.append(v)
                elif g.get('role') == 'len' and len(vals) >= len(set(pool)):
                    alts.pop()
            f['alts'] = alts[:len(vals)]
            f['vals'] = vals
            if r.random() < 0.15 and g.get('role') == 'disc' and 'c' not in g:
                # a constraint on the discriminant that some cases meet
                keep = r.sample(vals, max(1, len(vals) - 1))
                g['c'] = {'op': 'any_of', 'v': keep}
        elif mode == 'compute':
            args = self.pick_args(rec, r.choice([1, 1, 2, 3]))
            if not args:
                args = [self.int_field(rec, p_con=0)]
            n = len(args)
            k = len(alts) + (1 if r.random() < 0.3 else 0)
            e = 'm0 %% %dul' % k if n == 1 else '(%s) %% %dul' % (' + '.join('m%d' % i for i in range(n)), k)
            ret = r.choice(['u8', 'u16', 'u32', 'u64', 'int'])
            f['x'] = {'f': self.fn(e, n, ret, rec, args), 'a': args, 'R': ret}
            vals = list(range(k))
            r.shuffle(vals)
            f['vals'] = vals[:len(alts)]
        else:
            f['preds'] = [self.pred(rec) for _ in alts]
            if r.random() < 0.7:
                f['preds'][-1] = {'f': self.fn('true', 0, 'bool'), 'a': []} if r.random() < 0.5 else f['preds'][-1]
        if r.random() < self.p['p_union_con']:
            f['c'] = self.con_fn()
        return f

    # ----------------------------------------------------------------- record
    def rec(self, depth, top=False):
        r = self.r
        if not top and self.s['recs'] and r.random() < 0.2:
            return r.randrange(len(self.s['recs']))      # reuse a nested type
        rec = {'fields': []}
        lo, hi = self.p['nf'] if top else self.p['nest_nf']
        n = r.randint(lo, hi)
        kinds = dict(self.p['kinds'])
        if depth <= 0:
            for k in ('rec', 'arrrec', 'vecrec'):
                kinds.pop(k, None)
        if not kinds:
            kinds = {'int': 1}
        # a nested record may only hold types generated so far
        while len(rec['fields']) < n:
            k = self.wpick(kinds)
            if k == 'maybe':
                mk = dict(self.p.get('maybe_kinds') or dict(int=5, arr=1, fstr=1, vec=3, str=2, rec=1, arrrec=1, vecrec=1))
                if depth <= 0:
                    for x in ('rec', 'arrrec', 'vecrec'):
                        mk.pop(x, None)
                b = self.plain(rec, self.wpick(mk), depth, in_maybe=True)
                if not rec['fields']:
                    self.int_field(rec)
                if r.random() < 0.04:
                    p = {'f': -1, 'a': []}            # always_present
                else:
                    p = self.pred(rec)
                self.add(rec, {'k': 'maybe', 'b': b, 'p': p})
            elif k == 'union':
                u = self.union(rec, depth)
                if u['alts']:
                    self.add(rec, u)
            else:
                self.add(rec, self.plain(rec, k, depth))
        self.s['recs'].append(rec)
        return len(self.s['recs']) - 1

    def schema(self):
        top = self.rec(self.p['depth'], top=True)
        self.s['top'] = top
        return self.s


def generate(seed, profile=None):
    return G(seed, profile).schema()


# ------------------------------------------------------------------ analysis
def is_frozen(f):
    """eq on a fixed-size field that is a direct member of its record"""
    if f['k'] in ('magicnum', 'magicbytes', 'magicstr'):
        return True
    return f['k'] in ('int', 'arr', 'fstr') and f.get('c', {}).get('op') == 'eq'


def sizes_of(f):
    """(unconditional sizes, conditional sizes) a field depends on"""
    if f['k'] in ('vec', 'str', 'vecrec'):
        return [f['s']], []
    if f['k'] == 'maybe':
        return [], sizes_of(f['b'])[0]
    if f['k'] == 'union':
        return [], [s for a in f['alts'] for s in sizes_of(a)[0]]
    return [], []


def policy(rec):
    """per field: 'hidden', 'ro' or 'rw' — from the documentation"""
    out = []
    for i, f in enumerate(rec['fields']):
        length = disc = False
        for g in rec['fields']:
            for s in sizes_of(g)[0]:
                if s['k'] == 'field' and s['i'] == i:
                    length = True
            if g['k'] == 'union' and g['mode'] == 'match' and g['m'] == i:
                disc = True
        out.append('hidden' if length else 'ro' if disc or is_frozen(f) else 'rw')
    return out


def respell(schema, seed):
    """the same schema in another spelling"""
    import copy
    s = copy.deepcopy(schema)
    r = random.Random(seed)

    def walk(f):
        f['sp'] = r.randrange(1 << 30)
        if 'b' in f:
            walk(f['b'])
        for a in f.get('alts', []):
            walk(a)
    for rec in s['recs']:
        for f in rec['fields']:
            walk(f)
        # a distinct C++ type, so that both can live in one translation unit
        rec['fields'][0]['id'] += 'v'
    return s


def odd(s, seed):
    """single-byte scalars become bools, and a few scalars no one looks at take no room at all"""
    r = random.Random('odd/%s' % seed)
    for rec in s['recs']:
        fs = rec['fields']
        used, held = set(), {}

        def size(z):
            if z and z['k'] == 'field':
                used.add(z['i'])
        for f in fs:
            for z in sizes_of(f)[0] + sizes_of(f)[1]:
                size(z)
            if f['k'] == 'union' and f['mode'] == 'match':
                held.setdefault(f['m'], []).extend(f['vals'])

        def one(f, i=None, p=0.55):
            if f['k'] == 'int' and not f.get('c') and all(0 <= v <= 1 for v in held.get(i, [])) and r.random() < p:
                f['t'], f['w'] = 'bool', 1
                return True
            elif (f['k'] in ('arr', 'carr') or f['k'] == 'vec' and f['per']) and not f.get('c') and r.random() < p:
                f['t'] = 'bool'
                return True
            elif f['k'] == 'int' and not f.get('c') and i not in used and i not in held and f['t'] in INTS and r.random() < 0.12:
                f['w'] = 0
            return False
        for i, f in enumerate(fs):
            if f['k'] == 'maybe':
                one(f['b'])
            elif f['k'] == 'union':
                seen = set()
                for a in f['alts']:
                    if a['k'] not in seen and one(a):
                        seen.add(a['k'])
            else:
                one(f, i)
    return s


def broad(s, seed):
    """the same shapes, larger: long arrays, strings, constants, ids, lists of values, argument lists, and many alternatives"""
    r = random.Random('broad/%s' % seed)
    LONG = [33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 520]

    def grow(f, con=True):
        k, c = f['k'], f.get('c')
        if k in ('arr', 'carr') and (not c or c['op'] == 'fn') and r.random() < 0.6:
            f['d'][0] = r.choice(LONG if len(f['d']) == 1 else [17, 33, 65])
        elif k in ('fstr', 'cstr') and (not c or c['op'] == 'fn') and r.random() < 0.6:
            f['n'] = r.choice(LONG)
        elif k == 'magicbytes' and r.random() < 0.6:
            f['v'] = (f['v'] * 40 + [r.randrange(256)])[-r.choice([16, 31, 32, 33, 64, 65]):]
        elif k == 'magicstr' and r.random() < 0.6:
            f['v'] = (f['v'] * 40 + [r.choice([65, 97, 48])])[-r.choice([15, 16, 31, 32, 33, 63, 64]):]
        elif k == 'arrrec' and r.random() < 0.6:
            f['n'] = r.choice([5, 9, 16, 17, 33])
        if c and c['op'] == 'any_of' and k == 'int' and f['t'] in INTS:
            lo, hi = dom(f['t'], f['w'])
            want = min(r.choice([4, 8, 12, 16, 20, 32]), hi - lo + 1)
            while len(c['v']) < want:
                x = r.randint(max(lo, -300), min(hi, 300)) if r.random() < 0.7 else r.randint(lo, hi)
                if x not in c['v']:
                    c['v'].append(x)

    def args(rec, p, upto):
        fn = s['fns'][p['f']] if p['f'] >= 0 else None
        if fn is None or fn['ret'] != 'bool' or not upto or fn['n'] != len(p['a']) or r.random() < 0.4:
            return
        fn['typed'] = None
        for _ in range(r.choice([3, 5, 7, 9]) - len(p['a'])):
            fn['expr'] = '(%s) != ((m%d & 1ul) != 0)' % (fn['expr'], fn['n'])
            fn['n'] += 1
            p['a'].append(r.randrange(upto))
    for rec in s['recs']:
        fs = rec['fields']
        discs, used = [], set()
        for f in fs:
            if f['k'] == 'union' and f['mode'] == 'match':
                discs.append(f['m'])
            used.update(z['i'] for z in sizes_of(f)[0] + sizes_of(f)[1] if z and z['k'] == 'field')
        for i, f in enumerate(fs):
            grow(f)
            if f['k'] == 'maybe':
                grow(f['b'])
                args(rec, f['p'], i)
            elif f['k'] == 'union':
                for a in f['alts']:
                    grow(a)
                if f['mode'] == 'ladder':
                    for p in f['preds']:
                        args(rec, p, i)
                elif f['mode'] == 'match' and discs.count(f['m']) == 1 and f['m'] not in used and not fs[f['m']].get('c') and r.random() < 0.6:
                    lo, hi = dom(fs[f['m']]['t'], fs[f['m']]['w'])
                    have = {a['d'][0] for a in f['alts'] if a['k'] == 'arr'}
                    for _ in range(r.choice([8, 14, 16])):
                        v = r.randint(lo, hi) if r.random() < 0.2 else r.randint(0, min(hi, 100))
                        d = r.randint(1, 40)
                        if v not in f['vals'] and d not in have:
                            have.add(d)
                            f['vals'].append(v)
                            f['alts'].append({'k': 'arr', 't': 'u8', 'd': [d], 'sp': r.randrange(1 << 30)})
        if r.random() < 0.5:
            pre = r.choice(['q', 'id_', 'x.y ']) * 300
            pre = pre[:r.choice([60, 63, 64, 70, 120, 128, 200, 260])]
            for f in fs:
                f['id'] = pre + f['id']
    return s


def longmag(s, seed):
    """long constants: bytes, strings, and arrays and strings held to one value"""
    r = random.Random('longmag/%s' % seed)
    LEN = [17, 24, 25, 31, 32, 33, 40, 63, 64, 65, 80]

    def grow(f):
        k, c = f['k'], f.get('c')
        if r.random() < 0.25:
            return
        n = r.choice(LEN)
        if k == 'magicbytes':
            f['v'] = [r.choice([0, 0, 0xff, r.randrange(256)]) for _ in range(n)]
        elif k == 'magicstr':
            f['v'] = [r.choice([65, 65, 66, 97, 48, 32]) for _ in range(n)]
        elif k == 'arr' and c and c['op'] in ('eq', 'neq', 'any_of', 'lt', 'gt', 'lte') and len(f['d']) == 1 and f['t'] in INTS:
            f['d'] = [n]
            head = [r.choice([0, 1, 65]) for _ in range(n)]
            c['v'] = [head[:n - r.choice([1, 2, 9])] for _ in c['v']]
            for i, v in enumerate(c['v']):
                v += [i] * (n - len(v))
        elif k == 'fstr' and c and c['op'] in ('eq', 'neq', 'any_of'):
            f['n'] = n
            head = [r.choice([65, 97, 32]) for _ in range(n)]
            c['v'] = [head[:n - r.choice([1, 2, 9])] for _ in c['v']]
            for i, v in enumerate(c['v']):
                v += [66 + i] * (n - len(v)) + [0]
    for rec in s['recs']:
        for f in rec['fields']:
            grow(f)
            if f['k'] == 'maybe':
                grow(f['b'])
            for a in f.get('alts', []):
                grow(a)
    return s


def cases(s, seed):
    """unions of many alternatives, told apart by discriminants that agree in part of their bytes"""
    r = random.Random('cases/%s' % seed)
    for fn in s['fns']:
        fn['typed'] = None
    for rec in s['recs']:
        fs = rec['fields']
        used, discs = set(), []
        for f in fs:
            used.update(z['i'] for z in sizes_of(f)[0] + sizes_of(f)[1] if z and z['k'] == 'field')
            if f['k'] == 'union' and f['mode'] == 'match':
                discs.append(f['m'])
        for i, f in enumerate(fs):
            if f['k'] != 'union':
                continue
            want = r.choice([9, 10, 12, 16, 17, 20, 24])
            have = {a['d'][0] for a in f['alts'] if a['k'] == 'arr' and a['t'] == 'u8'}

            def more():
                d = r.choice([x for x in range(1, 60) if x not in have])
                have.add(d)
                return {'k': 'arr', 't': 'u8', 'd': [d], 'sp': r.randrange(1 << 30)}
            if f['mode'] == 'match':
                g = fs[f['m']]
                if discs.count(f['m']) > 1 or f['m'] in used or g.get('c'):
                    continue
                g['t'] = r.choice(['u16', 'u32', 'i16', 'i32', 'u64', 'u16'])
                g['w'] = tsize(g['t'])
                lo, hi = dom(g['t'], g['w'])
                base = list(range(1, 7)) if r.random() < 0.6 else [r.randint(0, min(hi, 5000)) for _ in range(5)]
                f['vals'] = []
                while len(f['alts']) < want:
                    f['alts'].append(more())
                while len(f['vals']) < len(f['alts']):
                    v = r.choice(base)
                    if r.random() < 0.6:
                        v ^= 1 << r.choice([x for x in (8, 9, 15, 16, 24, 31, 32, 40) if x < bits(g['t'])])
                    if signed(g['t']) and v > hi:
                        v -= 1 << bits(g['t'])
                    if len(f['vals']) > 8 and r.random() < 0.3:
                        v = r.randint(lo, hi)
                    if v not in f['vals']:
                        f['vals'].append(v)
                    else:
                        base.append(r.randint(0, 300))
            elif f['mode'] == 'compute':
                k = len(f['alts']) + r.randrange(2)
                fn = s['fns'][f['x']['f']]
                extra = max(0, want - len(f['alts']))
                head = fn['expr'].rsplit('%', 1)[0]
                fn['expr'] = head + '%% %dul' % (k + extra)
                f['alts'] += [more() for _ in range(extra)]
                vals = list(range(k + extra))
                if r.random() < 0.6 and f['x']['R'] != 'u8':
                    # selectors that agree in their low bytes
                    step = 1 << r.choice({'u16': [8, 8, 12], 'int': [8, 16, 24], 'u32': [8, 16, 24], 'u64': [8, 16, 32, 40]}[f['x']['R']])
                    k = max(3, (k + extra) // 2)
                    fn['expr'] = '%s%% %dul + %s/ %dul %% 3ul * %dul' % (head, k, head, k, step)
                    vals = [a + q * step for a in range(k) for q in range(3)]
                r.shuffle(vals)
                f['vals'] = vals[:len(f['alts'])]
            else:
                # a ladder whose rungs are ranges of one sibling
                ints = [j for j in range(i) if fs[j]['k'] == 'int' and fs[j]['t'] in INTS]
                if not ints:
                    continue
                j = r.choice(ints)
                f['alts'] += [more() for _ in range(max(0, want - len(f['alts'])))]
                f['preds'] = []
                step = r.choice([1, 2, 3, 10])
                for q in range(len(f['alts'])):
                    s['fns'].append({'expr': r.choice(['m0 < %dul', 'm0 %% 256 == %dul', '(m0 & 31ul) == %dul']) % (step * (q + 1)), 'n': 1, 'ret': 'bool', 'style': r.randrange(3), 'typed': None})
                    f['preds'].append({'f': len(s['fns']) - 1, 'a': [j]})
    return s


def slot(s, seed):
    """length fields whose slot is narrower than their type"""
    r = random.Random('slot/%s' % seed)
    for fn in s['fns']:
        fn['typed'] = None
    for rec in s['recs']:
        fs = rec['fields']
        for f in fs:
            for z in sizes_of(f)[0] + sizes_of(f)[1]:
                g = fs[z['i']] if z and z['k'] == 'field' else None
                if g and g['k'] == 'int' and g.get('role') == 'len' and not g.get('c') and r.random() < 0.85 and not g.get('slot'):
                    g['slot'] = 1
                    g['t'] = r.choice(['u16', 'u32', 'u64', 'u16', 'u32', 'i16', 'i32', 'i64', 'char16_t', 'ull'])
                    g['w'] = r.choice([1, 1, 1, 2, 3])
                    if g['w'] >= tsize(g['t']):
                        g['w'] = 1
                    if signed(g['t']):
                        g['t'], g['w'] = g['t'], tsize(g['t']) if r.random() < 0.3 else g['w']
        for f in fs:
            if f['k'] == 'union' and f['mode'] == 'match' and fs[f['m']].get('slot'):
                lo, hi = dom(fs[f['m']]['t'], fs[f['m']]['w'])
                assert all(lo <= v <= hi for v in f['vals'])
    return s


def shared(s, seed):
    """unions that share a discriminant, discriminants that are lengths, lengths computed in 64 bits, containers that may not be empty"""
    r = random.Random('shared/%s' % seed)

    def fn(expr, ret='bool'):
        s['fns'].append({'expr': expr, 'n': 1, 'ret': ret, 'style': r.randrange(3), 'typed': None})
        return len(s['fns']) - 1

    def fill(f, p):
        if f['k'] in ('vec', 'str', 'vecrec') and (f.get('c') or {'op': 'fn'})['op'] == 'fn' and r.random() < p:
            f['c'] = {'op': 'fn', 'f': fn(r.choice(['m0 != 0', 'm0 % 4 != 0', 'm0 >= 2', 'm0 > 0 && m0 != 3']))}
    for g in s['fns']:
        g['typed'] = None
    for rec in s['recs']:
        fs = rec['fields']
        lens, args = set(), set()
        for f in fs:
            lens.update(z['i'] for z in sizes_of(f)[0] + sizes_of(f)[1] if z and z['k'] == 'field')
            for z in sizes_of(f)[0] + sizes_of(f)[1]:
                if z and z['k'] == 'fn':
                    args.update(z['a'])
        discs = [f['m'] for f in fs if f['k'] == 'union' and f['mode'] == 'match']
        # lengths computed over whole 64-bit numbers
        for f in fs:
            for z in sizes_of(f)[0] + sizes_of(f)[1]:
                if z and z['k'] == 'fn' and len(z['a']) == 1:
                    g = fs[z['a'][0]]
                    if g['k'] == 'int' and g['t'] in INTS and not g.get('c') and z['a'][0] not in lens and z['a'][0] not in discs and r.random() < 0.9:
                        g['t'], g['small'] = r.choice(['u64', 'ull', 'u64', 'i64']), 1
                        g['w'] = 8
                        z['f'] = fn(r.choice(['m0', 'm0 / 2', 'm0 >> 1', 'm0 ^ 1ul', 'm0 * 2', 'm0 + 1']), 'u64')
        for f in fs:
            fill(f, 0.15)
            for a in f.get('alts', []):
                fill(a, 0.5)
        for i, f in enumerate(list(fs)):
            if f['k'] != 'union' or f['mode'] != 'match' or f['m'] in lens or discs.count(f['m']) > 1 or fs[f['m']].get('c') or len(fs) > 9:
                continue
            g = fs[f['m']]
            lo, hi = dom(g['t'], g['w'])
            if r.random() < 0.4:
                # and it is a length as well
                f['vals'] = r.sample(range(0, 9 + len(f['alts'])), len(f['alts']))
                k = r.choice(['str', 'vec'])
                fs.append({'k': k, 's': {'k': 'field', 'i': f['m']}, 'id': 'sl%d' % i, 'm': None, 'per': [], 'sp': r.randrange(1 << 30)})
                if k == 'vec':
                    fs[-1]['t'] = r.choice(['u8', 'u16', 'i32', 'u64'])
                lens.add(f['m'])
            elif r.random() < 0.5:
                f['vals'] = r.sample(list(dict.fromkeys(v for v in list(range(6)) + [hi, 255, 256, -1] if lo <= v <= hi)), min(len(f['alts']), 6))
                f['alts'] = f['alts'][:len(f['vals'])]
            for q in range(r.choice([1, 1, 2])):
                vals = list(f['vals'])
                if len(vals) > 2 and r.random() < 0.3:
                    vals.remove(r.choice(vals))
                r.shuffle(vals)
                more = [v for v in range(12) if v not in vals and v <= hi]
                if more and f['m'] not in lens and r.random() < 0.3:
                    vals.insert(r.randrange(len(vals) + 1), r.choice(more))
                types = r.sample(['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'char'], min(len(vals), 5))
                alts = [{'k': 'int', 't': t, 'w': r.choice([tsize(t), r.randint(1, tsize(t))]), 'sp': r.randrange(1 << 30)} for t in types]
                alts += [{'k': 'arr', 't': 'u8', 'd': [1 + d], 'sp': r.randrange(1 << 30)} for d in range(len(vals) - len(alts))]
                r.shuffle(alts)
                fs.append({'k': 'union', 'mode': 'match', 'm': f['m'], 'vals': vals, 'alts': alts, 'id': 'su%d_%d' % (i, q), 'sp': r.randrange(1 << 30)})
    return s


def elems(s, seed):
    """containers of every element type, several under one length, and the same elements in arrays, options and alternatives"""
    r = random.Random('elems/%s' % seed)
    kinds = list(INTS)
    r.shuffle(kinds)
    fs = s['recs'][-1]['fields'][:1]
    s['recs'], s['fns'], s['top'], s['le_only'] = [{'fields': fs}], [], 0, False
    sp = lambda: r.randrange(1 << 30)
    fs[0] = {'k': 'int', 't': 'u16', 'w': 2, 'id': fs[0]['id'], 'sp': sp(), 'role': 'len'}
    fs[0]['t'] = r.choice(['u16', 'u32', 'u64', 'i32'])
    fs[0]['w'] = r.choice([2, tsize(fs[0]['t'])])
    if fs[0]['t'] == 'i32':
        fs[0]['w'] = r.choice([2, 4])
    n = 0
    # two lengths, three or four containers each; the types go round so that a few schemas have them all
    for q in range(2):
        if q:
            n = len(fs)
            fs.append({'k': 'int', 't': r.choice(['u16', 'u32']), 'w': 2, 'id': 'n%d' % q, 'sp': sp(), 'role': 'len'})
        for j in range(r.choice([3, 4])):
            t = kinds.pop()
            kinds.insert(0, t)
            fs.append({'k': 'vec', 't': t, 's': {'k': 'field', 'i': n}, 'm': None, 'per': [], 'id': 'v%d_%d' % (q, j), 'sp': sp()})
    t = kinds.pop()
    fs.append({'k': 'arr', 't': t, 'd': [r.choice([97, 193, 210, 300])], 'id': 'fixed', 'sp': sp()})
    return s


def kin(s, seed):
    """ids that agree but for one character, on fields of one type"""
    r = random.Random('kin/%s' % seed)
    for rec in s['recs']:
        fs = rec['fields']
        n = r.choice([2, 3, 5, 9, 14, 17, 18, 24, 33, 33, 65])
        stem = [r.choice('abcxyz_.019') for _ in range(n)]
        if r.random() < 0.5:
            stem = [r.choice('ab_')] * n
        spots = [0, n - 1, n // 2] + [r.randrange(n) for _ in range(2)]
        if r.random() < 0.7:
            # all in one place
            spots = [r.randrange(n)]
        seen = {fs[0]['id']}
        types = [f['t'] for f in fs if f['k'] == 'int' and f['t'] in INTS] + [r.choice(COMMON)]
        t = r.choice(types)
        w = r.choice([tsize(t), r.randint(1, tsize(t))])
        for _ in range(r.choice([2, 3, 4, 5])):
            fs.append({'k': 'int', 't': t, 'w': w, 'id': '', 'sp': r.randrange(1 << 30)})
        for f in fs[1:]:
            while True:
                x = list(stem)
                x[r.choice(spots)] = r.choice('ABCDEFGHIJKLMNOPQRSTUVWpqrstuvw2345')
                if r.random() < 0.1:
                    x = x + [x[-1]] if r.random() < 0.5 or n < 2 else x[:-1]
                x = ''.join(x)
                if x not in seen:
                    seen.add(x)
                    f['id'] = x
                    break
    return s
