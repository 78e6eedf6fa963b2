"""C++ for a schema: the s2s type, its callables, the token glue, and the
serialized description the model reads."""
import random
from schema import INTS, FLOATS, tsize, signed, policy, is_frozen

OPS = ['none', 'eq', 'neq', 'lt', 'gt', 'lte', 'gte', 'any_of', 'fn']
KIND = dict(int=0, magicnum=0, arr=1, carr=1, fstr=1, cstr=1, magicbytes=1, magicstr=1, vec=1, str=1, rec=2,
            arrrec=3, vecrec=4, maybe=5, union=6)


def prod(xs):
    p = 1
    for x in xs:
        p *= x
    return p


def lit(t, v):
    if t in FLOATS:
        return '%s(%d)' % (t, v)
    if v < 0:
        return '%s(-%dll - 1)' % (t, -v - 1)
    return '%s(%dull)' % (t, v)


def arr_type(t, dims):
    s = t
    for d in reversed(dims):
        s = 'std::array<%s, %d>' % (s, d)
    return s


def arr_lit(t, dims, vals):
    if len(dims) == 1:
        return 'std::array<%s, %d>{{%s}}' % (t, dims[0], ', '.join(lit(t, v) for v in vals))
    step = len(vals) // dims[0]
    parts = [arr_lit(t, dims[1:], vals[i * step:(i + 1) * step]) for i in range(dims[0])]
    return '%s{{%s}}' % (arr_type(t, dims), ', '.join(parts))


def cstr_lit(vals):
    out = '"'
    for v in vals:
        out += '\\%03o' % (v & 255)
    return out + '"'


def q(s):
    return '"%s"' % s


class Emit:
    def __init__(self, schema, ns, subs=False):
        self.s = schema
        self.ns = ns
        self.subs = subs
        self.out = []
        self.pol = [policy(r) for r in schema['recs']]

    # -------------------------------------------------------------- pieces
    def fn_name(self, i):
        return 'f%d' % i

    def emit_fns(self):
        w = self.out.append
        for i, f in enumerate(self.s['fns']):
            ps = ', '.join('u64 m%d' % k for k in range(f['n']))
            un = ' '.join('(void)m%d;' % k for k in range(f['n']))
            w('constexpr u64 e%d(%s) { %s return static_cast<u64>(%s); }' % (i, ps, un, f['expr']))
            ret = f['ret']
            if f['typed']:
                if f['style'] == 1:
                    prm = ', '.join('%s a%d' % (t, k) for k, t in enumerate(f['typed']))
                else:
                    prm = ', '.join('const %s& a%d' % (t, k) for k, t in enumerate(f['typed']))
            else:
                prm = ', '.join('const auto& a%d' % k for k in range(f['n']))
            call = 'e%d(%s)' % (i, ', '.join('hv::measure(a%d)' % k for k in range(f['n'])))
            if f['style'] == 2:
                w('constexpr auto f%d = [](%s) -> %s { return static_cast<%s>(%s); };' % (i, prm, ret, ret, call))
            else:
                w('struct f%d_t { constexpr auto operator()(%s) const -> %s { return static_cast<%s>(%s); } };' % (i, prm, ret, ret, call))
                w('inline constexpr f%d_t f%d{};' % (i, i))

    def pred(self, rec, p, r, names=('s2s::parse_if', 's2s::predicate', 's2s::eval_bool_from_fields')):
        if p['f'] < 0:
            return 's2s::always_present'
        ids = ''.join(', ' + q(rec['fields'][a]['id']) for a in p['a'])
        n = r.choice(list(names) + ['s2s::compute'])
        if n == 's2s::compute':
            return 's2s::compute<%s, bool%s>' % (self.fn_name(p['f']), ids)
        return '%s<%s%s>' % (n, self.fn_name(p['f']), ids)

    def size(self, rec, s, r):
        if s['k'] == 'field':
            e = 's2s::len_from_field<%s>' % q(rec['fields'][s['i']]['id'])
        else:
            e = '%s<%s%s>' % (r.choice(['s2s::len_from_fields', 's2s::size_from_fields']), self.fn_name(s['f']),
                              ''.join(', ' + q(rec['fields'][a]['id']) for a in s['a']))
        if r.random() < 0.1:
            e = 's2s::field_size<%s>' % e
        return e

    def con(self, f, ctype, r):
        """constraint expression, or None"""
        c = f.get('c')
        if not c:
            return None
        if c['op'] == 'fn':
            return self.fn_name(c['f'])
        k = f['k']
        if k == 'int':
            vals = [lit(f['t'], v) for v in c['v']]
            # or as a bare literal, whose type CTAD takes whatever the field's
            x = random.Random('%s/lit' % f['sp'])
            if f['t'] in INTS and x.random() < 0.4:
                lo, hi = min(c['v']), max(c['v'])
                bare = [z for z, a, b in (('', -2**31 + 1, 2**31 - 1), ('u', 0, 2**32 - 1), ('ll', -2**63 + 1, 2**63 - 1), ('ull', 0, 2**64 - 1))
                        if a <= lo and hi <= b]
                if bare:
                    z = x.choice(bare)
                    vals = ['%d%s' % (v, z) for v in c['v']]
        elif k == 'arr':
            vals = [arr_lit(f['t'], f['d'], v) for v in c['v']]
        elif k == 'fstr':
            vals = ['s2s::fixed_string<%d>(%s)' % (f['n'], cstr_lit(v[:-1])) for v in c['v']]
        else:
            raise ValueError(k)
        return 's2s::%s{%s}' % (c['op'], ', '.join(vals))

    def wsize(self, w, r):
        return r.choice(['%d_B' % w, '%d_B' % w, 's2s::byte_count{%d}' % w, 's2s::field_size<%d_B>' % w])

    def opts(self, parts, r):
        r.shuffle(parts)
        return ''.join(', ' + p for p in parts)

    def cpp_type(self, f):
        k = f['k']
        if k in ('int', 'magicnum'):
            return f['t']
        if k == 'arr':
            return arr_type(f['t'], f['d'])
        if k == 'fstr':
            return 's2s::fixed_string<%d>' % f['n']
        if k == 'vec':
            return 'std::vector<%s>' % arr_type(f['t'], f['per'])
        if k == 'str':
            return 'std::string'
        if k == 'rec':
            return 'R%d' % f['r']
        if k == 'arrrec':
            return 'std::array<R%d, %d>' % (f['r'], f['n'])
        if k == 'vecrec':
            return 'std::vector<R%d>' % f['r']
        raise ValueError(k)

    def field(self, rec, f, fid=None):
        r = random.Random(f['sp'])
        i = q(fid if fid is not None else f['id'])
        k = f['k']
        nocon = r.random() < 0.12
        if k == 'int':
            parts = []
            if f['w'] != tsize(f['t']) or r.random() < 0.5:
                parts.append(self.wsize(f['w'], r))
            c = self.con(f, f['t'], r)
            if c:
                parts.append(c)
            elif nocon:
                parts.append('s2s::no_constraint<%s>{}' % f['t'])
            return 's2s::basic_field<%s, %s%s>' % (i, f['t'], self.opts(parts, r))
        if k == 'magicnum':
            sp = r.randrange(3)
            if sp == 0:
                return 's2s::basic_field<%s, %s%s>' % (i, f['t'], self.opts([self.wsize(f['w'], r), 's2s::eq{%s}' % lit(f['t'], f['v'])], r))
            v = lit(f['t'], f['v'])
            if sp == 2 and -2**31 < f['v'] < 2**31:
                v = str(f['v'])
            return 's2s::magic_number<%s, %s, %s, %s>' % (i, f['t'], '%d_B' % f['w'], v)
        if k == 'magicbytes':
            n = len(f['v'])
            v = 'std::array<u8, %d>{%s}' % (n, ', '.join(map(str, f['v'])))
            if r.random() < 0.3:
                return 's2s::fixed_array_field<%s, u8, %d, s2s::eq{%s}>' % (i, n, v)
            return 's2s::magic_byte_array<%s, %d, %s>' % (i, n, v)
        if k == 'magicstr':
            if r.random() < 0.3:
                return 's2s::fixed_string_field<%s, %d, s2s::eq{s2s::fixed_string<%d>(%s)}>' % (i, len(f['v']), len(f['v']), cstr_lit(f['v']))
            return 's2s::magic_string<%s, %s>' % (i, cstr_lit(f['v']))
        c = self.con(f, None, r) if k not in ('union', 'maybe') else None
        if k == 'arr':
            parts = [c] if c else (['s2s::no_constraint<%s>{}' % arr_type(f['t'], f['d'])] if nocon else [])
            return 's2s::fixed_array_field<%s, %s, %d%s>' % (i, arr_type(f['t'], f['d'][1:]), f['d'][0], self.opts(parts, r))
        if k == 'carr':
            t = f['t']
            if len(f['d']) > 1:
                t = '%s[%d]' % (t, f['d'][1])
            return 's2s::c_arr_field<%s, %s, %d%s>' % (i, t, f['d'][0], self.opts([c] if c else [], r))
        if k == 'fstr':
            return 's2s::fixed_string_field<%s, %d%s>' % (i, f['n'], self.opts([c] if c else [], r))
        if k == 'cstr':
            return 's2s::c_str_field<%s, %d%s>' % (i, f['n'], self.opts([c] if c else [], r))
        if k in ('vec', 'str', 'vecrec'):
            parts = [self.size(rec, f['s'], r)]
            if c:
                parts.append(c)
            elif nocon:
                parts.append('s2s::no_constraint<%s>{}' % self.cpp_type(f))
            if f['m'] is not None:
                parts.append('s2s::max_bytes<%d>' % f['m'])
            elif r.random() < 0.1:
                parts.append('s2s::use_default_bound')
            o = self.opts(parts, r)
            if k == 'vec':
                return 's2s::vec_field<%s, %s%s>' % (i, arr_type(f['t'], f['per']), o)
            if k == 'str':
                return 's2s::str_field<%s%s>' % (i, o)
            return 's2s::vector_of_records<%s, R%d%s>' % (i, f['r'], o)
        if k == 'rec':
            return 's2s::struct_field<%s, R%d%s>' % (i, f['r'], self.opts([c] if c else [], r))
        if k == 'arrrec':
            return 's2s::array_of_records<%s, R%d, %d%s>' % (i, f['r'], f['n'], self.opts([c] if c else [], r))
        if k == 'maybe':
            return 's2s::maybe<%s, %s>' % (self.field(rec, f['b'], f['id']), self.pred(rec, f['p'], r))
        if k == 'union':
            return self.union(rec, f, r)
        raise ValueError(k)

    def tag(self, rec, f):
        r = random.Random(f['sp'])
        k = f['k']
        c = self.con(f, None, r)
        parts = [c] if c else []
        if k == 'int':
            if f['w'] != tsize(f['t']) or r.random() < 0.5:
                parts.append(self.wsize(f['w'], r))
            return 's2s::as_trivial<%s%s>' % (f['t'], self.opts(parts, r))
        if k == 'rec':
            return 's2s::as_struct<R%d%s>' % (f['r'], self.opts(parts, r))
        if k == 'arr':
            return 's2s::as_fixed_arr<%s, %d%s>' % (f['t'], f['d'][0], self.opts(parts, r))
        if k == 'fstr':
            return 's2s::as_fixed_string<%d%s>' % (f['n'], self.opts(parts, r))
        if k == 'arrrec':
            return 's2s::as_arr_of_records<R%d, %d%s>' % (f['r'], f['n'], self.opts(parts, r))
        parts.append(self.size(rec, f['s'], r))
        if f['m'] is not None:
            parts.append('s2s::max_bytes<%d>' % f['m'])
        o = self.opts(parts, r)
        if k == 'vec':
            return 's2s::as_vec<%s%s>' % (f['t'], o)
        if k == 'str':
            return 's2s::as_string<%s>' % o[2:]
        return 's2s::as_vec_of_records<R%d%s>' % (f['r'], o)

    def union(self, rec, f, r):
        if f['mode'] == 'ladder':
            br = ', '.join('s2s::branch<%s, %s>' % (self.pred(rec, p, r, ('s2s::predicate', 's2s::eval_bool_from_fields')), self.tag(rec, a))
                           for p, a in zip(f['preds'], f['alts']))
            d = 's2s::type<s2s::type_if_else<%s>>' % br
        else:
            if f['mode'] == 'match':
                t = rec['fields'][f['m']]['t']
                head = 's2s::match_field<%s>' % q(rec['fields'][f['m']]['id'])
            else:
                t = f['x']['R']
                head = 's2s::compute<%s, %s%s>' % (self.fn_name(f['x']['f']), t, ''.join(', ' + q(rec['fields'][a]['id']) for a in f['x']['a']))
            cs = []
            for v, a in zip(f['vals'], f['alts']):
                l = str(v) if (r.random() < 0.5 and -2**31 < v < 2**31 and (v >= 0 or signed(t) if t in INTS else v >= 0)) else \
                    (lit(t, v) if t in INTS else 'int(%d)' % v)
                # a literal of another signedness that compares equal to the value
                if f['mode'] == 'match' and t in INTS and r.random() < 0.6:
                    n = tsize(t)
                    if n >= 4 and signed(t) == 1 and v < 0:
                        l = '0x%x%s' % (v + (1 << 8 * n), 'u' if n == 4 else 'ul')
                    elif n >= 4 and not signed(t) and v > 1 << (8 * n - 1) and v - (1 << 8 * n) > -2**31:
                        l = '(-%d)' % ((1 << 8 * n) - v)
                cs.append('s2s::match_case<%s, %s>' % (l, self.tag(rec, a)))
            d = 's2s::type<%s, s2s::type_switch<%s>>' % (head, ', '.join(cs))
        c = self.con(f, None, r)
        return 's2s::variance<%s, %s%s>' % (q(f['id']), d, ''.join(', ' + x for x in self.own_opts([c] if c else [])))

    def own_opts(self, parts):
        return parts

    # --------------------------------------------------------- description
    def ser_con(self, f, o):
        k = f['k']
        if k == 'magicnum':
            o += [1, 1, 1, f['v']]
            return
        if k in ('magicbytes', 'magicstr'):
            v = f['v'] + ([0] if k == 'magicstr' else [])
            o += [1, 1, len(v)] + v
            return
        c = f.get('c')
        if not c:
            o += [0]
            return
        if c['op'] == 'fn':
            o += [8, c['f']]
            return
        o += [OPS.index(c['op']), len(c['v'])]
        for v in c['v']:
            v = v if isinstance(v, list) else [v]
            o += [len(v)] + v

    def ser_size(self, s, o):
        if s is None:
            o += [0]
        elif s['k'] == 'field':
            o += [1, s['i']]
        else:
            o += [2, s['f'], len(s['a'])] + s['a']

    def ser_field(self, f, pol, o, member=True):
        k = f['k']
        fid = f.get('id', '').encode().decode('unicode_escape')
        o += [KIND[k], len(fid)] + [ord(ch) for ch in fid]
        o += [1 if pol == 'hidden' else 0, 1 if pol == 'ro' else 0, 1 if member and is_frozen(f) else 0, 1 if f.get('small') else 0]
        self.ser_con(f, o)
        m = f.get('m') if k in ('vec', 'str', 'vecrec') else None
        m = -1 if m is None else m
        if k in ('int', 'magicnum'):
            o += [tsize(f['t']), signed(f['t']), f['w']]
        elif k in ('arr', 'carr'):
            o += [tsize(f['t']), signed(f['t']), prod(f['d'])]
            self.ser_size(None, o)
            o += [-1]
        elif k in ('fstr', 'cstr'):
            o += [1, 1, f['n'] + 1]
            self.ser_size(None, o)
            o += [-1]
        elif k == 'magicbytes':
            o += [1, 0, len(f['v'])]
            self.ser_size(None, o)
            o += [-1]
        elif k == 'magicstr':
            o += [1, 1, len(f['v']) + 1]
            self.ser_size(None, o)
            o += [-1]
        elif k == 'vec':
            o += [tsize(f['t']), signed(f['t']), prod(f['per'])]
            self.ser_size(f['s'], o)
            o += [m]
        elif k == 'str':
            o += [1, 1, 1]
            self.ser_size(f['s'], o)
            o += [m]
        elif k == 'rec':
            o += [f['r']]
        elif k == 'arrrec':
            o += [f['r'], f['n']]
        elif k == 'vecrec':
            o += [f['r']]
            self.ser_size(f['s'], o)
            o += [m]
        elif k == 'maybe':
            self.ser_field(f['b'], None, o, member=False)
            o += [f['p']['f'], len(f['p']['a'])] + f['p']['a']
        elif k == 'union':
            if f['mode'] == 'match':
                o += [0, f['m']]
            elif f['mode'] == 'compute':
                R = f['x']['R']
                o += [1, f['x']['f'], {'int': 4}.get(R) or tsize(R), 1 if R == 'int' else 0, len(f['x']['a'])] + f['x']['a']
            else:
                o += [2]
            o += [len(f['alts'])]
            for n, a in enumerate(f['alts']):
                if f['mode'] == 'ladder':
                    p = f['preds'][n]
                    o += [p['f'], len(p['a'])] + p['a']
                else:
                    o += [f['vals'][n]]
                self.ser_field(a, None, o, member=False)

    def desc(self):
        o = [len(self.s['recs']), self.s['top']]
        for rec, pol in zip(self.s['recs'], self.pol):
            o += [len(rec['fields'])]
            for f, p in zip(rec['fields'], pol):
                self.ser_field(f, p, o)
        return ' '.join(map(str, o))

    # --------------------------------------------------------------- output
    def rec_type(self, n):
        rec = self.s['recs'][n]
        return 'using R%d = s2s::struct_field_list<\n  %s>;' % (n, ',\n  '.join(self.field(rec, f) for f in rec['fields']))

    def glue(self, n):
        rec, pol = self.s['recs'][n], self.pol[n]
        T = '%s::R%d' % (self.ns, n)
        vis = [(i, f) for i, f in enumerate(rec['fields']) if pol[i] != 'hidden']
        rw = [(i, f) for i, f in vis if pol[i] == 'rw']
        L = ['template <> struct hv::Glue<%s> {' % T, '  static constexpr bool is_record = true;']
        L.append('  static constexpr void put([[maybe_unused]] %s& o, [[maybe_unused]] TIn& t) { %s }' % (
            T, ' '.join('hv::put(o[%s_f], t);' % q(f['id']) for _, f in rw)))
        L.append('  static constexpr void take([[maybe_unused]] const %s& o, [[maybe_unused]] TOut& t) { %s }' % (
            T, ' '.join('hv::take(o[%s_f], t);' % q(f['id']) for _, f in vis)))
        L.append('  static constexpr u64 measure([[maybe_unused]] const %s& o) { u64 a = 0; %s return a; }' % (
            T, ' '.join('a = mix(a, hv::measure(o[%s_f]));' % q(f['id']) for _, f in rw)))
        L.append('  static void put_field([[maybe_unused]] %s& o, std::size_t i, [[maybe_unused]] TIn& t) { switch(i) { %s } }' % (
            T, ' '.join('case %d: hv::put(o[%s_f], t); break;' % (i, q(f['id'])) for i, f in rw)))
        L.append('};')
        return '\n'.join(L)

    def types(self):
        self.out = []
        w = self.out.append
        w('namespace %s {' % self.ns)
        self.emit_fns()
        w('}')
        for n in range(len(self.s['recs'])):
            w('namespace %s {' % self.ns)
            w(self.rec_type(n))
            w('}')
            w(self.glue(n))
        w('namespace %s { using T = R%d; }' % (self.ns, self.s['top']))
        return '\n'.join(self.out)

    def emit_fns_plain(self):
        for i, f in enumerate(self.s['fns']):
            ps = ', '.join('u64 m%d' % k for k in range(f['n']))
            un = ' '.join('(void)m%d;' % k for k in range(f['n']))
            self.out.append('constexpr u64 e%d(%s) { %s return static_cast<u64>(%s); }' % (i, ps, un, f['expr']))

    def registration(self, name, pair=-1, model_only=False):
        out = []
        w = out.append
        w('namespace %s {' % self.ns)
        fns = []
        for i, f in enumerate(self.s['fns']):
            e = 'e%d(%s)' % (i, ', '.join('m[%d]' % k for k in range(f['n'])))
            cast = {'bool': 'bool', 'u64': 'u64', 'u32': 'u32', 'u16': 'u16', 'u8': 'u8', 'int': 'int'}[f['ret']]
            fns.append('+[]([[maybe_unused]] const u64* m) -> u64 { return static_cast<u64>(static_cast<%s>(%s)); }' % (cast, e))
        w('const hv::Fn fns[] = {%s};' % (', '.join(fns) or 'nullptr'))
        w('const std::size_t sizes[] = {%s};' % ', '.join('1' if model_only else 'sizeof(R%d)' % n for n in range(len(self.s['recs']))))
        w('const int reg = [] {')
        w('  hv::SchemaReg r{};')
        w('  r.name = "%s"; r.fns = fns; r.sizes = sizes; r.pair = %d;' % (name, pair))
        w('  r.desc = "%s";' % self.desc())
        be = 'false' if self.s['le_only'] else 'true'
        if model_only:
            w('  r.ops.has_be = %s; r.default_ceiling = 1 << 24;' % be)
            w('  hv::registry().push_back(std::move(r)); return 0; }();')
            w('}')
            return '\n'.join(out)
        w('  r.ops = hv::make_ops<T, %s>();' % be)
        w('  r.default_ceiling = HV_DEFAULT_CEILING;')
        if self.subs:
            for n in range(len(self.s['recs'])):
                if n != self.s['top']:
                    w('  r.subs.push_back({%d, hv::make_ops<R%d, %s>()});' % (n, n, be))
        top = self.s['recs'][self.s['top']]
        for f in top['fields']:
            w('  r.policy.push_back(hv::policy_of<T>(%s_f));' % q(f['id']))
        w('  hv::registry().push_back(std::move(r)); return 0; }();')
        w('}')
        return '\n'.join(out)


def tu(schemas, subs=False):
    """schemas: [(name, schema, pair index or -1)]"""
    out = ['#include "harness.hpp"', '']
    for i, (name, s, pair) in enumerate(schemas):
        e = Emit(s, 'S%d' % i, subs)
        out.append(e.types())
        out.append(e.registration(name, pair))
    return '\n'.join(out) + '\n'


def model_tu(schemas):
    """the descriptions alone, without s2s: enough for the model to make cases"""
    out = ['#include "api.hpp"', '']
    for i, (name, s) in enumerate(schemas):
        e = Emit(s, 'S%d' % i)
        e.emit_fns_plain()
        out.append('namespace S%d {' % i)
        out += e.out
        out.append('}')
        out.append(e.registration(name, model_only=True))
    return '\n'.join(out) + '\n'


def ct_tu(schemas, cases):
    """schemas: [(name, schema)]; cases: [(id, line)], lines from --dump, with
    the schema number indexing `schemas`. One static_assert per case, and the
    same case at run time on both kinds of stream."""
    out = ['#include "ct.hpp"', '']
    for i, (name, s) in enumerate(schemas):
        out.append(Emit(s, 'S%d' % i).types())
    table = []
    for cid, line in cases:
        p = line.split()
        si, be, ok, reason, at = int(p[1]), p[2] == '1', p[3] == '1', int(p[4]), int(p[5])
        s = schemas[si][1]
        ids = [f['id'] for f in s['recs'][s['top']]['fields']]
        at = q(ids[at]) if not ok else '""'
        T = 'S%d::T, %s' % (si, 'true' if be else 'false')
        if p[0] == 'R':
            lo, hi, partial = p[6], p[7], p[8]
            n = int(p[9])
            a, rest = p[10:10 + n], p[10 + n:]
            b = rest[1:]
            out.append('constexpr u8 in%d[] = {%s};' % (cid, ', '.join(a + ['0'])))
            out.append('constexpr u64 tk%d[] = {%s};' % (cid, ', '.join(x + 'ul' for x in b + ['0'])))
            call = 'hv::ct::rd<%s, %%s>(in%d, %d, %d, %d, %s, %s, %s, %s, tk%d, %d)' % (T, cid, n, ok, reason, at, lo, hi, partial, cid, len(b))
        else:
            lo, cap, partial, alt = p[6], p[7], p[8], p[9]
            n = int(p[10])
            a, rest = p[11:11 + n], p[11 + n:]
            b = rest[1:]
            out.append('constexpr u64 tk%d[] = {%s};' % (cid, ', '.join(x + 'ul' for x in a + ['0'])))
            out.append('constexpr u8 out%d[] = {%s};' % (cid, ', '.join(b + ['0'])))
            call = 'hv::ct::wr<%s, %%s>(tk%d, out%d, %d, %d, %d, %s, %s, %s, %sul, %s)' % (T, cid, cid, len(b), ok, reason, alt, at, lo, cap, partial)
        out.append('static_assert(%s, "HVCASE %d");' % (call % 'hv::CS', cid))
        table.append('{%d, +[] { return %s; }, "MS"}' % (cid, call % 'hv::MS'))
        table.append('{%d, +[] { return %s; }, "CS"}' % (cid, call % 'hv::CS'))
    out.append('const hv::ct::Case cases[] = {%s};' % ',\n  '.join(table))
    out.append('int main() { int n = 0; for (const auto& c : cases) { bool ok = false; try { ok = c.fn(); } catch (...) {} '
               'if (!ok) { std::printf("HVRUN %d %s\\n", c.id, c.stream); ++n; } } return n ? 9 : 0; }')
    return '\n'.join(out) + '\n'
