"""One mistake in a well-formed schema. make(schema, seed) gives a description
of the mistake and two programs: the schema as it is, and with the mistake."""
import copy
import random

from emit import Emit, q
from schema import INTS, tsize, dom

PROLOGUE = '#include "harness.hpp"\n'
NOSUCH = ['nosuch', 'le', 'Len', 'len ', 'x1x', 'lenn', 'data0', '']


class Bad(Emit):
    """Emit with the ids one field sees replaced, and one field's options edited"""

    def __init__(self, schema, rec=None, victim=None, rename=None, edit=None, front=None, back=None, edit_alt=None):
        super().__init__(schema, 'P')
        self.rec_no, self.victim, self.rename, self.edit = rec, victim, rename or {}, edit
        self.front, self.back, self.edit_alt = front, back, edit_alt
        self.live = False
        self.alt_no = None

    def opts(self, parts, r):
        parts = list(parts)
        if self.live and self.edit and (self.edit_alt is None or self.alt_no == self.edit_alt):
            parts = self.edit(parts)
        r.shuffle(parts)
        return ''.join(', ' + p for p in parts)

    def own_opts(self, parts):
        return self.edit(parts) if self.live and self.edit and self.edit_alt == 'self' else parts

    def tag(self, rec, f):
        self.alt_no = next((i for i, a in enumerate(self.cur.get('alts', [])) if a is f), None)
        t = super().tag(rec, f)
        self.alt_no = None
        return t

    def rec_type(self, n):
        rec = self.s['recs'][n]
        out = []
        for i, f in enumerate(rec['fields']):
            self.live = n == self.rec_no and i == self.victim
            self.cur = f
            if self.live and self.rename:
                rr = {'fields': [dict(g, id=self.rename.get(j, g['id'])) for j, g in enumerate(rec['fields'])]}
                out.append(self.field(rr, f, None))
            else:
                out.append(self.field(rec, f))
            self.live = False
        if n == self.rec_no and self.front:
            out.insert(0, self.front)
        if n == self.rec_no and self.back:
            out.append(self.back)
        return 'using R%d = s2s::struct_field_list<\n  %s>;' % (n, ',\n  '.join(out))

    def program(self):
        self.out = []
        self.emit_fns()
        fns = '\n'.join(self.out)
        recs = '\n'.join(self.rec_type(n) + '\n' + self.glue_decl(n) for n in range(len(self.s['recs'])))
        T = 'R%d' % self.s['top']
        return PROLOGUE + 'namespace P {\n%s\n%s\n}\n' % (fns, recs) + \
            'bool use(hv::MS& s) { auto r = s2s::struct_cast_le<P::%s>(s); return r && s2s::stream_cast_le<P::%s>(s, *r).has_value(); }\n' % (T, T)

    def glue_decl(self, n):
        # callables over records go through hv::measure; any number will do here
        return '} template <> struct hv::Glue<P::R%d> { static constexpr bool is_record = true; ' \
               'static constexpr u64 measure(const P::R%d&) { return 1; } }; namespace P {' % (n, n)


def deps(f):
    """[(what, dependency index)] of one field"""
    out = []

    def size(s, what):
        if s['k'] == 'field':
            out.append((what, s['i']))
        else:
            out.extend(('computed ' + what, a) for a in s['a'])
    if f['k'] in ('vec', 'str', 'vecrec'):
        size(f['s'], 'length')
    if f['k'] == 'maybe':
        b = f['b']
        if b['k'] in ('vec', 'str', 'vecrec'):
            size(b['s'], 'length of an optional')
        out.extend(('presence', a) for a in f['p']['a'])
    if f['k'] == 'union':
        for a in f['alts']:
            if a['k'] in ('vec', 'str', 'vecrec'):
                size(a['s'], 'length of an alternative')
        if f['mode'] == 'match':
            out.append(('discriminant', f['m']))
        elif f['mode'] == 'compute':
            out.extend(('computed type', a) for a in f['x']['a'])
        else:
            out.extend(('branch', a) for p in f['preds'] for a in p['a'])
    return out


NONINT = ['s2s::fixed_array_field<%s, u8, 2>', 's2s::fixed_string_field<%s, 3>', 's2s::c_str_field<%s, 2>', 's2s::c_arr_field<%s, u16, 2>',
          's2s::fixed_array_field<%s, u32, 1>', 's2s::maybe<s2s::basic_field<%s, u16>, s2s::always_present>',
          's2s::magic_string<%s, "ab">', 's2s::struct_field<%s, s2s::struct_field_list<s2s::basic_field<"inner", u8>>>']


def mistakes(schema, r):
    """[(kind, text, make)] that apply to this schema; make() -> (Bad, Bad)"""
    out = []
    for n, rec in enumerate(schema['recs']):
        fs = rec['fields']
        used = {f['id'] for f in fs}
        if len(fs) >= 2:
            def dup(n=n, fs=fs):
                i, j = r.sample(range(len(fs)), 2)
                s = copy.deepcopy(schema)
                s['recs'][n]['fields'][j]['id'] = fs[i]['id']
                return Bad(schema), Bad(s), "id %s given twice" % q(fs[i]['id'])
            out.append(('repeated id', dup))
        for i, f in enumerate(fs):
            for what, d in deps(f):
                def absent(n=n, i=i, d=d, what=what, used=used):
                    x = r.choice([c for c in NOSUCH if c not in used])
                    return Bad(schema), Bad(schema, n, i, {d: x}), '%s of %s taken from %s, which is not there' % (what, q(fs_id(schema, n, i)), q(x))
                out.append(('absent ' + what, absent))

                def late(n=n, i=i, d=d, what=what, fs=fs):
                    b = 's2s::basic_field<"zz_late", u8>'
                    x = 'zz_late'
                    later = [g['id'] for g in fs[i + 1:] if g['k'] == 'int']
                    if later and r.random() < 0.5:
                        x = r.choice(later)
                    return Bad(schema, n, back=b), Bad(schema, n, i, {d: x}, back=b), '%s of %s taken from the later %s' % (what, q(fs_id(schema, n, i)), q(x))
                out.append(('later ' + what, late))

                def own(n=n, i=i, d=d, what=what):
                    x = fs_id(schema, n, i)
                    return Bad(schema), Bad(schema, n, i, {d: x}), '%s of %s taken from itself' % (what, q(x))
                out.append(('own ' + what, own))

                if what in ('length', 'length of an optional', 'length of an alternative', 'discriminant'):
                    def nonint(n=n, i=i, d=d, what=what):
                        t = r.choice(NONINT) % '"zz_front"'
                        return Bad(schema, n, front=t), Bad(schema, n, i, {d: 'zz_front'}, front=t), '%s of %s taken from %s' % (what, q(fs_id(schema, n, i)), t)
                    out.append(('non-integer ' + what, nonint))
            out += field_mistakes(schema, n, i, f, r)
    return out


def fs_id(schema, n, i):
    return schema['recs'][n]['fields'][i]['id']


def field_mistakes(schema, n, i, f, r):
    out = []
    k = f['k']

    def plus(*extra):
        return lambda parts: parts + list(extra)

    def opt(name, text, edit, alt=None):
        def go():
            return Bad(schema), Bad(schema, n, i, edit=edit, edit_alt=alt), '%s in %s%s' % (text, q(f['id']), ' alternative %d' % alt if isinstance(alt, int) else '')
        out.append((name, go))

    def options(g, alt=None, where=''):
        kk = g['k']
        if kk == 'int':
            t = g['t']
            opt('width twice' + where, 'two widths', lambda p: [x for x in p if '_B' not in x and 'byte_count' not in x] + ['1_B', '%d_B' % tsize(t)], alt)
            if tsize(t) < 8 or True:
                w = r.choice([tsize(t) + 1, tsize(t) * 2, tsize(t) + 7])
                opt('width too wide' + where, 'width %d for %s' % (w, t), lambda p: [x for x in p if '_B' not in x and 'byte_count' not in x] + ['%d_B' % w], alt)
            if t in INTS:
                if where != ' in an optional':
                    opt('constraint twice' + where, 'two constraints',
                        lambda p: [x for x in p if '_B' in x or 'byte_count' in x] + ['s2s::neq{%s(1)}' % t, 's2s::neq{%s(2)}' % t], alt)
                opt('bound on a scalar' + where, 'max_bytes', plus('s2s::max_bytes<64>'), alt)
                opt('unrecognised option' + where, '42', plus('42'), alt)
                opt('length on a scalar' + where, 'len_from_field', lambda p: [x for x in p if '_B' not in x and 'byte_count' not in x] + ['s2s::len_from_field<%s>' % q(schema['recs'][n]['fields'][0]['id'])], alt)
        elif kk in ('arr', 'carr', 'fstr', 'cstr', 'rec', 'arrrec'):
            if kk in ('carr', 'cstr') and alt is not None:
                return
            opt('bound on a fixed-size field' + where, 'max_bytes', plus('s2s::max_bytes<64>'), alt)
            opt('width on a fixed-size field' + where, '2_B', plus('2_B'), alt)
            opt('unrecognised option' + where, 'an integer', plus('7u'), alt)
        elif kk in ('vec', 'str', 'vecrec'):
            size = lambda p: [x for x in p if 'len_from' in x or 'size_from' in x]
            rest = lambda p: [x for x in p if x not in size(p)]
            opt('length twice' + where, 'two lengths', lambda p: p + size(p), alt)
            opt('no length' + where, 'no length', rest, alt)
            opt('bound twice' + where, 'two max_bytes', lambda p: [x for x in p if 'max_bytes' not in x and 'default_bound' not in x] + ['s2s::max_bytes<64>', 's2s::max_bytes<65>'], alt)
            opt('width for a length' + where, 'a fixed width', lambda p: rest(p) + ['2_B'], alt)
            opt('unrecognised option' + where, 'an integer', plus('7u'), alt)
            if where != ' in an optional':
                opt('constraint twice' + where, 'two constraints', lambda p: [x for x in p if x in size(p) or 'max_bytes' in x] +
                    ['[](const auto&) { return true; }', '[](const auto& a) { return a.size() < 99; }'], alt)
    if k == 'union':
        for j, a in enumerate(f['alts']):
            options(a, j, ' in an alternative')
        if f['mode'] != 'ladder' and len(f['alts']) >= 2:
            def twice():
                s = copy.deepcopy(schema)
                v = s['recs'][n]['fields'][i]['vals']
                a, b = r.sample(range(len(v)), 2)
                v[b] = v[a]
                return Bad(schema), Bad(s), 'case %d given twice in %s' % (v[a], q(f['id']))
            out.append(('repeated match value', twice))
        if len(f['alts']) >= 2:
            def same():
                s = copy.deepcopy(schema)
                v = s['recs'][n]['fields'][i]['alts']
                a, b = r.sample(range(len(v)), 2)
                v[b] = copy.deepcopy(v[a])
                return Bad(schema), Bad(s), 'alternatives %d and %d of %s have one type' % (a, b, q(f['id']))
            out.append(('repeated alternative type', same))
        opt('bound on a union', 'max_bytes', plus('s2s::max_bytes<64>'), 'self')
        opt('width on a union', '2_B', plus('2_B'), 'self')
        opt('constraint twice on a union', 'two constraints', lambda p: ['[](const auto&) { return true; }', '[](const auto& a) { return a.index() < 9; }'], 'self')
    elif k == 'magicnum':
        def wide():
            s = copy.deepcopy(schema)
            w = r.choice([tsize(f['t']) + 1, tsize(f['t']) * 2])
            s['recs'][n]['fields'][i]['w'] = w
            return Bad(schema), Bad(s), 'width %d for the magic %s %s' % (w, f['t'], q(f['id']))
        out.append(('magic too wide', wide))
    elif k == 'maybe':
        options(f['b'], None, ' in an optional')
        if f['b']['k'] in ('int', 'arr', 'fstr', 'vec', 'str', 'rec', 'vecrec', 'arrrec'):
            opt('constraint in an optional', 'a constraint', plus(r.choice(
                ['[](const auto&) { return true; }', 's2s::neq{%s(1)}' % f['b']['t'] if f['b']['k'] == 'int' and f['b']['t'] in INTS else '[](const auto&) { return false; }'])))
    else:
        options(f)
    return out


def near(schema, r):
    """(text, program): the schema with fields added that come close to a mistake without making one"""
    n = r.randrange(len(schema['recs']))
    fs = schema['recs'][n]['fields']
    used = {f['id'] for f in fs}
    fields, what = [], []

    def ids():
        x = r.choice(fs)['id']
        c = [x + '_', x + '0', x[:-1], x.swapcase(), x[::-1], '_' + x, ' ' + x, x + ' ', x + x, x[1:], x[:-1] + 'q', 'q' + x[1:]]
        c = [i for i in c if i not in used and '\\' not in i and '"' not in i]
        for i in r.sample(c, min(len(c), 3)):
            if i not in used:
                used.add(i)
                fields.append('s2s::basic_field<%s, u8>' % q(i))
        what.append('ids close to ' + q(x))

    def cases():
        if r.random() < 0.5:
            v = r.choice([0, 1, 2, 7, 255, 1000])
            vals = [v] + [v ^ (1 << b) for b in r.sample([7, 8, 15, 16, 31, 32, 40, 62], r.randint(1, 6))]
            t = 'u64'
        else:
            vals = r.sample([-1, 255, 65535, 4294967295, 127, -128, 128, -256, 256, 0], r.randint(2, 7))
            t = 'i64'
        types = r.sample(['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'char'], len(vals))
        r.shuffle(vals)
        how = 's2s::match_field<"zz_k">' if r.random() < 0.7 else 's2s::compute<[](const auto& k) { return i64(k); }, i64, "zz_k">'
        fields.append('s2s::basic_field<"zz_k", %s>' % t)
        fields.append('s2s::variance<"zz_u", s2s::type<%s, s2s::type_switch<%s>>>' % (
            how, ', '.join('s2s::match_case<%d, s2s::as_trivial<%s>>' % x for x in zip(vals, types))))
        what.append('cases ' + ' '.join(map(str, vals)))

    def types():
        pool = ['s2s::as_trivial<%s>' % t for t in ('u8', 'i8', 'char', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64')] + \
            ['s2s::as_fixed_arr<%s, %d>' % (t, k) for t in ('u8', 'i8', 'u16') for k in (1, 3, 4)] + \
            ['s2s::as_fixed_string<3>', 's2s::as_fixed_string<4>'] + \
            ['s2s::as_vec<%s, s2s::len_from_field<"zz_b">>' % t for t in ('u8', 'i8', 'u16')] + ['s2s::as_string<s2s::len_from_field<"zz_b">>']
        alts = r.sample(pool, r.randint(2, 9))
        fields.append('s2s::basic_field<"zz_b", u8>')
        fields.append('s2s::variance<"zz_l", s2s::type<s2s::type_if_else<%s>>>' % ', '.join(
            's2s::branch<s2s::predicate<[](const auto& b) { return b == %d; }, "zz_b">, %s>' % (i, a) for i, a in enumerate(alts)))
        what.append('alternatives ' + ' '.join(a[5:] for a in alts))

    def late():
        # everything that came before may be looked at, the field right before too
        names = r.sample([f['id'] for f in fs], min(len(fs), r.randint(1, 7)))
        fields.append('s2s::basic_field<"zz_n", %s>' % r.choice(['u8', 'u16', 'i32', 'u64']))
        args = ''.join(', ' + q(i) for i in names + ['zz_n'])
        k = r.randrange(4)
        fields.append(['s2s::str_field<"zz_v", s2s::len_from_field<"zz_n">%s>' % r.choice(['', ', s2s::max_bytes<0>', ', s2s::max_bytes<18446744073709551615ull>']),
                       's2s::vec_field<"zz_v", u16, s2s::len_from_fields<[](const auto&...) { return std::size_t{0}; }%s>>' % args,
                       's2s::maybe<s2s::vec_field<"zz_v", u32, s2s::len_from_field<"zz_n">>, s2s::predicate<[](const auto&...) { return true; }%s>>' % args,
                       's2s::maybe<s2s::basic_field<"zz_v", u16>, s2s::predicate<[](const auto&...) { return false; }%s>>' % args][k])
        what.append('a field over %s and the field right before it' % ' '.join(map(q, names)))

    def widths():
        for i, t in enumerate(r.sample(['u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64'], 3)):
            fields.append('s2s::basic_field<"zz_w%d", %s, %d_B>' % (i, t, r.choice([tsize(t), r.randint(1, tsize(t))])))
        t = r.choice(['u16', 'u32', 'u64'])
        fields.append('s2s::magic_number<"zz_m", %s, %d_B, %d>' % (t, tsize(t), 1 << (8 * tsize(t) - 2)))
        what.append('widths up to the whole type')
    for k in r.sample([ids, cases, types, late, widths], r.randint(1, 3)):
        k()
    return ', '.join(what), Bad(schema, n, back=',\n  '.join(fields)).program()


def make(schema, seed, kinds=None):
    """(kind, text, good program, bad program) or None"""
    r = random.Random(seed)
    m = mistakes(schema, r)
    names = sorted({k for k, _ in m})
    if kinds is not None:
        names = [k for k in names if k in kinds] or names
    if not names:
        return None
    k = r.choice(names)
    go = r.choice([g for kk, g in m if kk == k])
    good, bad, text = go()
    return k, text, good.program(), bad.program()
