// An independent reference model of a schema's wire format and of the two
// casts, written over the serialized description (gen/emit.py). It shares no
// code with s2s; callables are the only thing both sides run, each over numbers
// it computes itself.
#ifndef HV_MODEL_HPP
#define HV_MODEL_HPP

#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "api.hpp"

namespace hv {

enum FK { INT, SEQ, REC, ARRREC, VECREC, MAYBE, UNION };
enum Op { NONE, EQ, NEQ, LT, GT, LTE, GTE, ANYOF, FN };
enum Reason { EXHAUST = 0, INVALID = 1, NOTYPE = 2, CONTRA = 3, EXCESS = 4 };

inline const char* reason_name(int r) {
  static const char* n[] = {"buffer_exhaustion", "validation_failure", "type_deduction_failure", "found_contradicting_length", "excessive_length"};
  return r >= 0 && r < 5 ? n[r] : "?";
}

struct Con { int op = NONE, fn = -1; std::vector<std::vector<u64>> vals; };
struct SizeSrc { int kind = 0, idx = -1, fn = -1; std::vector<int> args; };

struct Field;
struct Alt;

struct Field {
  int kind = INT;
  std::string id;
  bool hidden = false, ro = false, frozen = false, small = false;
  Con con;
  int tsize = 0, width = 0;   // INT; SEQ: tsize = element size
  int sgn = 0;               // 0 unsigned, 1 signed, 2 bool
  u64 count = 0;              // SEQ: elements (fixed) or scalars per element (variable); ARRREC: records
  SizeSrc size;
  u64 ceiling = 0;
  bool dflt = false;          // ceiling is the default one
  int rec = -1;
  std::vector<Field> base;    // MAYBE
  int fn = -1;                // MAYBE predicate (-1: always), UNION compute
  std::vector<int> args;
  int mode = 0, midx = -1, rsize = 0;
  bool rsgn = false;
  std::vector<Alt> alts;
  // uses of this field by its siblings, filled in after parsing
  bool is_len = false, is_clen = false, is_disc = false;
  bool rw() const { return !hidden && !ro; }
};

struct Alt { u64 val = 0; int fn = -1; std::vector<int> args; std::vector<Field> f; };

struct Rec { std::vector<Field> f; };

struct Desc {
  std::vector<Rec> recs;
  int top = 0;
  const SchemaReg* reg = nullptr;
  const Field& field(std::size_t i) const { return recs[top].f[i]; }
};

struct Val {
  u64 num = 0;
  std::vector<u64> data;
  std::vector<Val> kids;
  int tag = 0;
};

// -------------------------------------------------------------------- parsing
struct Parser {
  std::vector<std::string> t;
  std::size_t p = 0;
  const SchemaReg& reg;
  explicit Parser(const SchemaReg& r) : reg(r) {
    std::istringstream s(r.desc);
    std::string x;
    while (s >> x) t.push_back(x);
  }
  long n() { return std::strtol(t.at(p++).c_str(), nullptr, 10); }
  u64 v() {
    const std::string& s = t.at(p++);
    if (s[0] == '-') return static_cast<u64>(std::strtoll(s.c_str(), nullptr, 10));
    return std::strtoull(s.c_str(), nullptr, 10);
  }
  std::vector<int> ints() {
    std::vector<int> o(static_cast<std::size_t>(n()));
    for (auto& x : o) x = static_cast<int>(n());
    return o;
  }
  SizeSrc size() {
    SizeSrc s;
    s.kind = static_cast<int>(n());
    if (s.kind == 1) s.idx = static_cast<int>(n());
    if (s.kind == 2) { s.fn = static_cast<int>(n()); s.args = ints(); }
    return s;
  }
  void ceil(Field& f) {
    const long c = n();
    f.dflt = c < 0;
    f.ceiling = c < 0 ? reg.default_ceiling : static_cast<u64>(c);
  }
  Field field() {
    Field f;
    f.kind = static_cast<int>(n());
    const long len = n();
    for (long i = 0; i < len; ++i) f.id += static_cast<char>(n());
    f.hidden = n(); f.ro = n(); f.frozen = n(); f.small = n();
    f.con.op = static_cast<int>(n());
    if (f.con.op == FN) f.con.fn = static_cast<int>(n());
    else if (f.con.op != NONE) {
      const long k = n();
      for (long i = 0; i < k; ++i) {
        std::vector<u64> x(static_cast<std::size_t>(n()));
        for (auto& e : x) e = v();
        f.con.vals.push_back(x);
      }
    }
    switch (f.kind) {
      case INT: f.tsize = static_cast<int>(n()); f.sgn = static_cast<int>(n()); f.width = static_cast<int>(n()); break;
      case SEQ: f.tsize = static_cast<int>(n()); f.sgn = static_cast<int>(n()); f.count = v(); f.size = size(); ceil(f); break;
      case REC: f.rec = static_cast<int>(n()); break;
      case ARRREC: f.rec = static_cast<int>(n()); f.count = v(); break;
      case VECREC: f.rec = static_cast<int>(n()); f.size = size(); ceil(f); break;
      case MAYBE: f.base.push_back(field()); f.fn = static_cast<int>(n()); f.args = ints(); break;
      case UNION: {
        f.mode = static_cast<int>(n());
        if (f.mode == 0) f.midx = static_cast<int>(n());
        if (f.mode == 1) { f.fn = static_cast<int>(n()); f.rsize = static_cast<int>(n()); f.rsgn = n(); f.args = ints(); }
        const long k = n();
        for (long i = 0; i < k; ++i) {
          Alt a;
          if (f.mode == 2) { a.fn = static_cast<int>(n()); a.args = ints(); } else a.val = v();
          a.f.push_back(field());
          f.alts.push_back(std::move(a));
        }
        break;
      }
    }
    return f;
  }
  Desc desc() {
    Desc d;
    d.reg = &reg;
    const long k = n();
    d.top = static_cast<int>(n());
    for (long i = 0; i < k; ++i) {
      Rec r;
      const long m = n();
      for (long j = 0; j < m; ++j) r.f.push_back(field());
      for (auto& g : r.f) {
        if ((g.kind == SEQ || g.kind == VECREC) && g.size.kind == 1) r.f[static_cast<std::size_t>(g.size.idx)].is_len = true;
        if (g.kind == MAYBE && g.base[0].size.kind == 1) r.f[static_cast<std::size_t>(g.base[0].size.idx)].is_clen = true;
        if (g.kind == UNION) {
          if (g.mode == 0) r.f[static_cast<std::size_t>(g.midx)].is_disc = true;
          for (auto& a : g.alts) if (a.f[0].size.kind == 1) r.f[static_cast<std::size_t>(a.f[0].size.idx)].is_clen = true;
        }
      }
      d.recs.push_back(std::move(r));
    }
    return d;
  }
};

inline Desc parse_desc(const SchemaReg& r) { return Parser(r).desc(); }

// -------------------------------------------------------------------- numbers
inline u64 low(u64 v, int bytes) { return bytes >= 8 ? v : v & ((u64{1} << (8 * bytes)) - 1); }
inline u64 sext(u64 v, int bytes, bool sgn) {
  v = low(v, bytes);
  if (sgn && bytes < 8 && (v >> (8 * bytes - 1))) v |= ~u64{0} << (8 * bytes);
  return v;
}
// canonical value of a scalar of `tsize` bytes
inline u64 as_type(u64 v, int tsize, int sgn) { return sgn == 2 ? v != 0 : sext(v, tsize, sgn == 1); }

inline bool lessv(u64 a, u64 b, bool sgn) {
  return sgn ? static_cast<i64>(a) < static_cast<i64>(b) : a < b;
}

inline bool var_size(const Field& f) { return (f.kind == SEQ || f.kind == VECREC) && f.size.kind != 0; }

inline u64 mixm(u64 acc, u64 m) { return acc * 3 + m + 1; }

inline u64 measure(const Desc& d, const Field& f, const Val& v);

inline u64 measure_rec(const Desc& d, int r, const Val& v) {
  u64 a = 0;
  const auto& fs = d.recs[static_cast<std::size_t>(r)].f;
  for (std::size_t i = 0; i < fs.size(); ++i)
    if (fs[i].rw()) a = mixm(a, measure(d, fs[i], v.kids[i]));
  return a;
}

inline u64 measure(const Desc& d, const Field& f, const Val& v) {
  u64 a = 0;
  switch (f.kind) {
    case INT: return v.num;
    case SEQ:
      if (var_size(f)) return v.data.size() / f.count;
      for (u64 x : v.data) a = mixm(a, x);
      return a;
    case REC: return measure_rec(d, f.rec, v);
    case ARRREC:
      for (const auto& k : v.kids) a = mixm(a, measure_rec(d, f.rec, k));
      return a;
    case VECREC: return v.kids.size();
    case MAYBE: return v.tag ? measure(d, f.base[0], v.kids[0]) + 1 : 0;
    case UNION: return static_cast<u64>(v.tag) * 7 + measure(d, f.alts[static_cast<std::size_t>(v.tag)].f[0], v.kids[0]);
  }
  return 0;
}

inline u64 call(const Desc& d, const Rec& r, const Val& rec, int fn, const std::vector<int>& args) {
  u64 m[16] = {};
  for (std::size_t i = 0; i < args.size(); ++i)
    m[i] = measure(d, r.f[static_cast<std::size_t>(args[i])], rec.kids[static_cast<std::size_t>(args[i])]);
  return d.reg->fns[fn](m);
}

inline bool con_ok(const Desc& d, const Field& f, const Val& v) {
  const Con& c = f.con;
  if (c.op == NONE) return true;
  if (c.op == FN) { const u64 m = measure(d, f, v); return d.reg->fns[c.fn](&m) != 0; }
  const std::vector<u64> x = f.kind == INT ? std::vector<u64>{v.num} : v.data;
  auto lex = [&](const std::vector<u64>& a, const std::vector<u64>& b) {
    for (std::size_t i = 0; i < a.size() && i < b.size(); ++i) {
      if (lessv(a[i], b[i], f.sgn)) return true;
      if (lessv(b[i], a[i], f.sgn)) return false;
    }
    return a.size() < b.size();
  };
  const auto& y = c.vals[0];
  switch (c.op) {
    case EQ: return x == y;
    case NEQ: return x != y;
    case LT: return lex(x, y);
    case GT: return lex(y, x);
    case LTE: return !lex(y, x);
    case GTE: return !lex(x, y);
    case ANYOF:
      for (const auto& z : c.vals) if (x == z) return true;
      return false;
  }
  return true;
}

// A length or discriminant a slot can hold and give back.
inline bool fits(const Field& f, u64 v) {
  if (f.width < f.tsize && (v >> (8 * f.width)) != 0) return false;
  return as_type(v, f.tsize, f.sgn) == v;
}

inline u64 elem_bytes(const Desc& d, const Field& f) {
  if (f.kind == VECREC) return d.reg->sizes[f.rec];
  return static_cast<u64>(f.tsize) * f.count;
}

inline u64 size_of(const Desc&, const Field& f, const Val& v) {
  return f.kind == VECREC ? v.kids.size() : v.data.size() / f.count;
}

// the length a container's size source gives, from the siblings' values
inline u64 len_of(const Desc& d, const Rec& r, const Val& rec, const Field& f) {
  if (f.size.kind == 1) return rec.kids[static_cast<std::size_t>(f.size.idx)].num;
  return call(d, r, rec, f.size.fn, f.size.args);
}

inline bool present(const Desc& d, const Rec& r, const Val& rec, const Field& f) {
  return f.fn < 0 || call(d, r, rec, f.fn, f.args) != 0;
}

// alternative index, or -1
inline int deduce(const Desc& d, const Rec& r, const Val& rec, const Field& f) {
  if (f.mode == 2) {
    for (std::size_t i = 0; i < f.alts.size(); ++i)
      if (call(d, r, rec, f.alts[i].fn, f.alts[i].args)) return static_cast<int>(i);
    return -1;
  }
  u64 x;
  if (f.mode == 0) x = rec.kids[static_cast<std::size_t>(f.midx)].num;
  else x = as_type(call(d, r, rec, f.fn, f.args), f.rsize, f.rsgn);
  for (std::size_t i = 0; i < f.alts.size(); ++i)
    if (f.alts[i].val == x) return static_cast<int>(i);
  return -1;
}

// -------------------------------------------------------------------- reading
struct MRead {
  bool ok = false;
  int reason = -1;
  int at = -1;                 // index of the failing top-level field
  const Field* leaf = nullptr; // innermost failing field
  std::size_t lo = 0, hi = 0;  // where the stream may stand afterwards
  Val v;
  u64 max_alloc = 0;           // largest footprint of an accepted container
  bool saw_narrow = false;
};

struct Reader {
  const Desc& d;
  const Bytes& b;
  bool be;
  std::size_t pos;
  MRead& m;

  bool fail(int reason, const Field& f, std::size_t lo, std::size_t hi) {
    m.reason = reason; m.leaf = &f; m.lo = lo; m.hi = hi;
    return false;
  }
  bool scalar(u64& out, int n) {
    if (b.size() - pos < static_cast<std::size_t>(n)) return false;
    out = 0;
    for (int i = 0; i < n; ++i) {
      const u64 x = b[pos + static_cast<std::size_t>(i)];
      if (be) out = (out << 8) | x;
      else out |= x << (8 * i);
    }
    pos += static_cast<std::size_t>(n);
    return true;
  }
  bool record(int r, Val& v) {
    const Rec& rec = d.recs[static_cast<std::size_t>(r)];
    v.kids.assign(rec.f.size(), Val{});
    for (std::size_t i = 0; i < rec.f.size(); ++i)
      if (!field(rec, v, rec.f[i], v.kids[i])) return false;
    return true;
  }
  // a field with its constraint, whichever position it is in
  bool field(const Rec& rec, Val& env, const Field& f, Val& out) {
    if (!payload(rec, env, f, out)) return false;
    if (!con_ok(d, f, out)) return fail(INVALID, f, pos, pos);
    return true;
  }
  bool payload(const Rec& rec, Val& env, const Field& f, Val& out) {
    const std::size_t start = pos;
    switch (f.kind) {
      case INT: {
        u64 x;
        if (!scalar(x, f.width)) return fail(EXHAUST, f, start, b.size());
        if (f.width < f.tsize) m.saw_narrow = true;
        if (f.sgn == 2 && x > 1) return fail(INVALID, f, pos, pos);   // no such bool
        out.num = as_type(x, f.tsize, f.sgn);
        return true;
      }
      case SEQ: {
        u64 n = f.count;
        if (var_size(f)) {
          const u64 len = len_of(d, rec, env, f);
          if (len > f.ceiling / elem_bytes(d, f)) return fail(EXCESS, f, start, start);
          m.max_alloc = std::max(m.max_alloc, len * elem_bytes(d, f));
          n = len * f.count;
        }
        if (n > (b.size() - pos) / static_cast<u64>(f.tsize)) return fail(EXHAUST, f, start, b.size());
        out.data.reserve(n);
        bool bad = false;
        for (u64 i = 0; i < n; ++i) {
          u64 x;
          scalar(x, f.tsize);
          bad |= f.sgn == 2 && x > 1;
          out.data.push_back(as_type(x, f.tsize, f.sgn));
        }
        if (bad) return fail(INVALID, f, start, pos);
        return true;
      }
      case REC: return record(f.rec, out);
      case ARRREC:
        out.kids.assign(f.count, Val{});
        for (auto& k : out.kids) if (!record(f.rec, k)) return false;
        return true;
      case VECREC: {
        const u64 len = len_of(d, rec, env, f);
        if (len > f.ceiling / elem_bytes(d, f)) return fail(EXCESS, f, start, start);
        m.max_alloc = std::max(m.max_alloc, len * elem_bytes(d, f));
        for (u64 i = 0; i < len; ++i) {
          out.kids.emplace_back();
          if (!record(f.rec, out.kids.back())) return false;
        }
        return true;
      }
      case MAYBE:
        out.tag = present(d, rec, env, f);
        if (!out.tag) return true;
        out.kids.emplace_back();
        return field(rec, env, f.base[0], out.kids[0]);
      case UNION: {
        const int i = deduce(d, rec, env, f);
        if (i < 0) return fail(NOTYPE, f, start, start);
        out.tag = i;
        out.kids.emplace_back();
        return field(rec, env, f.alts[static_cast<std::size_t>(i)].f[0], out.kids[0]);
      }
    }
    return false;
  }
};

inline MRead model_read(const Desc& d, int rec, const Bytes& b, bool be, std::size_t start = 0) {
  MRead m;
  Reader r{d, b, be, start, m};
  const Rec& rc = d.recs[static_cast<std::size_t>(rec)];
  m.v.kids.assign(rc.f.size(), Val{});
  for (std::size_t i = 0; i < rc.f.size(); ++i)
    if (!r.field(rc, m.v, rc.f[i], m.v.kids[i])) { m.at = static_cast<int>(i); return m; }
  m.ok = true;
  m.lo = m.hi = r.pos;
  return m;
}

// ------------------------------------------------------------------- encoding
struct Leaf {
  std::size_t off, len;   // of one scalar or one sequence
  int scalar;             // bytes per scalar
  const Field* f;
  int top;                // top-level field index
};

struct Enc {
  Bytes out;
  std::vector<Leaf> leaves;
  std::vector<std::size_t> top_end;  // offset after each top-level field completed
  int cur = -1;
  bool be = false;

  void scalar(u64 v, int n) {
    for (int i = 0; i < n; ++i) out.push_back(static_cast<u8>(v >> (8 * (be ? n - 1 - i : i))));
  }
  void integer(const Field& f, u64 v) {
    if (f.width) leaves.push_back({out.size(), static_cast<std::size_t>(f.width), f.width, &f, cur});
    scalar(v, f.width);
  }
  void seq(const Field& f, const std::vector<u64>& data) {
    leaves.push_back({out.size(), data.size() * static_cast<std::size_t>(f.tsize), f.tsize, &f, cur});
    for (u64 x : data) scalar(x, f.tsize);
  }
};

// what a record looks like on the wire, given the value of every field
inline void encode_rec(const Desc& d, int r, const Val& v, Enc& e, bool top);

inline void encode_field(const Desc& d, const Field& f, const Val& v, Enc& e) {
  switch (f.kind) {
    case INT: e.integer(f, v.num); break;
    case SEQ: e.seq(f, v.data); break;
    case REC: encode_rec(d, f.rec, v, e, false); break;
    case ARRREC: case VECREC: for (const auto& k : v.kids) encode_rec(d, f.rec, k, e, false); break;
    case MAYBE: if (v.tag) encode_field(d, f.base[0], v.kids[0], e); break;
    case UNION: encode_field(d, f.alts[static_cast<std::size_t>(v.tag)].f[0], v.kids[0], e); break;
  }
}

inline void encode_rec(const Desc& d, int r, const Val& v, Enc& e, bool top) {
  const auto& fs = d.recs[static_cast<std::size_t>(r)].f;
  for (std::size_t i = 0; i < fs.size(); ++i) {
    if (top) e.cur = static_cast<int>(i);
    encode_field(d, fs[i], v.kids[i], e);
    if (top) e.top_end.push_back(e.out.size());
  }
}

inline Enc encode(const Desc& d, int rec, const Val& v, bool be) {
  Enc e;
  e.be = be;
  encode_rec(d, rec, v, e, true);
  return e;
}

// -------------------------------------------------------------------- writing
struct MWrite {
  bool ok = false;
  int reason = -1, at = -1;
  const Field* leaf = nullptr;
  bool ambiguous = false;      // two readings of the precedence are both fine
  int alt_reason = -1;         // another reason that is acceptable here
  bool over_ceiling = false;   // holds a container the reader would refuse
  Enc e;                       // bytes up to the end or the failure
  Val wire;                    // every field as written (complete when ok)
};

struct Writer {
  const Desc& d;
  MWrite& m;

  bool fail(int reason, const Field& f) { m.reason = reason; m.leaf = &f; return false; }

  struct Derived { bool is = false; int reason = -1; u64 v = 0; int n_disc = 0; };

  Derived derive(const Rec& rec, const Val& v, std::size_t i) {
    Derived o;
    bool agreed = true;
    auto add = [&](u64 x) { if (o.is && x != o.v) agreed = false; o.is = true; o.v = x; };
    for (std::size_t j = 0; j < rec.f.size(); ++j) {
      const Field& g = rec.f[j];
      if ((g.kind == SEQ || g.kind == VECREC) && g.size.kind == 1 && static_cast<std::size_t>(g.size.idx) == i) add(size_of(d, g, v.kids[j]));
      if (g.kind == UNION && g.mode == 0 && static_cast<std::size_t>(g.midx) == i) { add(g.alts[static_cast<std::size_t>(v.kids[j].tag)].val); ++o.n_disc; }
    }
    if (!o.is) return o;
    if (!agreed) o.reason = CONTRA;
    else if (!fits(rec.f[i], o.v)) o.reason = INVALID;
    return o;
  }

  // obligations that hold only while their producer is written
  bool conditional(const Rec& rec, const Val& w, const std::vector<Derived>& der, std::size_t i, u64 value) {
    const Field& f = rec.f[i];
    if (!f.is_clen) return true;
    bool agreed = true, any = false;
    for (std::size_t j = 0; j < rec.f.size(); ++j) {
      const Field& g = rec.f[j];
      if (g.kind == MAYBE && g.base[0].size.kind == 1 && static_cast<std::size_t>(g.base[0].size.idx) == i) {
        if (!w.kids[j].tag) continue;
        for (int a : g.args) if (der[static_cast<std::size_t>(a)].reason >= 0) m.ambiguous = true;
        if (!present(d, rec, w, g)) continue;
        any = true;
        if (size_of(d, g.base[0], w.kids[j].kids[0]) != value) agreed = false;
      }
      if (g.kind == UNION) {
        const Field& a = g.alts[static_cast<std::size_t>(w.kids[j].tag)].f[0];
        if (a.size.kind == 1 && static_cast<std::size_t>(a.size.idx) == i) {
          any = true;
          bool ok = size_of(d, a, w.kids[j].kids[0]) == value;
          if (!ok) agreed = false;
          // a union that holds what its siblings do not select fails either way
          if (!ok && g.mode != 0) {
            bool unclear = false;
            auto note = [&](const std::vector<int>& args) { for (int x : args) if (der[static_cast<std::size_t>(x)].reason >= 0) unclear = true; };
            note(g.args);
            for (const auto& al : g.alts) note(al.args);
            if (unclear || deduce(d, rec, w, g) != w.kids[j].tag) m.ambiguous = true;
          }
        }
      }
    }
    if (!agreed) return fail(CONTRA, f);
    if (any && !fits(f, value)) return fail(INVALID, f);
    return true;
  }

  bool record(int r, const Val& v, Val& w, bool top) {
    const Rec& rec = d.recs[static_cast<std::size_t>(r)];
    std::vector<Derived> der;
    w = v;
    for (std::size_t i = 0; i < rec.f.size(); ++i) {
      der.push_back(derive(rec, v, i));
      if (der[i].is && der[i].reason < 0) w.kids[i].num = as_type(der[i].v, rec.f[i].tsize, rec.f[i].sgn);
      else if (rec.f[i].frozen) {
        if (rec.f[i].kind == INT) w.kids[i].num = rec.f[i].con.vals[0][0];
        else w.kids[i].data = rec.f[i].con.vals[0];
      }
    }
    for (std::size_t i = 0; i < rec.f.size(); ++i) {
      const Field& f = rec.f[i];
      if (top) m.e.cur = static_cast<int>(i);
      if (!member(rec, w, der, i, f)) { if (top) m.at = static_cast<int>(i); return false; }
      if (top) m.e.top_end.push_back(m.e.out.size());
    }
    return true;
  }

  bool member(const Rec& rec, Val& w, const std::vector<Derived>& der, std::size_t i, const Field& f) {
    if (der[i].is) {
      if (der[i].reason >= 0) {
        if (der[i].reason == CONTRA && der[i].n_disc > 1) m.alt_reason = INVALID;
        return fail(der[i].reason, f);
      }
      if (!con_ok(d, f, w.kids[i])) return fail(INVALID, f);
    } else if (!f.frozen) {
      if (!con_ok(d, f, w.kids[i])) return fail(INVALID, f);
    }
    if (f.kind == INT && !conditional(rec, w, der, i, w.kids[i].num)) return false;
    return payload(rec, w, f, w.kids[i]);
  }

  bool payload(const Rec& rec, Val& env, const Field& f, Val& w) {
    switch (f.kind) {
      case INT: m.e.integer(f, w.num); return true;
      case SEQ:
        if (f.size.kind == 2 && len_of(d, rec, env, f) != size_of(d, f, w)) return fail(CONTRA, f);
        if (var_size(f) && size_of(d, f, w) > f.ceiling / elem_bytes(d, f)) m.over_ceiling = true;
        m.e.seq(f, w.data);
        return true;
      case REC: { Val x = w; return record(f.rec, x, w, false); }
      case ARRREC: case VECREC:
        if (f.kind == VECREC) {
          if (f.size.kind == 2 && len_of(d, rec, env, f) != size_of(d, f, w)) return fail(CONTRA, f);
          if (size_of(d, f, w) > f.ceiling / elem_bytes(d, f)) m.over_ceiling = true;
        }
        for (auto& k : w.kids) { Val x = k; if (!record(f.rec, x, k, false)) return false; }
        return true;
      case MAYBE:
        if (present(d, rec, env, f) != (w.tag != 0)) return fail(INVALID, f);
        if (!w.tag) return true;
        if (!con_ok(d, f.base[0], w.kids[0])) return fail(INVALID, f);
        return payload(rec, env, f.base[0], w.kids[0]);
      case UNION: {
        if (f.mode != 0) {
          const int i = deduce(d, rec, env, f);
          if (i < 0) return fail(NOTYPE, f);
          if (i != w.tag) return fail(INVALID, f);
        }
        const Field& a = f.alts[static_cast<std::size_t>(w.tag)].f[0];
        if (!con_ok(d, a, w.kids[0])) return fail(INVALID, f);
        return payload(rec, env, a, w.kids[0]);
      }
    }
    return false;
  }
};

inline MWrite model_write(const Desc& d, int rec, const Val& v, bool be) {
  MWrite m;
  m.e.be = be;
  Writer w{d, m};
  m.ok = w.record(rec, v, m.wire, true);
  return m;
}

// --------------------------------------------------------------------- tokens
// `put` order holds the writable fields, `take` order the visible ones.
inline void tokens_rec(const Desc& d, int r, const Val& v, bool take, std::vector<u64>& o);

inline void tokens(const Desc& d, const Field& f, const Val& v, bool take, std::vector<u64>& o) {
  switch (f.kind) {
    case INT: o.push_back(v.num); break;
    case SEQ:
      if (var_size(f)) o.push_back(v.data.size() / f.count);
      o.insert(o.end(), v.data.begin(), v.data.end());
      break;
    case REC: tokens_rec(d, f.rec, v, take, o); break;
    case ARRREC: case VECREC:
      if (f.kind == VECREC) o.push_back(v.kids.size());
      for (const auto& k : v.kids) tokens_rec(d, f.rec, k, take, o);
      break;
    case MAYBE:
      o.push_back(v.tag ? 1 : 0);
      if (v.tag) tokens(d, f.base[0], v.kids[0], take, o);
      break;
    case UNION:
      o.push_back(static_cast<u64>(v.tag));
      tokens(d, f.alts[static_cast<std::size_t>(v.tag)].f[0], v.kids[0], take, o);
      break;
  }
}

inline void tokens_rec(const Desc& d, int r, const Val& v, bool take, std::vector<u64>& o) {
  const auto& fs = d.recs[static_cast<std::size_t>(r)].f;
  for (std::size_t i = 0; i < fs.size(); ++i)
    if (take ? !fs[i].hidden : fs[i].rw()) tokens(d, fs[i], v.kids[i], take, o);
}

inline std::vector<u64> put_tokens(const Desc& d, int r, const Val& v) { std::vector<u64> o; tokens_rec(d, r, v, false, o); return o; }
inline std::vector<u64> take_tokens(const Desc& d, int r, const Val& v) { std::vector<u64> o; tokens_rec(d, r, v, true, o); return o; }

}  // namespace hv

#endif
