// The checks: tape-driven generators of values, wires, faults and histories,
// each judged against the model (model.hpp) or a relation between real runs.
// Every random choice is a draw on the tape, so a failure shrinks and replays
// as a list of numbers.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <ctime>
#include <fstream>
#include <new>
#include <atomic>
#include <set>
#include <thread>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include "model.hpp"

// ------------------------------------------------------- allocation tracking
#ifndef HV_NO_NEW
void* operator new(std::size_t n) {
  if (n > hv::g_alloc_max) hv::g_alloc_max = n;
  if (n > (std::size_t{1} << 31)) throw std::bad_alloc();
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
#endif

namespace hv {

std::vector<SchemaReg>& registry() {
  static std::vector<SchemaReg> r;
  return r;
}

// ----------------------------------------------------------------------- tape
struct Shared {
  volatile int check, schema;
  volatile u64 n, cases;
  volatile long started;
  u64 tape[1 << 16];
};
Shared* g_sh = nullptr;

// ----------------------------------------------------- what the code looks at
// The schema programs are built with GCC's coverage callbacks: constants the
// code compares values against feed the generators, and a tape that reaches new
// code is kept and varied. Both only steer; a verdict comes from the tape alone.
struct Guide {
  bool harvest = false, trace = false;
  std::vector<u64> dict, lens, big;         // constants seen in comparisons
  u64 seen[4096] = {};
  std::vector<unsigned char> hit = std::vector<unsigned char>(1 << 18);
  u64 fresh = 0;
  void constant(u64 v) {
    if (v < 3) return;
    u64& slot = seen[(v * 0x9e3779b97f4a7c15ul) >> 52];
    if (slot == v) return;
    if (slot || dict.size() >= 1024) return;
    slot = v;
    dict.push_back(v);
    if (v <= 70000) lens.push_back(v);
    if (v >= 4096 && v <= (4u << 20)) big.push_back(v);
  }
  void pc(u64 a) {
    unsigned char& h = hit[(a * 0x9e3779b97f4a7c15ul) >> 46];
    if (!h) { h = 1; ++fresh; }
  }
} g_guide;

struct Tape {
  std::vector<u64> d;
  std::size_t p = 0;
  bool live = false;   // extend with random draws
  u64 st = 0;
  u64 rnd() {
    u64 z = (st += 0x9e3779b97f4a7c15ul);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ul;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebul;
    return z ^ (z >> 31);
  }
  // a draw in [0, n); n == 0: any 64-bit number
  u64 u(u64 n) {
    if (p >= d.size()) {
      d.push_back(live ? (n ? rnd() % n : rnd()) : 0);
      if (g_sh && d.size() <= (1 << 16)) { g_sh->tape[d.size() - 1] = d.back(); g_sh->n = d.size(); }
    }
    u64 v = d[p++];
    return n ? v % n : v;
  }
  // one of the numbers; the tape keeps the number itself
  u64 one_of(const std::vector<u64>& l) {
    if (p >= d.size()) {
      d.push_back(live && !l.empty() ? l[rnd() % l.size()] + rnd() % 3 - 1 : 0);
      if (g_sh && d.size() <= (1 << 16)) { g_sh->tape[d.size() - 1] = d.back(); g_sh->n = d.size(); }
    }
    return d[p++];
  }
  bool chance(u64 k, u64 n) { return u(n) >= n - k; }   // shrinks towards false
};

// -------------------------------------------------------------------- context
struct Ctx {
  const Desc& d;
  const SchemaReg& s;
  Tape& t;
  int kinds;
  std::string tmp;
  // what the case was, for the counters
  bool nontrivial = false;
  u64 hash = 1469598103934665603ul;
  std::set<std::string> labels;
  std::string sample;
  u64 sub = 0;   // evaluations inside the case beyond the first

  void mixh(u64 x) { hash = (hash ^ x) * 1099511628211ul; }
  void mixb(const Bytes& b) { for (u8 x : b) mixh(x); mixh(b.size() + 77); }
  void mixt(const std::vector<u64>& t_) { for (u64 x : t_) mixh(x); mixh(t_.size() + 99); }
  bool be() { return s.ops.has_be && t.u(2); }
};

std::string hex(const Bytes& b, std::size_t max = 96) {
  std::string o;
  char buf[4];
  for (std::size_t i = 0; i < b.size() && i < max; ++i) { std::snprintf(buf, 4, "%02x", b[i]); o += buf; }
  if (b.size() > max) o += "...(" + std::to_string(b.size()) + ")";
  return o.empty() ? "(empty)" : o;
}
std::string toks(const std::vector<u64>& t, std::size_t max = 40) {
  std::string o = "[";
  for (std::size_t i = 0; i < t.size() && i < max; ++i) o += (i ? " " : "") + std::to_string(static_cast<i64>(t[i]));
  if (t.size() > max) o += " ...(" + std::to_string(t.size()) + ")";
  return o + "]";
}
std::string q(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", static_cast<unsigned char>(c)); o += b; }
    else o += c;
  }
  return o + "\"";
}

// ----------------------------------------------------------------- generation
u64 dom_fix(const Field& f, u64 v) { return as_type(low(v, f.width), f.tsize, f.sgn); }

u64 any_int(Tape& t, const Field& f) {
  const int bits = 8 * f.width;
  const u64 top = bits >= 64 ? ~u64{0} : (u64{1} << bits) - 1;
  switch (t.u(9)) {
    case 0: return dom_fix(f, t.u(17));
    case 1: { static const u64 c[] = {0, 1, 2, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536, 0x1234, 0x123456, 0x12345678, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x0102030405060708};
              return dom_fix(f, c[t.u(21)]); }
    case 2: return dom_fix(f, top - t.u(4));
    case 3: return dom_fix(f, (top >> 1) + t.u(4) - 1);
    case 4: return dom_fix(f, u64{1} << t.u(std::max<u64>(1, static_cast<u64>(bits))));
    case 5: return dom_fix(f, u64{0xff} << (8 * t.u(std::max<u64>(1, static_cast<u64>(f.width)))));
    case 6: return dom_fix(f, t.one_of(g_guide.dict));
    default: return dom_fix(f, t.u(0));
  }
}

// a value near the constraint's own numbers
u64 near_con(Tape& t, const Field& f) {
  if (f.con.op == NONE || f.con.op == FN || f.con.vals.empty() || f.con.vals[0].empty()) return any_int(t, f);
  const auto& v = f.con.vals[t.u(f.con.vals.size())];
  return dom_fix(f, v[0] + t.u(5) - 2);
}

std::vector<u64> any_data(Tape& t, const Field& f, u64 n) {
  std::vector<u64> o(n);
  const u64 mode = t.u(4), seed = t.u(0);
  Tape r;
  r.st = seed;
  for (u64 i = 0; i < n; ++i) {
    u64 x = 0;
    switch (mode) {
      case 0: x = 0x0102030405060708ul * (i % 30 + 1); break;
      case 1: x = r.rnd() % 4; break;
      case 2: x = r.rnd(); break;
      case 3: { const u64 k = r.rnd() % 4; x = k == 0 ? ~u64{0} : k == 1 ? u64{1} << (8 * f.tsize - 1) : k == 2 ? 0xff : r.rnd(); break; }
    }
    o[i] = as_type(x, f.tsize, f.sgn);
  }
  return o;
}

struct Gen {
  const Desc& d;
  Tape& t;
  long budget = 600;    // scalars this value may still hold
  bool big = true;      // allow long containers
  bool huge = false;    // one container at a size where counters, pages and buffers turn over
  bool mid = false;     // one of a few hundred elements

  u64 length(u64 max) {
    u64 l;
    const u64 k = t.u(12);
    if (budget <= 0) l = t.u(3);
    else if (mid && budget > 1800) { mid = false; l = 60 + t.u(t.u(2) ? 1200 : 300); }
    else if (huge && budget > 20000 && k < 9) l = (u64{256} << t.u(9)) / (u64{1} << t.u(4)) + t.u(3) - 1;
    else if (k < 6) l = t.u(5);
    else if (k < 8) l = t.u(12);
    else if (k == 8) l = max < 200 ? max - t.u(2) * (max > 0) : t.u(20);
    else if (k == 9) l = t.u(40);
    else if (k == 11 && t.u(3) == 2) l = t.one_of(g_guide.lens);
    else if (k == 10 && big && t.u(6) == 5) { static const u64 c[] = {64, 100, 127, 128, 129, 255, 256, 257, 511, 1000}; l = c[t.u(10)]; }
    else l = t.u(8);
    if (static_cast<long>(l) > budget) l = l % 4;
    return std::min(l, max);
  }

  // smallest ceiling, in elements, over the containers sized by field i
  u64 max_len(const Rec& r, std::size_t i) {
    u64 m = huge ? 70000 : 2000;
    auto look = [&](const Field& g) {
      if (var_size(g) && g.size.kind == 1 && static_cast<std::size_t>(g.size.idx) == i) m = std::min(m, g.ceiling / elem_bytes(d, g));
      if (g.kind == VECREC && g.size.kind == 1 && static_cast<std::size_t>(g.size.idx) == i) m = std::min<u64>(m, huge ? 300 : 40);
    };
    for (const auto& g : r.f) {
      look(g);
      if (g.kind == MAYBE) look(g.base[0]);
      if (g.kind == UNION) for (const auto& a : g.alts) look(a.f[0]);
    }
    return m;
  }

  bool integer(const Rec& r, std::size_t i, const Field& f, Val& v, bool member) {
    for (int tries = 0; tries < 24; ++tries) {
      u64 x;
      const bool len = member && (f.is_len || f.is_clen);
      if (f.con.op == EQ) x = f.con.vals[0][0];
      else if (f.con.op == ANYOF && t.u(8) != 7) x = f.con.vals[t.u(f.con.vals.size())][0];
      else if (member && f.is_disc && (!len || t.u(3)) && t.u(24) != 23) {
        std::vector<u64> c;
        for (const auto& g : r.f) if (g.kind == UNION && g.mode == 0 && static_cast<std::size_t>(g.midx) == i) for (const auto& a : g.alts) c.push_back(a.val);
        x = c[t.u(c.size())];
      }
      else if (len) x = dom_fix(f, length(std::min<u64>(max_len(r, i), f.width >= 8 ? ~u64{0} : f.sgn && f.width == f.tsize ? (u64{1} << (8 * f.width - 1)) - 1 : (u64{1} << (8 * f.width)) - 1)));
      else if (f.small) x = dom_fix(f, t.u(6));
      else if (t.u(3) == 2) x = near_con(t, f);
      else x = any_int(t, f);
      v.num = x;
      if (con_ok(d, f, v)) return true;
    }
    return false;
  }

  bool sequence(const Field& f, Val& v, u64 n) {
    for (int tries = 0; tries < 10; ++tries) {
      if (f.con.op == EQ) v.data = f.con.vals[0];
      else if (f.con.op == ANYOF && t.u(8) != 7) v.data = f.con.vals[t.u(f.con.vals.size())];
      else if (f.con.op != NONE && f.con.op != FN && t.u(3) == 2) {
        // one element off the constraint's value
        v.data = f.con.vals[0];
        if (!v.data.empty()) { const u64 k = t.u(v.data.size()); v.data[k] = as_type(v.data[k] + (t.u(2) ? 1 : ~u64{0}), f.tsize, f.sgn); }
      }
      else v.data = any_data(t, f, n);
      if (con_ok(d, f, v)) return true;
    }
    return false;
  }

  bool record(int r, Val& v) {
    const Rec& rec = d.recs[static_cast<std::size_t>(r)];
    for (int tries = 0; tries < 12; ++tries) {
      v = Val{};
      v.kids.assign(rec.f.size(), Val{});
      bool ok = true;
      for (std::size_t i = 0; ok && i < rec.f.size(); ++i) ok = member(rec, v, i, rec.f[i], v.kids[i], true);
      if (ok) return true;
    }
    return false;
  }

  bool member(const Rec& rec, Val& env, std::size_t i, const Field& f, Val& v, bool mem) {
    switch (f.kind) {
      case INT: --budget; return integer(rec, i, f, v, mem);
      case SEQ: {
        u64 n = f.count;
        if (var_size(f)) {
          const u64 len = len_of(d, rec, env, f);
          if (len > f.ceiling / elem_bytes(d, f) || len > (huge ? 70000 : 4000)) return false;
          n = len * f.count;
        }
        budget -= static_cast<long>(n);
        return sequence(f, v, n);
      }
      case REC: return record(f.rec, v) && con_ok(d, f, v);
      case ARRREC: case VECREC: {
        u64 n = f.count;
        if (f.kind == VECREC) {
          n = len_of(d, rec, env, f);
          if (n > f.ceiling / elem_bytes(d, f) || n > 300) return false;
        }
        v.kids.assign(n, Val{});
        for (auto& k : v.kids) if (!record(f.rec, k)) return false;
        return con_ok(d, f, v);
      }
      case MAYBE:
        v.tag = present(d, rec, env, f);
        if (!v.tag) return true;
        v.kids.emplace_back();
        return member(rec, env, i, f.base[0], v.kids[0], false);
      case UNION: {
        v.tag = deduce(d, rec, env, f);
        if (v.tag < 0) return false;
        v.kids.emplace_back();
        return member(rec, env, i, f.alts[static_cast<std::size_t>(v.tag)].f[0], v.kids[0], false) && con_ok(d, f, v);
      }
    }
    return false;
  }

  // anything a user could store, whether or not it can be written
  void free(const Field& f, Val& v) {
    v = Val{};
    switch (f.kind) {
      case INT: --budget; v.num = f.is_len || f.is_clen || f.small ? dom_fix(f, t.u(9)) : t.u(2) ? near_con(t, f) : any_int(t, f); break;
      case SEQ: {
        u64 n = f.count;
        if (var_size(f)) n = length(300) * f.count;
        budget -= static_cast<long>(n);
        if (f.con.op >= EQ && f.con.op <= ANYOF && t.u(2)) v.data = f.con.vals[t.u(f.con.vals.size())];
        else v.data = any_data(t, f, n);
        break;
      }
      case REC: free_rec(f.rec, v); break;
      case ARRREC: case VECREC: {
        v.kids.assign(f.kind == ARRREC ? f.count : t.u(4), Val{});
        for (auto& k : v.kids) free_rec(f.rec, k);
        break;
      }
      case MAYBE:
        v.tag = t.u(2) != 0;
        if (v.tag) { v.kids.emplace_back(); free(f.base[0], v.kids[0]); }
        break;
      case UNION:
        v.tag = static_cast<int>(t.u(f.alts.size()));
        v.kids.emplace_back();
        free(f.alts[static_cast<std::size_t>(v.tag)].f[0], v.kids[0]);
        break;
    }
  }
  void free_rec(int r, Val& v) {
    const Rec& rec = d.recs[static_cast<std::size_t>(r)];
    v = Val{};
    v.kids.assign(rec.f.size(), Val{});
    for (int tries = 0; tries < 2; ++tries) if (t.u(4) && record(r, v)) return;
    v.kids.assign(rec.f.size(), Val{});
    for (std::size_t i = 0; i < rec.f.size(); ++i) free(rec.f[i], v.kids[i]);
  }

  // --- perturbation of a stored value at one writable node
  struct Node { const Field* f; Val* v; };
  void nodes(const Field& f, Val& v, std::vector<Node>& o) {
    o.push_back({&f, &v});
    if (f.kind == REC) nodes_rec(f.rec, v, o);
    if (f.kind == ARRREC || f.kind == VECREC) for (std::size_t i = 0; i < v.kids.size() && i < 4; ++i) nodes_rec(f.rec, v.kids[i], o);
    if (f.kind == MAYBE && v.tag) nodes(f.base[0], v.kids[0], o);
    if (f.kind == UNION) nodes(f.alts[static_cast<std::size_t>(v.tag)].f[0], v.kids[0], o);
  }
  void nodes_rec(int r, Val& v, std::vector<Node>& o) {
    const Rec& rec = d.recs[static_cast<std::size_t>(r)];
    for (std::size_t i = 0; i < rec.f.size(); ++i) if (rec.f[i].rw()) nodes(rec.f[i], v.kids[i], o);
  }
  bool perturb(int r, Val& v) {
    std::vector<Node> ns;
    nodes_rec(r, v, ns);
    if (ns.empty()) return false;
    const Node n = ns[t.u(ns.size())];
    const Field& f = *n.f;
    Val& x = *n.v;
    switch (f.kind) {
      case INT:
        if (t.u(4) == 3) x.num = dom_fix(f, x.num ^ (u64{1} << t.u(std::max<u64>(1, 8 * static_cast<u64>(f.width)))));
        else if (t.u(2) && (f.is_clen || f.small || f.con.op == NONE)) x.num = dom_fix(f, x.num + (t.u(2) ? 1 : ~u64{0}));
        else x.num = t.u(2) ? near_con(t, f) : any_int(t, f);
        break;
      case SEQ:
        if (var_size(f)) {
          const u64 len = x.data.size() / f.count;
          u64 n2;
          switch (t.u(8)) {
            case 7: n2 = len + (t.u(30) == 29 && f.count == 1 && f.tsize == 1 ? 65536 : 256); break;   // the same low bits
            case 0: n2 = len + 1; break;
            case 1: n2 = len ? len - 1 : 1; break;
            case 2: n2 = 0; break;
            case 3: n2 = len + 2; break;
            case 4: n2 = t.u(12); break;
            case 5: n2 = 255 + t.u(3); break;
            default: n2 = t.u(20) == 19 && f.count == 1 && f.tsize == 1 ? 65535 + t.u(2) : t.u(6); break;
          }
          const std::vector<u64> more = any_data(t, f, n2 * f.count);
          std::vector<u64> y = x.data;
          y.resize(n2 * f.count);
          for (std::size_t i = x.data.size(); i < y.size(); ++i) y[i] = more[i];
          x.data = y;
        } else if (!x.data.empty() && t.u(2)) {
          const u64 k = t.u(x.data.size());
          x.data[k] = as_type(x.data[k] + (t.u(2) ? 1 : ~u64{0}), f.tsize, f.sgn);
        } else x.data = any_data(t, f, f.count);
        break;
      case VECREC: {
        if (x.kids.size() && t.u(2)) x.kids.pop_back();
        else { x.kids.emplace_back(); free_rec(f.rec, x.kids.back()); }
        break;
      }
      default: free(f, x); break;
    }
    return true;
  }
};

bool gen_wire(Ctx& c, Val& v, int rec = -1) {
  Gen g{c.d, c.t};
  const u64 scale = c.t.u(300);
  if (scale < 100) { g.budget = 60; g.big = false; }
  else if (scale >= 296) { g.budget = 70000; g.huge = true; }
  else if (scale >= 286) { g.budget = 2400; g.mid = true; }
  if (rec < 0) rec = c.d.top;
  for (int i = 0; i < 4; ++i) {
    if (!g.record(rec, v)) continue;
    if (g.huge && g.budget < 65000) c.labels.insert("long containers");
    return true;
  }
  c.labels.insert("ungenerable");
  return false;
}

bool perturbed(Ctx& c, Val& v, u64 max = 3) {
  Gen g{c.d, c.t};
  g.budget = 200;
  const u64 n = 1 + c.t.u(max);
  bool any = false;
  for (u64 i = 0; i < n; ++i) any |= g.perturb(c.d.top, v);
  return any;
}

// one wire, changed
Bytes mutate(Ctx& c, const Enc& e) {
  Bytes b = e.out;
  Tape& t = c.t;
  const u64 n = 1 + t.u(3);
  for (u64 k = 0; k < n; ++k) {
    switch (t.u(7)) {
      case 0: case 1: case 2: {   // one scalar of one leaf
        if (e.leaves.empty()) break;
        const Leaf& l = e.leaves[t.u(e.leaves.size())];
        if (!l.len || l.off + l.len > b.size()) break;
        const std::size_t i = l.off + static_cast<std::size_t>(l.scalar) * t.u(l.len / static_cast<u64>(l.scalar));
        Field f = *l.f;
        f.width = l.scalar;
        if (f.kind != INT) f.tsize = l.scalar;
        u64 cur = 0;
        for (int j = 0; j < l.scalar; ++j) cur |= u64{b[i + static_cast<std::size_t>(e.be ? l.scalar - 1 - j : j)]} << (8 * j);
        u64 x;
        const u64 how = t.u(5);
        if (how == 4) x = cur ^ (u64{1} << t.u(8 * static_cast<u64>(l.scalar)));
        else if (how == 0) x = cur + 1;
        else if (how == 1) x = cur - 1;
        else if (how == 2 && f.kind == INT) x = near_con(t, f);
        else x = any_int(t, f);
        if ((f.is_len || f.is_clen) && t.u(3)) x = low(x, f.width) % 24;
        for (int j = 0; j < l.scalar; ++j) b[i + static_cast<std::size_t>(e.be ? l.scalar - 1 - j : j)] = static_cast<u8>(x >> (8 * j));
        break;
      }
      case 3: if (!b.empty()) b[t.u(b.size())] ^= static_cast<u8>(1u << t.u(8)); break;
      case 4: if (!b.empty()) b[t.u(b.size())] = static_cast<u8>(t.u(256)); break;
      case 5: if (!b.empty()) b.resize(t.u(b.size())); break;
      case 6: { const u64 m = 1 + t.u(6); for (u64 i = 0; i < m; ++i) b.insert(b.begin() + static_cast<long>(t.u(b.size() + 1)), static_cast<u8>(t.u(256))); break; }
    }
  }
  return b;
}

Bytes random_bytes(Tape& t, u64 max) {
  Bytes b(t.u(max));
  const u64 mode = t.u(3);
  Tape r;
  r.st = t.u(0);
  for (auto& x : b) x = static_cast<u8>(mode == 0 ? r.rnd() % 4 : mode == 1 ? r.rnd() : (r.rnd() % 3 ? r.rnd() % 8 : r.rnd()));
  return b;
}

std::unique_ptr<Obj> build(const Ctx& c, const Val& v) {
  auto o = c.s.ops.make();
  o->put(put_tokens(c.d, c.d.top, v));
  return o;
}

// the object's own visible content, as a value tree (hidden slots zero)
struct Untake {
  const Desc& d;
  const std::vector<u64>& t;
  std::size_t p = 0;
  bool bad = false;
  u64 next() { if (p >= t.size()) { bad = true; return 0; } return t[p++]; }
  void rec(int r, Val& v) {
    const auto& fs = d.recs[static_cast<std::size_t>(r)].f;
    v = Val{};
    v.kids.assign(fs.size(), Val{});
    for (std::size_t i = 0; i < fs.size() && !bad; ++i) {
      if (!fs[i].hidden) field(fs[i], v.kids[i]);
      else if (fs[i].kind == SEQ && !var_size(fs[i])) v.kids[i].data.assign(fs[i].count, 0);
    }
  }
  void field(const Field& f, Val& v) {
    switch (f.kind) {
      case INT: v.num = next(); break;
      case SEQ: {
        const u64 n = var_size(f) ? next() * f.count : f.count;
        if (n > t.size()) { bad = true; return; }
        for (u64 i = 0; i < n && !bad; ++i) v.data.push_back(next());
        break;
      }
      case REC: rec(f.rec, v); break;
      case ARRREC: case VECREC: {
        const u64 n = f.kind == VECREC ? next() : f.count;
        if (n > (1u << 20)) { bad = true; return; }
        v.kids.assign(n, Val{});
        for (auto& k : v.kids) { rec(f.rec, k); if (bad) return; }
        break;
      }
      case MAYBE:
        v.tag = next() != 0;
        if (v.tag) { v.kids.emplace_back(); field(f.base[0], v.kids[0]); }
        break;
      case UNION:
        v.tag = static_cast<int>(next());
        if (v.tag < 0 || static_cast<std::size_t>(v.tag) >= f.alts.size()) { bad = true; v.tag = 0; }
        v.kids.emplace_back();
        field(f.alts[static_cast<std::size_t>(v.tag)].f[0], v.kids[0]);
        break;
    }
  }
};

std::vector<u64> rw_of(const Desc& d, int rec, const std::vector<u64>& take) {
  Untake u{d, take};
  Val v;
  u.rec(rec, v);
  return put_tokens(d, rec, v);
}

// ----------------------------------------------------------------- conformity
std::string show(const RRes& r) {
  if (r.threw) return "threw " + r.what;
  if (r.ok) return "ok " + toks(r.obj->take()) + " at " + std::to_string(r.pos);
  return std::string(reason_name(r.reason)) + " at '" + r.at + "' pos " + std::to_string(r.pos);
}
std::string show(const WRes& r) {
  if (r.threw) return "threw " + r.what;
  return (r.ok ? std::string("ok") : std::string(reason_name(r.reason)) + " at '" + r.at + "'") + " bytes " + hex(r.out);
}

constexpr u64 unbounded_alloc = u64{1} << 26;

std::string conf_read(Ctx& c, const Ops& ops, int rec, const Bytes& in, bool be, const StreamCfg& cfg, const MRead& m) {
  // a build with no default ceiling asks for whatever the wire says: what the
  // allocator does with that is not the library's answer
  if (m.max_alloc > unbounded_alloc) return "";
  RRes r = ops.read(be, in, cfg);
  const auto& fs = c.d.recs[static_cast<std::size_t>(rec)].f;
  const std::string pre = std::string(be ? "BE" : "LE") + " read of " + hex(in) + (cfg.start ? " from " + std::to_string(cfg.start) : "") + ": ";
  if (r.threw) return pre + "threw " + r.what;
  if (m.ok) {
    const auto want = take_tokens(c.d, rec, m.v);
    if (!r.ok) return pre + "expected success, got " + show(r);
    const auto got = r.obj->take();
    if (got != want) return pre + "expected values " + toks(want) + ", got " + toks(got);
    if (r.pos_known && r.pos != m.lo) return pre + "expected to consume up to " + std::to_string(m.lo) + ", stream stands at " + std::to_string(r.pos);
  } else {
    const std::string want = std::string(reason_name(m.reason)) + " at '" + fs[static_cast<std::size_t>(m.at)].id + "'";
    if (r.ok) return pre + "expected " + want + ", got " + show(r);
    if (r.reason != m.reason || r.at != fs[static_cast<std::size_t>(m.at)].id) return pre + "expected " + want + ", got " + show(r);
    if (r.pos_known && (r.pos < m.lo || r.pos > m.hi))
      return pre + want + " but the stream stands at " + std::to_string(r.pos) + ", outside " + std::to_string(m.lo) + ".." + std::to_string(m.hi);
  }
  if (r.after) return pre + "the stream was used after it had failed";
  if (r.neg) return pre + "a negative count reached the stream";
  return "";
}

bool is_prefix(const Bytes& a, const Bytes& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }

std::string conf_write(Ctx& c, const Ops& ops, int rec, const Obj& o, bool be, StreamCfg cfg, const MWrite& m, const Bytes& prior = {}) {
  WRes r = ops.write(be, o, cfg, prior);
  const auto& fs = c.d.recs[static_cast<std::size_t>(rec)].f;
  const std::string pre = std::string(be ? "BE" : "LE") + " write of " + toks(o.take()) + (cfg.cap != SIZE_MAX ? " into " + std::to_string(cfg.cap) + " bytes" : "") + ": ";
  if (r.threw) return pre + "threw " + r.what;
  if (!is_prefix(prior, r.out)) return pre + "what the stream already held changed";
  r.out.erase(r.out.begin(), r.out.begin() + static_cast<long>(prior.size()));
  if (r.after) return pre + "the stream was used after it had failed";
  const Bytes& all = m.e.out;
  if (m.ambiguous) return r.ok ? pre + "expected a failure, got " + show(r) : "";
  if (cfg.cap < all.size()) {
    const Leaf* own = nullptr;
    for (const auto& l : m.e.leaves) if (l.off <= cfg.cap && cfg.cap < l.off + l.len) own = &l;
    const std::string want = "buffer_exhaustion at '" + fs[static_cast<std::size_t>(own->top)].id + "'";
    if (r.ok || r.reason != EXHAUST || r.at != fs[static_cast<std::size_t>(own->top)].id) return pre + "expected " + want + ", got " + show(r);
    if (!is_prefix(r.out, all) || r.out.size() > cfg.cap || r.out.size() < own->off)
      return pre + want + ", but the bytes " + hex(r.out) + " are not what " + hex(all) + " cut at " + std::to_string(cfg.cap) + " leaves";
    return "";
  }
  if (m.ok) {
    if (!r.ok) return pre + "expected bytes " + hex(all) + ", got " + show(r);
    if (r.out != all) return pre + "expected bytes " + hex(all) + ", got " + hex(r.out);
    return "";
  }
  const std::string want = std::string(reason_name(m.reason)) + " at '" + fs[static_cast<std::size_t>(m.at)].id + "' after " + hex(all);
  if (r.ok) return pre + "expected " + want + ", got " + show(r);
  if ((r.reason != m.reason && r.reason != m.alt_reason) || r.at != fs[static_cast<std::size_t>(m.at)].id) return pre + "expected " + want + ", got " + show(r);
  if (r.out != all) return pre + "expected " + want + ", but the stream holds " + hex(r.out);
  return "";
}

StreamCfg ms(Ctx& c) { StreamCfg s; s.partial = c.t.u(2); return s; }

// features of the schema or value a case touched, for the labels
void label_leaf(Ctx& c, const Field* f) {
  if (!f) return;
  static const char* k[] = {"scalar", "sequence", "record", "records[]", "vector_of_records", "optional", "union"};
  c.labels.insert(std::string("at_") + k[f->kind]);
}

// ---------------------------------------------------------------------- checks
using Check = std::string (*)(Ctx&);

// a valid wire, with whatever follows it left alone
std::string rd_ok(Ctx& c) {
  Val v;
  if (!gen_wire(c, v)) return "";
  const bool be = c.be();
  Enc e = encode(c.d, c.d.top, v, be);
  Bytes in;
  StreamCfg cfg = ms(c);
  if (c.t.u(4) == 3) { in = random_bytes(c.t, 5); cfg.start = in.size(); }
  in.insert(in.end(), e.out.begin(), e.out.end());
  const Bytes tail = random_bytes(c.t, 6);
  in.insert(in.end(), tail.begin(), tail.end());
  MRead m = model_read(c.d, c.d.top, in, be, cfg.start);
  if (!m.ok || take_tokens(c.d, c.d.top, m.v) != take_tokens(c.d, c.d.top, v)) return "HARNESS: model does not read its own encoding";
  c.mixb(in); c.mixh(be);
  c.nontrivial = e.out.size() > 0;
  c.labels.insert(be ? "big-endian" : "little-endian");
  c.sample = std::string(be ? "BE " : "LE ") + hex(in, 40) + " -> " + toks(take_tokens(c.d, c.d.top, v), 16);
  return conf_read(c, c.s.ops, c.d.top, in, be, cfg, m);
}

// a wire that was valid before something happened to it
std::string rd_mut(Ctx& c) {
  Val v;
  Bytes in;
  const bool be = c.be();
  if (gen_wire(c, v)) { Enc e = encode(c.d, c.d.top, v, be); in = mutate(c, e); }
  else in = random_bytes(c.t, 80);
  MRead m = model_read(c.d, c.d.top, in, be);
  c.mixb(in); c.mixh(be);
  c.nontrivial = !m.ok;
  c.labels.insert(m.ok ? "still-valid" : reason_name(m.reason));
  label_leaf(c, m.leaf);
  c.sample = std::string(be ? "BE " : "LE ") + hex(in, 40) + " -> " + (m.ok ? "ok" : std::string(reason_name(m.reason)) + " at '" + c.d.field(static_cast<std::size_t>(m.at)).id + "'");
  return conf_read(c, c.s.ops, c.d.top, in, be, ms(c), m);
}

// every truncation of one valid wire
std::string rd_trunc(Ctx& c) {
  Val v;
  if (!gen_wire(c, v)) return "";
  const bool be = c.be();
  Enc e = encode(c.d, c.d.top, v, be);
  const std::size_t n = e.out.size();
  const std::size_t step = n > 10000 ? n / 9 : n > 160 ? n / 120 : 1;
  StreamCfg cfg = ms(c);
  c.mixb(e.out); c.mixh(be);
  c.nontrivial = n > 1;
  c.sample = std::string(be ? "BE " : "LE ") + hex(e.out, 40) + " cut at each of " + std::to_string(n) + " bytes";
  for (std::size_t k = step > 1 ? c.t.u(step) : 0; k < n; k += step) {
    Bytes in(e.out.begin(), e.out.begin() + static_cast<long>(k));
    MRead m = model_read(c.d, c.d.top, in, be);
    if (m.ok || m.reason != EXHAUST) return "HARNESS: a truncated wire is not exhausted in the model";
    ++c.sub;
    label_leaf(c, m.leaf);
    const std::string x = conf_read(c, c.s.ops, c.d.top, in, be, cfg, m);
    if (!x.empty()) return x;
  }
  return "";
}

// bytes nobody meant as a record
std::string rd_rand(Ctx& c) {
  const bool be = c.be();
  Bytes in = random_bytes(c.t, c.t.u(3) ? 48 : 400);
  MRead m = model_read(c.d, c.d.top, in, be);
  c.mixb(in); c.mixh(be);
  c.nontrivial = in.size() > 2;
  c.labels.insert(m.ok ? "ok" : reason_name(m.reason));
  c.sample = std::string(be ? "BE " : "LE ") + hex(in, 40) + " -> " + (m.ok ? "ok" : std::string(reason_name(m.reason)));
  return conf_read(c, c.s.ops, c.d.top, in, be, ms(c), m);
}

// lengths pushed to and past their ceiling
std::string rd_len(Ctx& c) {
  Val v;
  if (!gen_wire(c, v)) return "";
  const bool be = c.be();
  Enc e = encode(c.d, c.d.top, v, be);
  std::vector<const Leaf*> ls;
  for (const auto& l : e.leaves) if (l.f->kind == INT && (l.f->is_len || l.f->is_clen || l.f->small)) ls.push_back(&l);
  Bytes in = e.out;
  if (!ls.empty()) {
    const Leaf& l = *ls[c.t.u(ls.size())];
    // around the ceiling of each container in the schema, and extremes
    std::vector<u64> cand{~u64{0}, ~u64{0} >> 1, u64{1} << 63, u64{1} << 32, (u64{1} << 32) - 1, 0x80, 0x8000, 0x80000000, 0xff, 0xffff};
    auto look = [&](const Field& g) {
      if (!var_size(g) && g.kind != VECREC) return;
      const u64 k = g.ceiling / elem_bytes(c.d, g);
      for (u64 x : {k, k + 1, k ? k - 1 : 0, k + 2, ~u64{0} / elem_bytes(c.d, g) + 1, ~u64{0} / elem_bytes(c.d, g) + 2, (u64{1} << 63) / elem_bytes(c.d, g) * 2 + 1}) cand.push_back(x);
    };
    for (const auto& r : c.d.recs) for (const auto& g : r.f) {
      look(g);
      if (g.kind == MAYBE) look(g.base[0]);
      if (g.kind == UNION) for (const auto& a : g.alts) look(a.f[0]);
    }
    const u64 x = cand[c.t.u(cand.size())];
    for (int j = 0; j < l.scalar; ++j) in[l.off + static_cast<std::size_t>(be ? l.scalar - 1 - j : j)] = static_cast<u8>(x >> (8 * j));
    // enough bytes for a length that is just allowed, sometimes
    if (c.t.u(3)) in.resize(in.size() + c.t.u(600), static_cast<u8>(c.t.u(256)));
  }
  MRead m = model_read(c.d, c.d.top, in, be);
  c.mixb(in); c.mixh(be);
  c.nontrivial = !ls.empty();
  c.labels.insert(m.ok ? "ok" : reason_name(m.reason));
  label_leaf(c, m.leaf);
  c.sample = std::string(be ? "BE " : "LE ") + hex(in, 40) + " -> " + (m.ok ? "ok" : std::string(reason_name(m.reason)));
  if (m.max_alloc > unbounded_alloc) { c.labels.insert("unbounded"); c.nontrivial = false; return ""; }
  RRes r = c.s.ops.read(be, in, StreamCfg{});
  const u64 bound = 2 * m.max_alloc + 8192;
  if (r.alloc_max > bound) {
    return std::string(be ? "BE" : "LE") + " read of " + hex(in) + ": one allocation of " + std::to_string(r.alloc_max) + " bytes, where the accepted lengths need " + std::to_string(m.max_alloc);
  }
  return conf_read(c, c.s.ops, c.d.top, in, be, ms(c), m);
}

// a value built through operator[] and written
std::string wr_ok(Ctx& c) {
  Val v;
  if (!gen_wire(c, v)) return "";
  const bool be = c.be();
  MWrite m = model_write(c.d, c.d.top, v, be);
  Enc e = encode(c.d, c.d.top, v, be);
  if (!m.ok || m.e.out != e.out) {
    // values two unions or lengths cannot agree on never come off a wire
    return "HARNESS: model does not write what it reads: " + std::string(reason_name(m.reason));
  }
  auto o = build(c, v);
  const Bytes prior = c.t.u(4) == 3 ? random_bytes(c.t, 6) : Bytes{};
  c.mixb(m.e.out); c.mixh(be);
  c.nontrivial = m.e.out.size() > 0;
  c.labels.insert(be ? "big-endian" : "little-endian");
  c.sample = toks(put_tokens(c.d, c.d.top, v), 16) + (be ? " -> BE " : " -> LE ") + hex(m.e.out, 40);
  return conf_write(c, c.s.ops, c.d.top, *o, be, ms(c), m, prior);
}

// a value that may not be writable any more
std::string wr_bad(Ctx& c) {
  Val v;
  if (!gen_wire(c, v)) { Gen g{c.d, c.t}; g.free_rec(c.d.top, v); }
  else if (!perturbed(c, v)) return "";
  const bool be = c.be();
  MWrite m = model_write(c.d, c.d.top, v, be);
  auto o = build(c, v);
  c.mixt(put_tokens(c.d, c.d.top, v)); c.mixh(be);
  c.nontrivial = !m.ok;
  c.labels.insert(m.ok ? "still-valid" : m.ambiguous ? "ambiguous" : reason_name(m.reason));
  label_leaf(c, m.leaf);
  c.sample = toks(put_tokens(c.d, c.d.top, v), 16) + " -> " + (m.ok ? "ok" : std::string(reason_name(m.reason)) + " at '" + c.d.field(static_cast<std::size_t>(m.at)).id + "' after " + hex(m.e.out, 24));
  return conf_write(c, c.s.ops, c.d.top, *o, be, ms(c), m);
}

// the stream refuses at each byte
std::string wr_fault(Ctx& c) {
  Val v;
  if (!gen_wire(c, v)) return "";
  if (c.t.u(4) == 3) perturbed(c, v);
  const bool be = c.be();
  MWrite m = model_write(c.d, c.d.top, v, be);
  if (m.ambiguous) return "";
  auto o = build(c, v);
  StreamCfg cfg = ms(c);
  const std::size_t n = m.e.out.size();
  const std::size_t step = n > 10000 ? n / 9 : n > 160 ? n / 120 : 1;
  c.mixt(put_tokens(c.d, c.d.top, v)); c.mixh(be); c.mixh(cfg.partial);
  c.nontrivial = n > 1;
  c.sample = toks(put_tokens(c.d, c.d.top, v), 16) + " refused at each of " + std::to_string(n) + " bytes";
  for (std::size_t k = step > 1 ? c.t.u(step) : 0; k <= n; k += step) {
    cfg.cap = k;
    ++c.sub;
    const std::string x = conf_write(c, c.s.ops, c.d.top, *o, be, cfg, m);
    if (!x.empty()) return x;
  }
  return "";
}

// write then read, and write again
std::string rt_wr(Ctx& c) {
  Val v;
  if (!gen_wire(c, v)) return "";
  const bool pert = c.t.u(3) == 2 && perturbed(c, v);
  const bool be = c.be();
  MWrite m = model_write(c.d, c.d.top, v, be);
  auto o = build(c, v);
  c.mixt(put_tokens(c.d, c.d.top, v)); c.mixh(be);
  WRes w = c.s.ops.write(be, *o, StreamCfg{}, {});
  const std::string pre = std::string(be ? "BE" : "LE") + " round trip of " + toks(put_tokens(c.d, c.d.top, v)) + ": ";
  if (w.threw) return pre + "threw " + w.what;
  c.labels.insert(w.ok ? (pert ? "changed-and-written" : "written") : "refused");
  c.nontrivial = w.ok && w.out.size() > 0;
  c.sample = toks(put_tokens(c.d, c.d.top, v), 16) + " -> " + show(w);
  if (!w.ok) {
    if (!pert) return pre + "a value that comes off a wire was refused: " + show(w);
    return "";
  }
  if (m.over_ceiling) { c.labels.insert("over-ceiling"); return ""; }
  RRes r = c.s.ops.read(be, w.out, StreamCfg{});
  if (!r.ok) return pre + "wrote " + hex(w.out) + " which reads as " + show(r);
  if (r.pos != w.out.size()) return pre + "wrote " + hex(w.out) + ", read back only " + std::to_string(r.pos) + " bytes";
  const auto back = rw_of(c.d, c.d.top, r.obj->take()), want = put_tokens(c.d, c.d.top, v);
  if (back != want) return pre + "wrote " + hex(w.out) + " which reads back as " + toks(back);
  WRes w2 = c.s.ops.write(be, *r.obj, StreamCfg{}, {});
  if (!w2.ok || w2.out != w.out) return pre + "wrote " + hex(w.out) + ", and what was read back writes " + show(w2);
  return "";
}

// read then write
std::string rt_rd(Ctx& c) {
  Val v;
  Bytes in;
  const bool be = c.be();
  const bool valid = gen_wire(c, v);
  bool mut = false;
  if (valid) { Enc e = encode(c.d, c.d.top, v, be); if (c.t.u(2)) { in = mutate(c, e); mut = true; } else in = e.out; }
  else in = random_bytes(c.t, 80);
  const Bytes tail = random_bytes(c.t, 4);
  in.insert(in.end(), tail.begin(), tail.end());
  c.mixb(in); c.mixh(be);
  RRes r = c.s.ops.read(be, in, StreamCfg{});
  const std::string pre = std::string(be ? "BE" : "LE") + " " + hex(in) + ": ";
  if (r.threw) return pre + "threw " + r.what;
  c.labels.insert(r.ok ? (mut ? "mutated-and-read" : "read") : "refused");
  c.nontrivial = r.ok && r.pos > 0;
  c.sample = std::string(be ? "BE " : "LE ") + hex(in, 40) + " -> " + show(r);
  if (!r.ok) return valid && !mut ? pre + "a valid wire was refused: " + show(r) : "";
  WRes w = c.s.ops.write(be, *r.obj, StreamCfg{}, {});
  const Bytes used(in.begin(), in.begin() + static_cast<long>(r.pos));
  if (!w.ok || w.out != used) return pre + "read " + show(r) + " from " + hex(used) + " which writes " + show(w);
  RRes r2 = c.s.ops.read(be, w.out, StreamCfg{});
  if (!r2.ok || r2.obj->take() != r.obj->take()) return pre + "read " + show(r) + ", then again " + show(r2);
  return "";
}

// the two byte orders are mirror images, scalar by scalar
std::string dual(Ctx& c) {
  if (!c.s.ops.has_be) return "";
  Val v;
  if (!gen_wire(c, v)) return "";
  const u64 mode = c.t.u(3);
  if (mode == 1 && !perturbed(c, v)) return "";
  MWrite ml = model_write(c.d, c.d.top, v, false);
  auto o = build(c, v);
  WRes wl = c.s.ops.write(false, *o, StreamCfg{}, {});
  WRes wb = c.s.ops.write(true, *o, StreamCfg{}, {});
  c.mixt(put_tokens(c.d, c.d.top, v));
  const std::string pre = "value " + toks(put_tokens(c.d, c.d.top, v)) + ": ";
  c.sample = pre + "LE " + hex(wl.out, 32) + " BE " + hex(wb.out, 32);
  if (wl.threw || wb.threw) return pre + "threw " + wl.what + wb.what;
  if (wl.ok != wb.ok || wl.reason != wb.reason || wl.at != wb.at) return pre + "LE writes " + show(wl) + " but BE " + show(wb);
  bool wide = false;
  for (const auto& l : ml.e.leaves) if (l.scalar > 1) wide = true;
  c.nontrivial = wide;
  c.labels.insert(wl.ok ? "written" : reason_name(wl.reason));
  Bytes mir = wl.out;
  if (mir.size() == ml.e.out.size()) {
    for (const auto& l : ml.e.leaves)
      for (std::size_t k = l.off; k + static_cast<std::size_t>(l.scalar) <= l.off + l.len; k += static_cast<std::size_t>(l.scalar))
        std::reverse(mir.begin() + static_cast<long>(k), mir.begin() + static_cast<long>(k) + l.scalar);
    if (mir != wb.out) return pre + "LE bytes " + hex(wl.out) + " mirror to " + hex(mir) + " but BE wrote " + hex(wb.out);
  } else if (wl.out.size() != wb.out.size()) return pre + "LE wrote " + hex(wl.out) + " and BE " + hex(wb.out);
  // reading: the same values either way, or the same refusal
  Bytes bl = wl.out, bb = mir;
  if (mode == 2 && !ml.e.leaves.empty()) {
    const Leaf& l = ml.e.leaves[c.t.u(ml.e.leaves.size())];
    if (l.len && l.off + l.len <= bl.size()) {
      const std::size_t i = l.off + static_cast<std::size_t>(l.scalar) * c.t.u(l.len / static_cast<u64>(l.scalar));
      Field f = *l.f; f.width = l.scalar; if (f.kind != INT) f.tsize = l.scalar;
      const u64 x = c.t.u(2) ? near_con(c.t, f) : any_int(c.t, f);
      for (int j = 0; j < l.scalar; ++j) { bl[i + static_cast<std::size_t>(j)] = static_cast<u8>(x >> (8 * j)); bb[i + static_cast<std::size_t>(l.scalar - 1 - j)] = static_cast<u8>(x >> (8 * j)); }
      // only where the change leaves both wires the same layout
      MRead a = model_read(c.d, c.d.top, bl, false), b = model_read(c.d, c.d.top, bb, true);
      if (a.ok != b.ok || a.reason != b.reason || a.at != b.at || a.lo != b.lo || (a.ok && take_tokens(c.d, c.d.top, a.v) != take_tokens(c.d, c.d.top, b.v))) { c.labels.insert("layout-changed"); return ""; }
    }
  }
  if (wl.ok || mode == 2) {
    RRes rl = c.s.ops.read(false, bl, StreamCfg{}), rb = c.s.ops.read(true, bb, StreamCfg{});
    if (rl.threw || rb.threw) return pre + "threw " + rl.what + rb.what;
    if (rl.ok != rb.ok || rl.reason != rb.reason || rl.at != rb.at || (rl.ok && rl.pos != rb.pos) || (rl.ok && rl.obj->take() != rb.obj->take()))
      return "LE " + hex(bl) + " reads " + show(rl) + ", its mirror " + hex(bb) + " reads BE " + show(rb);
    // one order's write undone by its own reader
    if (rl.ok && mode == 0 && rw_of(c.d, c.d.top, rl.obj->take()) != put_tokens(c.d, c.d.top, v)) return pre + "reads back as " + show(rl);
  }
  return "";
}

// the same bytes through every kind of stream
std::string kinds(Ctx& c) {
  const bool be = c.be();
  Val v;
  const bool valid = gen_wire(c, v);
  std::vector<StreamCfg> ks;
  auto add = [&](int k, bool p, std::size_t win) { StreamCfg s; s.kind = k; s.partial = p; s.win = win; s.path = c.tmp; ks.push_back(s); };
  add(K_MS, true, 0);
  if (c.kinds & 2) { add(K_SS, false, 0); add(K_WIN, false, 1 + c.t.u(9)); if (c.t.u(16) == 15) add(K_FILE, false, 0); }
  if (c.kinds & 4) { add(K_CS, false, 0); add(K_CS, true, 0); }
  if (c.t.u(2)) {
    Bytes in;
    if (valid) { Enc e = encode(c.d, c.d.top, v, be); in = c.t.u(2) ? mutate(c, e) : e.out; } else in = random_bytes(c.t, 80);
    const std::size_t start = c.t.u(3) == 2 && !in.empty() ? 1 : 0;
    if (start) in.insert(in.begin(), static_cast<u8>(0xee));
    StreamCfg base; base.start = start;
    base.failed = c.t.u(10) == 9;
    RRes r = c.s.ops.read(be, in, base);
    if (base.failed) c.labels.insert("failed before");
    if (r.ops && base.failed && (r.ok || r.pos != start)) return "a stream that had failed before the read of " + hex(in) + ": " + show(r);
    c.mixb(in); c.mixh(be); c.nontrivial = in.size() > 1;
    c.labels.insert(r.ok ? "read" : reason_name(r.reason));
    c.sample = std::string(be ? "BE " : "LE ") + "read " + hex(in, 40) + " over " + std::to_string(ks.size() + 1) + " streams -> " + show(r);
    if (r.threw) return "memory stream: threw " + r.what;
    for (auto& k : ks) {
      k.start = start;
      k.failed = base.failed;
      ++c.sub;
      RRes x = c.s.ops.read(be, in, k);
      if (x.threw || x.ok != r.ok || x.reason != r.reason || x.at != r.at || (r.ok && x.obj->take() != r.obj->take()) || (r.reason != EXHAUST && x.pos_known && x.pos != r.pos))
        return std::string(be ? "BE" : "LE") + " read of " + hex(in) + ": memory stream " + show(r) + ", stream kind " + std::to_string(k.kind) + " window " + std::to_string(k.win) + " " + show(x);
      if (x.after) return "stream kind " + std::to_string(k.kind) + ": used after it had failed";
      if (x.bad != (base.failed || x.reason == EXHAUST))
        return std::string(be ? "BE" : "LE") + " read of " + hex(in) + ": " + show(x) + ", yet the stream (kind " + std::to_string(k.kind) + ") is left " + (x.bad ? "failed" : "good");
    }
    return "";
  }
  if (!valid) return "";
  if (c.t.u(3) == 2) perturbed(c, v);
  auto o = build(c, v);
  StreamCfg base;
  MWrite m = model_write(c.d, c.d.top, v, be);
  const bool capped = c.t.u(3) == 2;
  if (capped) base.cap = c.t.u(m.e.out.size() + 1);
  const Bytes prior = c.t.u(4) == 3 ? random_bytes(c.t, 4) : Bytes{};
  base.failed = !capped && c.t.u(10) == 9;
  WRes r = c.s.ops.write(be, *o, base, prior);
  if (base.failed) c.labels.insert("failed before");
  if (r.ops && base.failed && (r.ok || r.out != prior)) return "a stream that had failed before the write of " + toks(put_tokens(c.d, c.d.top, v)) + ": " + show(r);
  c.mixt(put_tokens(c.d, c.d.top, v)); c.mixh(be + 2 * base.cap); c.nontrivial = true;
  c.labels.insert(r.ok ? "written" : reason_name(r.reason));
  c.sample = std::string(be ? "BE " : "LE ") + "write " + toks(put_tokens(c.d, c.d.top, v), 16) + " over " + std::to_string(ks.size() + 1) + " streams -> " + show(r);
  if (r.threw) return "memory stream: threw " + r.what;
  for (auto& k : ks) {
    if (capped && (k.kind == K_SS || k.kind == K_FILE)) continue;
    k.cap = base.cap;
    k.failed = base.failed;
    ++c.sub;
    WRes x = c.s.ops.write(be, *o, k, prior);
    const bool same_out = r.reason == EXHAUST ? is_prefix(r.out, x.out) || is_prefix(x.out, r.out) : x.out == r.out;
    if (x.threw || x.ok != r.ok || x.reason != r.reason || x.at != r.at || !same_out)
      return std::string(be ? "BE" : "LE") + " write of " + toks(put_tokens(c.d, c.d.top, v)) + ": memory stream " + show(r) + ", stream kind " + std::to_string(k.kind) + " " + show(x);
    if (x.after) return "stream kind " + std::to_string(k.kind) + ": used after it had failed";
    if (x.bad != (base.failed || x.reason == EXHAUST))
      return std::string(be ? "BE" : "LE") + " write of " + toks(put_tokens(c.d, c.d.top, v)) + ": " + show(x) + ", yet the stream (kind " + std::to_string(k.kind) + ") is left " + (x.bad ? "failed" : "good");
  }
  return "";
}

// writing changes nothing, depends on nothing but the value, and repeats
std::string pure(Ctx& c) {
  Val v, a;
  if (!gen_wire(c, v)) return "";
  if (c.t.u(3) == 2) perturbed(c, v);
  const bool be = c.be();
  auto o = build(c, v);
  const auto before = o->take();
  StreamCfg cfg = ms(c);
  if (c.t.u(4) == 3) cfg.cap = c.t.u(40);
  c.mixt(put_tokens(c.d, c.d.top, v)); c.mixh(be); c.mixh(cfg.cap);
  const std::string pre = std::string(be ? "BE" : "LE") + " write of " + toks(put_tokens(c.d, c.d.top, v)) + ": ";
  auto same = [](const WRes& x, const WRes& y) { return !x.threw && !y.threw && x.ok == y.ok && x.reason == y.reason && x.at == y.at && x.out == y.out; };
  WRes w1 = c.s.ops.write(be, *o, cfg, {});
  if (o->take() != before) return pre + "the object changed from " + toks(before) + " to " + toks(o->take());
  WRes w2 = c.s.ops.write(be, *o, cfg, {});
  if (!same(w1, w2)) return pre + "first " + show(w1) + ", then " + show(w2);
  c.labels.insert(w1.ok ? "written" : reason_name(w1.reason));
  c.nontrivial = w1.out.size() > 0;
  c.sample = toks(put_tokens(c.d, c.d.top, v), 16) + " -> " + show(w1);
  // an object with a past: every slot the user cannot reach holds leftovers
  if (gen_wire(c, a)) {
    Enc e = encode(c.d, c.d.top, a, be);
    RRes r = c.s.ops.read(be, e.out, StreamCfg{});
    if (r.ok) {
      r.obj->put(put_tokens(c.d, c.d.top, v));
      WRes w3 = c.s.ops.write(be, *r.obj, cfg, {});
      ++c.sub;
      c.labels.insert("stale-slots");
      if (!same(w1, w3)) return pre + "fresh object " + show(w1) + ", the same values in an object read from " + hex(e.out) + " " + show(w3);
      const auto t3 = rw_of(c.d, c.d.top, r.obj->take());
      if (t3 != put_tokens(c.d, c.d.top, v)) return pre + "the reused object holds " + toks(t3);
    }
  }
  auto cl = o->clone();
  WRes w4 = c.s.ops.write(be, *cl, cfg, {});
  if (!same(w1, w4)) return pre + "a copy writes " + show(w4) + ", the original " + show(w1);
  // a failed or finished write leaves the next one alone
  if (c.s.ops.has_be) {
    WRes wo = c.s.ops.write(!be, *o, StreamCfg{}, {});
    WRes w5 = c.s.ops.write(be, *o, cfg, {});
    if (wo.threw || !same(w1, w5)) return pre + "after a write in the other order " + show(w5) + ", before it " + show(w1);
  }
  return "";
}

// several records back to back on one stream, mixed orders
std::string hist(Ctx& c) {
  const u64 n = 2 + c.t.u(4);
  std::vector<Val> vs;
  std::vector<std::unique_ptr<Obj>> os;
  std::vector<const Obj*> ps;
  std::vector<bool> be;
  Bytes want;
  std::vector<std::size_t> ends;
  for (u64 i = 0; i < n; ++i) {
    Val v;
    if (i && c.t.u(4) == 3) v = vs[c.t.u(vs.size())];
    else if (!gen_wire(c, v)) return "";
    be.push_back(c.be());
    Enc e = encode(c.d, c.d.top, v, be.back());
    want.insert(want.end(), e.out.begin(), e.out.end());
    ends.push_back(want.size());
    os.push_back(build(c, v));
    ps.push_back(os.back().get());
    vs.push_back(std::move(v));
  }
  c.mixb(want); c.nontrivial = want.size() > n;
  const int kind = (c.kinds & 2) && c.t.u(2) ? K_SS : K_MS;
  c.labels.insert(kind == K_SS ? "stringstream" : "memory");
  c.sample = std::to_string(n) + " records back to back: " + hex(want, 60);
  Session s = c.s.ops.session(kind, ps, be);
  const std::string pre = std::to_string(n) + " records on one stream: ";
  for (u64 i = 0; i < s.w.size(); ++i) if (!s.w[i].ok) return pre + "write " + std::to_string(i) + ": " + show(s.w[i]);
  if (s.w.size() != n || s.r.size() < n) return pre + (s.r.empty() ? "nothing read" : show(s.r.back()));
  if (s.wire != want) return pre + "wire " + hex(s.wire, 400) + ", expected " + hex(want, 400);
  for (u64 i = 0; i < n; ++i) {
    if (!s.r[i].ok) return pre + "read " + std::to_string(i) + ": " + show(s.r[i]);
    if (s.r[i].obj->take() != take_tokens(c.d, c.d.top, vs[i])) return pre + "read " + std::to_string(i) + " of " + hex(want, 400) + " gives " + toks(s.r[i].obj->take()) + ", expected " + toks(take_tokens(c.d, c.d.top, vs[i]));
    if (kind == K_MS && s.pos[i] != ends[i]) return pre + "read " + std::to_string(i) + " stops at " + std::to_string(s.pos[i]) + ", expected " + std::to_string(ends[i]);
  }
  return "";
}

// a history on one object: reads, assignments through operator[], copies, writes
std::string life(Ctx& c) {
  const auto& fs = c.d.recs[static_cast<std::size_t>(c.d.top)].f;
  std::vector<std::size_t> rw;
  for (std::size_t i = 0; i < fs.size(); ++i) if (fs[i].rw()) rw.push_back(i);
  Val cur;
  if (!gen_wire(c, cur)) return "";
  auto o = build(c, cur);
  std::string log = "put";
  const u64 n = 2 + c.t.u(7);
  std::vector<std::pair<std::unique_ptr<Obj>, Val>> bank;
  for (u64 s = 0; s < n; ++s) {
    const bool be = c.be();
    ++c.sub;
    switch (c.t.u(6)) {
      case 0: case 1: {   // assign one field
        if (rw.empty()) break;
        const std::size_t i = rw[c.t.u(rw.size())];
        Gen g{c.d, c.t};
        g.budget = 100;
        Val x;
        Val alt;
        if (c.t.u(2) && gen_wire(c, alt)) x = alt.kids[i];
        else g.free(fs[i], x);
        std::vector<u64> tk;
        tokens(c.d, fs[i], x, false, tk);
        o->put_field(i, tk);
        cur.kids[i] = x;
        log += "; set '" + fs[i].id + "' " + toks(tk, 12);
        break;
      }
      case 2: {           // replace by what a wire gives
        Val a;
        if (!gen_wire(c, a)) break;
        Enc e = encode(c.d, c.d.top, a, be);
        RRes r = c.s.ops.read(be, e.out, StreamCfg{});
        log += "; read " + hex(e.out, 24);
        if (!r.ok) return log + ": " + show(r);
        o->assign_from(*r.obj);
        cur = a;
        break;
      }
      case 3: bank.emplace_back(o->clone(), cur); log += "; copy"; break;
      case 4:
        if (!bank.empty()) { const u64 k = c.t.u(bank.size()); o->assign_from(*bank[k].first); cur = bank[k].second; log += "; restore copy " + std::to_string(k); }
        break;
      case 5: {           // a read that fails must not touch the object
        Bytes b = random_bytes(c.t, 4);
        RRes r = c.s.ops.read(be, b, StreamCfg{});
        log += "; unrelated read";
        break;
      }
    }
    const auto got = rw_of(c.d, c.d.top, o->take()), want = put_tokens(c.d, c.d.top, cur);
    if (got != want) return log + ": the object holds " + toks(got) + ", expected " + toks(want);
    MWrite m = model_write(c.d, c.d.top, cur, be);
    c.labels.insert(m.ok ? "step-writable" : "step-refused");
    const std::string x = conf_write(c, c.s.ops, c.d.top, *o, be, StreamCfg{}, m);
    if (!x.empty()) return log + ": " + x;
  }
  for (auto& [b, v] : bank) {
    const auto got = rw_of(c.d, c.d.top, b->take());
    if (got != put_tokens(c.d, c.d.top, v)) return log + ": a copy changed to " + toks(got);
  }
  c.mixt(put_tokens(c.d, c.d.top, cur)); c.mixh(n);
  c.nontrivial = n > 2;
  c.sample = log.substr(0, 200);
  return "";
}

// nested records: the whole is the concatenation of what the parts do alone
std::string nest(Ctx& c) {
  Val v;
  if (c.s.subs.empty() || !gen_wire(c, v)) return "";
  const bool be = c.be();
  Enc e = encode(c.d, c.d.top, v, be);
  const auto& fs = c.d.recs[static_cast<std::size_t>(c.d.top)].f;
  auto ops_of = [&](int rec) -> const Ops* { for (const auto& s : c.s.subs) if (s.rec == rec) return &s.ops; return nullptr; };
  // the whole, on the real code
  RRes whole = c.s.ops.read(be, e.out, StreamCfg{});
  const std::string pre = std::string(be ? "BE" : "LE") + " " + hex(e.out) + ": ";
  if (!whole.ok) return pre + show(whole);
  Untake u{c.d, *new std::vector<u64>(whole.obj->take())};
  Val got;
  u.rec(c.d.top, got);
  delete &u.t;
  if (u.bad) return pre + "reads as " + show(whole);
  auto o = build(c, v);
  WRes ww = c.s.ops.write(be, *o, StreamCfg{}, {});
  if (!ww.ok) return pre + "value writes " + show(ww);
  std::size_t off = 0;
  for (std::size_t i = 0; i < fs.size(); ++i) {
    const std::size_t end = e.top_end[i];
    const Field* f = &fs[i];
    const Val* x = &v.kids[i];
    const Val* g = &got.kids[i];
    if (f->kind == MAYBE) { if (!x->tag) { off = end; continue; } f = &f->base[0]; x = &x->kids[0]; if (!g->tag) return pre + "'" + fs[i].id + "' absent"; g = &g->kids[0]; }
    else if (f->kind == UNION) { if (g->tag != x->tag) return pre + "'" + fs[i].id + "' holds another alternative"; f = &f->alts[static_cast<std::size_t>(x->tag)].f[0]; x = &x->kids[0]; g = &g->kids[0]; }
    if (f->kind == REC || f->kind == ARRREC || f->kind == VECREC) {
      const Ops* so = ops_of(f->rec);
      std::vector<const Val*> xs, gs;
      if (f->kind == REC) { xs.push_back(x); gs.push_back(g); }
      else { for (const auto& k : x->kids) xs.push_back(&k); for (const auto& k : g->kids) gs.push_back(&k); }
      if (xs.size() != gs.size()) return pre + "'" + fs[i].id + "' holds " + std::to_string(gs.size()) + " records, expected " + std::to_string(xs.size());
      for (std::size_t k = 0; k < xs.size() && so; ++k) {
        StreamCfg cfg;
        cfg.start = off;
        RRes part = so->read(be, e.out, cfg);
        ++c.sub;
        c.nontrivial = true;
        c.labels.insert(f->kind == REC ? "record" : "records");
        if (!part.ok) return pre + "the nested record of '" + fs[i].id + "' alone reads " + show(part);
        if (part.obj->take() != take_tokens(c.d, f->rec, *gs[k])) return pre + "'" + fs[i].id + "' alone reads " + show(part) + ", nested " + toks(take_tokens(c.d, f->rec, *gs[k]));
        auto po = so->make();
        po->put(put_tokens(c.d, f->rec, *xs[k]));
        WRes pw = so->write(be, *po, StreamCfg{}, {});
        const Bytes slice(ww.out.begin() + static_cast<long>(std::min(off, ww.out.size())), ww.out.begin() + static_cast<long>(std::min(part.pos, ww.out.size())));
        if (!pw.ok || pw.out != slice) return pre + "'" + fs[i].id + "' alone writes " + show(pw) + ", nested " + hex(slice);
        // an inner failure is the outer field's, for the same reason
        if (part.pos > off && c.t.u(3) == 2) {
          Bytes bad = e.out;
          const std::size_t at = off + c.t.u(part.pos - off);
          bad[at] = static_cast<u8>(c.t.u(256));
          if (c.t.u(3) == 2) bad.resize(at);
          RRes pb = so->read(be, bad, cfg), wb = c.s.ops.read(be, bad, StreamCfg{});
          if (pb.threw || wb.threw) return pre + "threw";
          if (!pb.ok) {
            c.labels.insert(std::string("inner-") + reason_name(pb.reason));
            if (wb.ok || wb.reason != pb.reason || wb.at != fs[i].id) return hex(bad) + ": the nested record of '" + fs[i].id + "' alone fails with " + show(pb) + ", the whole gives " + show(wb);
          }
        }
        off = part.pos;
      }
    }
    off = end;
  }
  c.mixb(e.out); c.mixh(be);
  c.sample = std::string(be ? "BE " : "LE ") + hex(e.out, 48);
  return "";
}

// what operator[] offers
std::string pol(Ctx& c) {
  const auto& fs = c.d.recs[static_cast<std::size_t>(c.d.top)].f;
  for (std::size_t i = 0; i < fs.size(); ++i) {
    const Policy& p = c.s.policy[i];
    const bool get = !fs[i].hidden, assign = fs[i].rw();
    ++c.sub;
    if (!assign) c.nontrivial = true;
    c.labels.insert(fs[i].hidden ? "hidden" : fs[i].ro ? "read-only" : "writable");
    if (p.get != get || p.cget != get || p.assign != assign || p.cassign) {
      auto w = [](bool g, bool a) { return g ? (a ? "readable and writable" : "read-only") : "not accessible"; };
      return "field '" + fs[i].id + "' should be " + w(get, assign) + " and is " + w(p.get, p.assign) + " (through const: " + w(p.cget, p.cassign) + ")";
    }
  }
  for (std::size_t i = 0; i < fs.size(); ++i) for (char ch : fs[i].id) c.mixh(static_cast<u64>(ch));
  c.sample = std::to_string(fs.size()) + " fields";
  return "";
}

// operator[] as a map: an assignment is visible under its id and nowhere else
std::string map_(Ctx& c) {
  const auto& fs = c.d.recs[static_cast<std::size_t>(c.d.top)].f;
  std::vector<std::size_t> rw;
  for (std::size_t i = 0; i < fs.size(); ++i) if (fs[i].rw()) rw.push_back(i);
  if (rw.empty()) return "";
  auto o = c.s.ops.make();
  Untake* up;
  std::vector<u64> t0 = o->take();
  Untake u{c.d, t0};
  up = &u;
  Val cur;
  up->rec(c.d.top, cur);
  if (up->bad) return "a fresh object shows " + toks(t0);
  const u64 n = 1 + c.t.u(8);
  std::string log;
  for (u64 s = 0; s < n; ++s) {
    const std::size_t i = rw[c.t.u(rw.size())];
    Gen g{c.d, c.t};
    g.budget = 60;
    Val x;
    g.free(fs[i], x);
    std::vector<u64> tk;
    tokens(c.d, fs[i], x, false, tk);
    o->put_field(i, tk);
    log += "'" + fs[i].id + "' = " + toks(tk, 8) + "; ";
    cur.kids[i] = x;
    c.mixt(tk); c.mixh(i);
    const auto got = rw_of(c.d, c.d.top, o->take()), want = put_tokens(c.d, c.d.top, cur);
    ++c.sub;
    if (got != want) return "after " + log + "the object holds " + toks(got) + ", expected " + toks(want);
  }
  c.nontrivial = rw.size() > 1;
  c.sample = log.substr(0, 160);
  return "";
}

// the same schema in another spelling
std::string pair_(Ctx& c) {
  if (c.s.pair < 0) return "";
  const SchemaReg& tw = registry()[static_cast<std::size_t>(c.s.pair)];
  const Desc td = parse_desc(tw);
  const auto& fs = c.d.recs[static_cast<std::size_t>(c.d.top)].f;
  const auto& ts = td.recs[static_cast<std::size_t>(td.top)].f;
  auto idx = [](const auto& v, const std::string& id) { for (std::size_t i = 0; i < v.size(); ++i) if (v[i].id == id) return static_cast<int>(i); return -1; };
  const bool be = c.be();
  for (std::size_t i = 0; i < fs.size(); ++i) {
    const Policy &p = c.s.policy[i], &r = tw.policy[i];
    if (p.get != r.get || p.assign != r.assign || p.cget != r.cget) return "field '" + fs[i].id + "' has another access in the other spelling";
  }
  Val v;
  const bool valid = gen_wire(c, v);
  if (c.t.u(2)) {
    Bytes in;
    if (valid) { Enc e = encode(c.d, c.d.top, v, be); in = c.t.u(2) ? mutate(c, e) : e.out; } else in = random_bytes(c.t, 80);
    RRes a = c.s.ops.read(be, in, StreamCfg{}), b = tw.ops.read(be, in, StreamCfg{});
    c.mixb(in); c.mixh(be); c.nontrivial = in.size() > 0;
    c.labels.insert(a.ok ? "read" : reason_name(a.reason));
    c.sample = std::string(be ? "BE " : "LE ") + hex(in, 40) + " -> " + show(a);
    const int ia = a.ok ? 0 : idx(fs, a.at), ib = b.ok ? 0 : idx(ts, b.at);
    if (a.threw || b.threw || a.ok != b.ok || a.reason != b.reason || ia != ib || a.pos != b.pos || (a.ok && a.obj->take() != b.obj->take()))
      return std::string(be ? "BE" : "LE") + " read of " + hex(in) + ": one spelling " + show(a) + ", the other " + show(b);
    return "";
  }
  if (!valid) return "";
  if (c.t.u(2)) perturbed(c, v);
  auto oa = build(c, v);
  auto ob = tw.ops.make();
  ob->put(put_tokens(c.d, c.d.top, v));
  WRes a = c.s.ops.write(be, *oa, StreamCfg{}, {}), b = tw.ops.write(be, *ob, StreamCfg{}, {});
  c.mixt(put_tokens(c.d, c.d.top, v)); c.mixh(be); c.nontrivial = true;
  c.labels.insert(a.ok ? "written" : reason_name(a.reason));
  c.sample = toks(put_tokens(c.d, c.d.top, v), 16) + " -> " + show(a);
  const int ia = a.ok ? 0 : idx(fs, a.at), ib = b.ok ? 0 : idx(ts, b.at);
  if (a.threw || b.threw || a.ok != b.ok || a.reason != b.reason || ia != ib || a.out != b.out)
    return std::string(be ? "BE" : "LE") + " write of " + toks(put_tokens(c.d, c.d.top, v)) + ": one spelling " + show(a) + ", the other " + show(b);
  return "";
}

// exhaustive over one scalar: every value of up to two bytes, both directions
std::string sweep(Ctx& c) {
  const auto& fs = c.d.recs[static_cast<std::size_t>(c.d.top)].f;
  std::vector<std::size_t> is;
  for (std::size_t i = 0; i < fs.size(); ++i) if (fs[i].kind == INT && fs[i].width <= 2) is.push_back(i);
  Val v;
  if (is.empty() || !gen_wire(c, v)) return "";
  const std::size_t i = is[c.t.u(is.size())];
  const Field& f = fs[i];
  const bool be = c.be();
  Enc e = encode(c.d, c.d.top, v, be);
  const Leaf* l = nullptr;
  for (const auto& x : e.leaves) if (x.f == &f) { l = &x; break; }
  if (!l) return "";
  c.mixb(e.out); c.mixh(i); c.mixh(be);
  c.nontrivial = true;
  c.labels.insert("sweep-" + std::to_string(f.width) + "B");
  c.sample = "every value of '" + f.id + "' in " + hex(e.out, 40);
  const u64 lim = f.width == 1 ? 256 : 65536;
  u64 step = f.width == 1 ? 1 : 1 + c.t.u(16);
  // a long wire is read fewer times
  step = std::max<u64>(step, lim * e.out.size() / 6000000);
  for (u64 x = 0; x < lim; x += step) {
    Bytes in = e.out;
    for (int j = 0; j < l->scalar; ++j) in[l->off + static_cast<std::size_t>(be ? l->scalar - 1 - j : j)] = static_cast<u8>(x >> (8 * j));
    if (f.is_len || f.is_clen || f.small) if (x > 300 && x + 300 < lim) continue;
    MRead m = model_read(c.d, c.d.top, in, be);
    ++c.sub;
    std::string r = conf_read(c, c.s.ops, c.d.top, in, be, StreamCfg{}, m);
    if (!r.empty()) return r;
    if (f.rw()) {
      Val y = v;
      y.kids[i].num = dom_fix(f, x);
      MWrite w = model_write(c.d, c.d.top, y, be);
      auto o = build(c, y);
      r = conf_write(c, c.s.ops, c.d.top, *o, be, StreamCfg{}, w);
      if (!r.empty()) return r;
    }
  }
  return "";
}

// every container length in turn, behind a length slot or (with the slot
// following along, or refusing to) behind the length of an optional or a union
std::string sizes(Ctx& c) {
  const auto& fs = c.d.recs[static_cast<std::size_t>(c.d.top)].f;
  std::vector<std::size_t> is;
  for (std::size_t i = 0; i < fs.size(); ++i) if ((fs[i].is_len || (fs[i].is_clen && fs[i].rw())) && fs[i].kind == INT && !fs[i].is_disc) is.push_back(i);
  Val v;
  if (is.empty() || !gen_wire(c, v)) return "";
  const std::size_t i = is[c.t.u(is.size())];
  const bool be = c.be();
  const u64 how = c.t.u(4);
  u64 from = how == 3 ? c.t.u(70000) : how == 2 ? (u64{256} << c.t.u(9)) / (u64{1} << c.t.u(4)) : 0;
  u64 n = how == 2 ? 5 : 24 + c.t.u(40);
  if (how == 2) from -= std::min<u64>(from, 2);
  const bool stale = !fs[i].is_len && c.t.u(6) == 5;
  const bool trim = c.t.u(4) == 3;
  const bool apart = c.t.u(4) == 3;
  if (apart) n = std::min<u64>(n, 8);
  c.mixh(apart);
  c.mixh(i); c.mixh(from); c.mixh(be); c.mixh(stale + 2 * trim); c.mixt(put_tokens(c.d, c.d.top, v));
  c.sample = "lengths " + std::to_string(from) + ".." + std::to_string(from + n) + " behind '" + fs[i].id + "'";
  auto mine = [&](const Field& f) { return var_size(f) && f.size.kind == 1 && static_cast<std::size_t>(f.size.idx) == i; };
  // 1 resized, 0 not concerned, -1 too large
  auto fit = [&](const Field& f, Val& y, u64 len) {
    if (!mine(f)) return 0;
    if (f.kind == SEQ) {
      if (len * elem_bytes(c.d, f) > 300000) return -1;
      y.data = any_data(c.t, f, len * f.count);
      return 1;
    }
    if (f.kind != VECREC || len > 1500) return -1;
    if (y.kids.size() < len) {
      if (y.kids.empty()) { Gen g{c.d, c.t}; y.kids.emplace_back(); g.free_rec(f.rec, y.kids[0]); }
      const std::size_t m = y.kids.size();
      while (y.kids.size() < len) y.kids.push_back(Val(y.kids[y.kids.size() % m]));
    } else y.kids.resize(len);
    return 1;
  };
  for (u64 len = from; len < from + n; ++len) {
    Val y = v;
    bool any = false;
    for (std::size_t j = 0; j < fs.size(); ++j) {
      const Field& f = fs[j];
      Val& k = y.kids[j];
      int r = 0;
      if (f.kind == MAYBE) { if (k.tag && !k.kids.empty()) r = fit(f.base[0], k.kids[0], len); }
      else if (f.kind == UNION) { if (k.tag >= 0 && static_cast<std::size_t>(k.tag) < f.alts.size() && !k.kids.empty()) r = fit(f.alts[static_cast<std::size_t>(k.tag)].f[0], k.kids[0], len); }
      else r = fit(f, k, len);
      if (r < 0) return "";
      any |= r > 0;
    }
    if (!any) return "";
    c.nontrivial = true;
    if (apart && how != 2) {
      // one of the containers behind it longer by what a slot of some width counts to
      std::vector<std::size_t> js;
      for (std::size_t j = 0; j < fs.size(); ++j) if (mine(fs[j]) && fs[j].kind == SEQ && elem_bytes(c.d, fs[j]) <= 8) js.push_back(j);
      if (!js.empty()) {
        const std::size_t j = js[c.t.u(js.size())];
        const u64 more = c.t.u(12) == 11 && elem_bytes(c.d, fs[j]) == 1 ? 65536 : 256;
        if (fit(fs[j], y.kids[j], len + more) < 0) return "";
      }
    }
    if (!fs[i].is_len && !stale) y.kids[i].num = trim ? dom_fix(fs[i], len) : as_type(len, fs[i].tsize, fs[i].sgn);
    MWrite m = model_write(c.d, c.d.top, y, be);
    if (m.ambiguous) return "";
    auto o = build(c, y);
    ++c.sub;
    c.labels.insert(m.ok ? "fits" : reason_name(m.reason));
    if (!fs[i].is_len) c.labels.insert(m.ok ? "conditional-fits" : "conditional-refused");
    std::string r = conf_write(c, c.s.ops, c.d.top, *o, be, StreamCfg{}, m);
    if (!r.empty()) return r;
    if (m.ok) {
      MRead mr = model_read(c.d, c.d.top, m.e.out, be);
      r = conf_read(c, c.s.ops, c.d.top, m.e.out, be, StreamCfg{}, mr);
      if (!r.empty()) return r;
    }
  }
  return "";
}

// one container of up to a few MiB, written, read back and read cut short
std::string vast(Ctx& c) {
  const auto& fs = c.d.recs[static_cast<std::size_t>(c.d.top)].f;
  std::vector<std::size_t> is;
  u64 widest = 0;
  for (std::size_t i = 0; i < fs.size(); ++i) {
    if (fs[i].kind != SEQ || !var_size(fs[i]) || fs[i].size.kind != 1 || fs[i].con.op != NONE) continue;
    const Field& l = fs[static_cast<std::size_t>(fs[i].size.idx)];
    if (l.kind != INT || !l.is_len || l.is_disc || l.width < 2 || l.con.op != NONE) continue;
    widest = std::max<u64>(widest, std::min<u64>(fs[i].ceiling, l.width == 2 ? 65535 : ~u64{0}));
    is.push_back(i);
  }
  Val v;
  if (is.empty() || widest < 20000 || !gen_wire(c, v)) return "";
  const std::size_t at = is[c.t.u(is.size())];
  const Field& f = fs[at];
  const u64 esz = elem_bytes(c.d, f);
  u64 len = (c.t.u(3) == 2 ? c.t.one_of(g_guide.big) : (u64{1} << (c.t.u(2) ? 14 + c.t.u(9) : 19 + c.t.u(3))) + c.t.u(3) - 1 + (c.t.u(3) == 2 ? c.t.u(5000) : 0));
  if (c.t.u(2)) len = len / esz;                         // so many bytes, or so many elements
  if (len > (5u << 20) || len * esz > std::min<u64>(f.ceiling + 16, 5u << 20)) len = std::min<u64>(f.ceiling, 5u << 20) / esz;
  if (len > (3u << 20)) len = len % (3u << 20);
  const bool be = c.be();
  for (std::size_t j = 0; j < fs.size(); ++j)
    if (fs[j].kind == SEQ && var_size(fs[j]) && fs[j].size.kind == 1 && fs[j].size.idx == f.size.idx) {
      if (len * elem_bytes(c.d, fs[j]) > (8u << 20)) return "";
      v.kids[j].data = any_data(c.t, fs[j], len * fs[j].count);
    } else if ((fs[j].kind == VECREC || fs[j].kind == MAYBE || fs[j].kind == UNION) && c.t.u(2)) return "";
  c.mixh(at); c.mixh(len); c.mixh(be);
  c.sample = std::to_string(len) + " elements of " + std::to_string(esz) + " bytes in '" + fs[at].id + "'";
  MWrite m = model_write(c.d, c.d.top, v, be);
  if (m.ambiguous) return "";
  c.nontrivial = true;
  auto o = build(c, v);
  std::string r = conf_write(c, c.s.ops, c.d.top, *o, be, StreamCfg{}, m);
  if (!r.empty() || !m.ok) return r;
  c.labels.insert(m.e.out.size() >= (1u << 20) ? "over 1 MiB" : m.e.out.size() >= 65536 ? "over 64 KiB" : "under 64 KiB");
  MRead mr = model_read(c.d, c.d.top, m.e.out, be);
  r = conf_read(c, c.s.ops, c.d.top, m.e.out, be, StreamCfg{}, mr);
  if (!r.empty()) return r;
  Bytes cut = m.e.out;
  if (cut.empty()) return "";
  const u64 n = c.t.u(3) ? cut.size() - 1 - c.t.u(std::min<u64>(cut.size(), 40)) : c.t.u(cut.size());
  cut.resize(n);
  ++c.sub;
  mr = model_read(c.d, c.d.top, cut, be);
  return conf_read(c, c.s.ops, c.d.top, cut, be, StreamCfg{}, mr);
}

// ------------------------------------------------------------- several at once
// One cast on a stream and an object of its own, and what came of it.
struct Job {
  bool write = false, be = false;
  Bytes in;
  std::unique_ptr<Obj> o;
  StreamCfg cfg;
  std::string text;
};

std::string outcome(const Ops& ops, const Job& j) {
  if (j.write) {
    WRes r = ops.write(j.be, *j.o, j.cfg, {});
    return show(r) + " " + hex(r.out, SIZE_MAX) + (r.after ? " and used the failed stream" : "");
  }
  RRes r = ops.read(j.be, j.in, j.cfg);
  return show(r) + (r.obj ? " " + toks(r.obj->take(), SIZE_MAX) : "") + " at " + std::to_string(r.pos) + (r.after ? " and used the failed stream" : "");
}

// what runs from inside another cast's stream
struct Meanwhile {
  const Ops* ops = nullptr;
  const std::vector<Job>* jobs = nullptr;
  const std::vector<std::string>* alone = nullptr;
  std::size_t outer = 0, turn = 0, left = 0;
  std::string msg;
};
thread_local Meanwhile* t_mean = nullptr;

void in_between() {
  Meanwhile* m = t_mean;
  if (!m || !m->left || !m->msg.empty()) return;
  t_mean = nullptr;
  --m->left;
  const std::size_t k = m->turn++ % m->jobs->size();
  const std::string got = outcome(*m->ops, (*m->jobs)[k]);
  if (got != (*m->alone)[k]) m->msg = (*m->jobs)[k].text + ", run by the stream of (" + (*m->jobs)[m->outer].text + "): alone " + (*m->alone)[k].substr(0, 200) + ", now " + got.substr(0, 200);
  t_mean = m;
}

// casts that run at the same time, or one inside the other's stream, give what
// each gives alone
std::string par(Ctx& c) {
  const Ops& ops = c.s.ops;
  const std::size_t n = 2 + c.t.u(3);
  std::vector<Job> jobs;
  std::size_t bytes = 0;
  for (std::size_t i = 0; i < n; ++i) {
    Val v;
    if (!gen_wire(c, v)) break;
    Job j;
    j.be = c.be();
    j.cfg = ms(c);
    const u64 kind = c.t.u(5);
    if (kind >= 2) {   // a read: of a valid wire, of a changed one, of one cut short
      Enc e = encode(c.d, c.d.top, v, j.be);
      j.in = e.out;
      if (kind == 3) {
        j.in = mutate(c, e);
        if (model_read(c.d, c.d.top, j.in, j.be).max_alloc > (1u << 18)) j.in = e.out;
      } else if (kind == 4 && !j.in.empty()) j.in.resize(c.t.u(j.in.size()));
      j.text = std::string(j.be ? "BE" : "LE") + " read of " + hex(j.in, 40);
      c.mixb(j.in);
      bytes += j.in.size();
    } else {
      j.write = true;
      if (kind == 1) perturbed(c, v);
      j.o = build(c, v);
      j.text = std::string(j.be ? "BE" : "LE") + " write of " + toks(j.o->take(), 16);
      c.mixt(put_tokens(c.d, c.d.top, v));
      bytes += put_tokens(c.d, c.d.top, v).size();
    }
    c.labels.insert(j.write ? "writes" : "reads");
    c.mixh(j.be);
    jobs.push_back(std::move(j));
  }
  if (jobs.size() < 2) return "";
  const bool threads = c.t.u(3) > 0, nested = c.t.u(3) < 2;
  std::vector<std::string> alone;
  for (const auto& j : jobs) alone.push_back(outcome(ops, j));
  for (std::size_t i = 0; i < jobs.size(); ++i)
    if (outcome(ops, jobs[i]) != alone[i]) return jobs[i].text + ": alone " + alone[i].substr(0, 200) + ", and again something else";
  c.nontrivial = std::set<std::string>(alone.begin(), alone.end()).size() > 1;
  c.sample = std::to_string(jobs.size()) + " at once: " + jobs[0].text + " | " + jobs[1].text;
  if (nested) {
    c.labels.insert("one inside another's stream");
    for (std::size_t i = 0; i < jobs.size(); ++i) {
      Meanwhile m;
      m.ops = &ops; m.jobs = &jobs; m.alone = &alone; m.outer = i; m.turn = i + 1;
      m.left = std::max<std::size_t>(8, std::min<std::size_t>(100, 20000 / (bytes + 1)));
      t_mean = &m;
      g_meanwhile = in_between;
      const std::string got = outcome(ops, jobs[i]);
      g_meanwhile = nullptr;
      t_mean = nullptr;
      ++c.sub;
      if (!m.msg.empty()) return m.msg;
      if (got != alone[i]) return jobs[i].text + ", whose stream casts other records meanwhile: alone " + alone[i].substr(0, 200) + ", now " + got.substr(0, 200);
    }
  }
  if (threads) {
    c.labels.insert("in threads");
    const bool h = g_guide.harvest, tr = g_guide.trace;
    g_guide.harvest = g_guide.trace = false;
    const std::size_t reps = std::max<std::size_t>(4, std::min<std::size_t>(60, 20000 / (bytes + 1)));
    std::vector<std::string> bad(jobs.size());
    std::atomic<std::size_t> ready{0};
    std::vector<std::thread> ts;
    for (std::size_t i = 0; i < jobs.size(); ++i) {
      ts.emplace_back([&, i] {
        ready.fetch_add(1);
        while (ready.load() < jobs.size()) std::this_thread::yield();
        for (std::size_t k = 0; k < reps && bad[i].empty(); ++k) {
          std::string got = outcome(ops, jobs[i]);
          if (got != alone[i]) bad[i] = std::move(got);
        }
      });
    }
    for (auto& t : ts) t.join();
    g_guide.harvest = h; g_guide.trace = tr;
    c.sub += jobs.size() * reps;
    for (std::size_t i = 0; i < jobs.size(); ++i)
      if (!bad[i].empty()) return jobs[i].text + ", next to casts in other threads: alone " + alone[i].substr(0, 200) + ", now " + bad[i].substr(0, 200);
  }
  return "";
}

const std::pair<const char*, Check> CHECKS[] = {
    {"rd_ok", rd_ok}, {"rd_mut", rd_mut}, {"rd_trunc", rd_trunc}, {"rd_rand", rd_rand}, {"rd_len", rd_len},
    {"wr_ok", wr_ok}, {"wr_bad", wr_bad}, {"wr_fault", wr_fault}, {"rt_wr", rt_wr}, {"rt_rd", rt_rd},
    {"dual", dual}, {"kinds", kinds}, {"pure", pure}, {"hist", hist}, {"life", life}, {"nest", nest},
    {"pol", pol}, {"map", map_}, {"pair", pair_}, {"sweep", sweep}, {"sizes", sizes}, {"vast", vast}, {"par", par},
};

// ---------------------------------------------------------------------- dumping
// Cases with the result the model gives them, for programs that evaluate the
// same casts in the compiler. One line per case, numbers only (see gen/emit.py).
void dump_case(const Ctx& c0, int schema, std::ostream& o) {
  Ctx c = c0;
  const bool be = c.be();
  auto nums = [&](const auto& v) { o << ' ' << v.size(); for (auto x : v) o << ' ' << static_cast<u64>(x); };
  Val v;
  const bool valid = gen_wire(c, v);
  if (c.t.u(5) < 3) {
    Bytes in;
    if (valid) {
      Enc e = encode(c.d, c.d.top, v, be);
      switch (c.t.u(5)) {
        case 0: case 1: in = e.out; break;
        case 2: case 3: in = mutate(c, e); break;
        default: in = e.out; if (!in.empty()) in.resize(c.t.u(in.size()));
      }
    } else in = random_bytes(c.t, 40);
    const Bytes tail = random_bytes(c.t, 3);
    if (c.t.u(3) == 2) in.insert(in.end(), tail.begin(), tail.end());
    MRead m = model_read(c.d, c.d.top, in, be);
    if (m.max_alloc > 2000 || in.size() > 300) return;
    o << "R " << schema << ' ' << be << ' ' << m.ok << ' ' << m.reason << ' ' << m.at << ' ' << m.lo << ' ' << m.hi << ' ' << c.t.u(2);
    nums(in);
    nums(m.ok ? take_tokens(c.d, c.d.top, m.v) : std::vector<u64>{});
    o << '\n';
    return;
  }
  if (!valid) { Gen g{c.d, c.t}; g.free_rec(c.d.top, v); }
  else if (c.t.u(2)) perturbed(c, v);
  MWrite m = model_write(c.d, c.d.top, v, be);
  if (m.ambiguous || m.e.out.size() > 300) return;
  const auto tk = put_tokens(c.d, c.d.top, v);
  if (tk.size() > 400) return;
  std::size_t cap = SIZE_MAX, lo = m.e.out.size();
  if (!m.e.out.empty() && c.t.u(4) == 3) {
    cap = c.t.u(m.e.out.size());
    const Leaf* own = nullptr;
    for (const auto& l : m.e.leaves) if (l.off <= cap && cap < l.off + l.len) own = &l;
    m.ok = false; m.reason = EXHAUST; m.alt_reason = -1; m.at = own->top;
    lo = own->off;
  }
  o << "W " << schema << ' ' << be << ' ' << m.ok << ' ' << m.reason << ' ' << m.at << ' ' << lo << ' ' << cap << ' ' << c.t.u(2) << ' ' << m.alt_reason;
  nums(tk);
  nums(m.e.out);
  o << '\n';
}

// ---------------------------------------------------------------------- driver
struct Opts {
  u64 dump = 0;
  std::vector<std::pair<int, u64>> checks;
  u64 seed = 1, cases = 1000, cpu = 200, secs = 100000;
  std::string out, tmp = "/tmp/hv_tmp", replay;
  int kinds = 1;
};

struct Failure { bool found = false; int check = 0, schema = 0; std::vector<u64> tape, first; std::string msg; };

struct Stats {
  u64 cases = 0, evals = 0, nontrivial = 0;
  std::unordered_set<u64> distinct;
  std::map<std::string, u64> labels;
  std::map<std::string, std::vector<std::string>> samples;
};

std::vector<Desc> g_desc;

std::string run_one(const Opts& o, int check, int schema, Tape& t, Stats* st) {
  if (g_sh) { g_sh->check = check; g_sh->schema = schema; g_sh->n = 0; g_sh->started = std::time(nullptr); for (std::size_t i = 0; i < t.d.size() && i < (1 << 16); ++i) g_sh->tape[i] = t.d[i]; g_sh->n = t.d.size(); }
  Ctx c{g_desc[static_cast<std::size_t>(schema)], registry()[static_cast<std::size_t>(schema)], t, o.kinds, o.tmp};
  std::string m = CHECKS[check].second(c);
  if (st) {
    ++st->cases;
    st->evals += 1 + c.sub;
    const std::string name = CHECKS[check].first;
    if (c.nontrivial) {
      c.mixh(static_cast<u64>(check)); c.mixh(static_cast<u64>(schema));
      if (st->distinct.insert(c.hash).second) ++st->nontrivial;
      auto& s = st->samples[name];
      if (s.size() < 2 && !c.sample.empty()) s.push_back(std::string(c.s.name) + ": " + c.sample);
    }
    for (const auto& l : c.labels) ++st->labels[name + "/" + l];
  }
  return m;
}

void shrink(Failure& f, const std::function<std::string(const std::vector<u64>&)>& attempt, int budget) {
  auto tryit = [&](std::vector<u64> t) {
    if (--budget < 0) return false;
    std::string m = attempt(t);
    if (m.empty() || m.rfind("HARNESS", 0) == 0) return false;
    f.tape = std::move(t);
    f.msg = m;
    return true;
  };
  bool again = true;
  while (again && budget > 0) {
    again = false;
    for (std::size_t k = f.tape.size(); k >= 1 && budget > 0; k /= 2) {
      for (std::size_t i = 0; i + k <= f.tape.size() && budget > 0;) {
        std::vector<u64> t = f.tape;
        t.erase(t.begin() + static_cast<long>(i), t.begin() + static_cast<long>(i + k));
        if (tryit(t)) again = true; else i += k;
      }
    }
    for (std::size_t i = 0; i < f.tape.size() && budget > 0; ++i) {
      if (!f.tape[i]) continue;
      std::vector<u64> t = f.tape;
      t[i] = 0;
      if (tryit(t)) { again = true; continue; }
      u64 lo = 0, hi = f.tape[i];
      while (hi - lo > 1 && budget > 0) {
        const u64 mid = lo + (hi - lo) / 2;
        t = f.tape; t[i] = mid;
        if (tryit(t)) { hi = mid; again = true; } else lo = mid;
      }
    }
  }
}

void report(const Opts& o, const Stats& st, const Failure& f, const std::string& err) {
  std::ofstream s(o.out);
  s << "{\"cases\": " << st.cases << ", \"evaluations\": " << st.evals << ", \"distinct_nontrivial\": " << st.nontrivial << ", \"schemas\": " << registry().size() << ",\n \"labels\": {";
  bool first = true;
  for (const auto& [k, v] : st.labels) { s << (first ? "" : ", ") << q(k) << ": " << v; first = false; }
  s << "},\n \"samples\": [";
  first = true;
  for (const auto& [k, v] : st.samples) for (const auto& x : v) { s << (first ? "" : ",\n  ") << q(k + " " + x); first = false; }
  s << "],\n \"error\": " << q(err) << ",\n \"failure\": ";
  if (!f.found) s << "null";
  else {
    s << "{\"check\": " << q(CHECKS[f.check].first) << ", \"schema\": " << q(registry()[static_cast<std::size_t>(f.schema)].name) << ", \"message\": " << q(f.msg) << ", \"tape\": [";
    for (std::size_t i = 0; i < f.tape.size(); ++i) s << (i ? ", " : "") << f.tape[i];
    s << "], \"first\": [";
    for (std::size_t i = 0; i < f.first.size(); ++i) s << (i ? ", " : "") << f.first[i];
    s << "]}";
  }
  s << "}\n";
}

int worker(const Opts& o) {
  Stats st;
  Failure f;
  std::string err;
  u64 total = 0;
  for (const auto& [k, w] : o.checks) total += w;
  const u64 ns = registry().size();
  const std::time_t until = std::time(nullptr) + static_cast<std::time_t>(o.secs);
  std::map<std::pair<int, int>, std::vector<std::vector<u64>>> kept;
  const u64 look = std::min<u64>(4000, o.cases / 8);
  for (u64 n = 0; n < o.cases && !f.found && err.empty(); ++n) {
    if (n % 64 == 0 && std::time(nullptr) > until) break;
    Tape t;
    t.live = true;
    t.st = o.seed * 0x9e3779b97f4a7c15ul + n * 0xd1342543de82ef95ul + 12345;
    (void)t.rnd();
    u64 pick = (n / ns) % total;
    int check = 0;
    for (const auto& [k, w] : o.checks) { if (pick < w) { check = k; break; } pick -= w; }
    const int schema = static_cast<int>(n % ns);
    g_guide.harvest = g_guide.trace = n < look || n % 32 == 0;
    g_guide.fresh = 0;
    auto& pool = kept[{check, schema}];
    if (!pool.empty() && t.rnd() % 6 == 0) {
      // start from a tape that once reached something new
      t.d = pool[t.rnd() % pool.size()];
      const u64 cut = t.rnd() % (t.d.size() + 1);
      if (t.rnd() % 2) t.d.resize(cut);
      else for (u64 k = 1 + t.rnd() % 3; k && !t.d.empty(); --k) t.d[t.rnd() % t.d.size()] = t.rnd() % 4 ? t.rnd() : t.rnd() % 16;
      ++st.labels["kept tape varied"];
    }
    std::string m = run_one(o, check, schema, t, &st);
    if (g_guide.fresh && pool.size() < 24) pool.push_back(t.d);
    if (g_sh) g_sh->cases = n;
    if (m.empty()) continue;
    if (m.rfind("HARNESS", 0) == 0) { err = std::string(registry()[static_cast<std::size_t>(schema)].name) + " " + CHECKS[check].first + " " + m; break; }
    f.found = true; f.check = check; f.schema = schema; f.tape = f.first = t.d; f.msg = m;
    report(o, st, f, err);
    shrink(f, [&](const std::vector<u64>& tp) { Tape x; x.d = tp; return run_one(o, check, schema, x, nullptr); }, 3000);
  }
  report(o, st, f, err);
  return 0;
}

int forked(const Opts& o, const std::function<int()>& body, u64 cpu, bool quiet) {
  std::fflush(nullptr);
  const pid_t p = fork();
  if (p == 0) {
    rlimit rl{cpu, cpu + 5};
    setrlimit(RLIMIT_CPU, &rl);
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    if (quiet) { std::freopen("/dev/null", "w", stderr); }
    _exit(body());
  }
  int st = 0;
  waitpid(p, &st, 0);
  (void)o;
  return st;
}

std::string why(int st) {
  if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGXCPU ? "did not terminate" : "crashed with signal " + std::to_string(WTERMSIG(st));
  return "exited with status " + std::to_string(WEXITSTATUS(st));
}

int drive(Opts o, int argc, char** argv) {
  std::map<std::string, int> names;
  for (std::size_t i = 0; i < std::size(CHECKS); ++i) names[CHECKS[i].first] = static_cast<int>(i);
  for (int i = 1; i + 1 < argc; i += 2) {
    const std::string k = argv[i], v = argv[i + 1];
    if (k == "--checks") {
      std::istringstream s(v);
      std::string x;
      while (std::getline(s, x, ',')) {
        const auto c = x.find(':');
        const std::string nm = x.substr(0, c);
        if (!names.count(nm)) { std::fprintf(stderr, "no check %s\n", nm.c_str()); return 3; }
        o.checks.push_back({names[nm], c == std::string::npos ? 1 : std::stoul(x.substr(c + 1))});
      }
    }
    if (k == "--seed") o.seed = std::stoul(v);
    if (k == "--cases") o.cases = std::stoul(v);
    if (k == "--cpu") o.cpu = std::stoul(v);
    if (k == "--secs") o.secs = std::stoul(v);
    if (k == "--dump") o.dump = std::stoul(v);
    if (k == "--out") o.out = v;
    if (k == "--tmp") o.tmp = v;
    if (k == "--kinds") o.kinds = std::stoi(v);
    if (k == "--replay") o.replay = v;
    if (k == "--dict") {
      std::istringstream ss(v);
      std::string x;
      while (std::getline(ss, x, ',')) {
        const u64 y = std::stoul(x);
        g_guide.dict.push_back(y);
        for (u64 w : {y, y * 2, y * 4, y * 8, y / 2, y / 4, y / 8}) if (w > 2 && w <= 70000) g_guide.lens.push_back(w);
        for (u64 w : {y, y * 2, y * 4, y / 2}) if (w >= 4096 && w <= (4u << 20)) g_guide.big.push_back(w);
      }
    }
  }
  for (const auto& r : registry()) g_desc.push_back(parse_desc(r));
  void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_sh = static_cast<Shared*>(m);

  if (o.dump) {
    std::ofstream s(o.out);
    for (std::size_t i = 0; i < registry().size(); ++i) {
      for (u64 n = 0; n < o.dump; ++n) {
        Tape t;
        t.live = true;
        t.st = o.seed * 0x9e3779b97f4a7c15ul + (n * 1000 + i) * 0xd1342543de82ef95ul + 77;
        Ctx c{g_desc[i], registry()[i], t, o.kinds, o.tmp};
        dump_case(c, static_cast<int>(i), s);
      }
    }
    return 0;
  }

  if (!o.replay.empty()) {
    // "check schema-name tape..." — one case, judged again
    std::ifstream s(o.replay);
    std::string ck, sc;
    s >> ck >> sc;
    Tape t;
    u64 x;
    while (s >> x) t.d.push_back(x);
    int schema = -1;
    for (std::size_t i = 0; i < registry().size(); ++i) if (registry()[i].name == sc) schema = static_cast<int>(i);
    if (schema < 0 || !names.count(ck)) { std::fprintf(stderr, "replay: unknown check or schema\n"); return 3; }
    const int st = forked(o, [&] {
      std::string r = run_one(o, names[ck], schema, t, nullptr);
      if (r.empty()) return 0;
      std::printf("%s\n", r.c_str());
      std::fflush(stdout);
      return r.rfind("HARNESS", 0) == 0 ? 3 : 9;
    }, 60, false);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 3)) return WEXITSTATUS(st);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 9)) std::printf("%s\n", why(st).c_str());
    return 1;
  }

  const int st = forked(o, [&] { return worker(o); }, o.cpu, false);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  // the worker died in a case: the tape is in shared memory
  Failure f;
  f.found = true;
  f.check = g_sh->check; f.schema = g_sh->schema;
  for (u64 i = 0; i < g_sh->n && i < (1 << 16); ++i) f.tape.push_back(g_sh->tape[i]);
  f.first = f.tape;
  f.msg = why(st);
  const u64 done = g_sh->cases;
  // died for good, or only ran out of the whole run's time?
  auto again = [&](const std::vector<u64>& tp) -> std::string {
    Tape t;
    t.d = tp;
    const int s = forked(o, [&] { return run_one(o, f.check, f.schema, t, nullptr).empty() ? 0 : 9; }, 100, true);
    if (WIFEXITED(s) && WEXITSTATUS(s) == 0) return "";
    if (WIFEXITED(s) && WEXITSTATUS(s) == 9) return "";
    return why(s);
  };
  Stats stt;
  stt.cases = stt.evals = done;
  std::string first = again(f.tape);
  if (first.empty()) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) { f.found = false; report(o, stt, f, ""); return 0; }
    f.found = false;
    report(o, stt, f, "worker died and the case does not reproduce: " + why(st));
    return 0;
  }
  f.msg = first;
  shrink(f, again, first == "did not terminate" ? 1 : 250);
  report(o, stt, f, "");
  return 0;
}

}  // namespace hv

extern "C" {
#define HV_CMP(n, t) \
  void __sanitizer_cov_trace_cmp##n(t, t) {} \
  void __sanitizer_cov_trace_const_cmp##n(t a, t) { if (hv::g_guide.harvest) hv::g_guide.constant(a); }
HV_CMP(1, std::uint8_t)
HV_CMP(2, std::uint16_t)
HV_CMP(4, std::uint32_t)
HV_CMP(8, std::uint64_t)
void __sanitizer_cov_trace_cmpf(float, float) {}
void __sanitizer_cov_trace_cmpd(double, double) {}
void __sanitizer_cov_trace_switch(std::uint64_t, std::uint64_t* c) { if (hv::g_guide.harvest) for (std::uint64_t i = 0; i < c[0]; ++i) hv::g_guide.constant(c[2 + i]); }
void __sanitizer_cov_trace_pc() { if (hv::g_guide.trace) hv::g_guide.pc(reinterpret_cast<std::uint64_t>(__builtin_return_address(0)) - reinterpret_cast<std::uint64_t>(&__sanitizer_cov_trace_pc)); }
}

int main(int argc, char** argv) { return hv::drive({}, argc, argv); }
