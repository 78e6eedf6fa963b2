// Generic part of every run-time check: token glue between a schema's C++
// object and the model's value tree, the streams the casts are driven with, and
// the type-erased operations the checks are written against.
//
// Only the public API of s2s is named here.
#ifndef HV_HARNESS_HPP
#define HV_HARNESS_HPP

#ifdef HV_SINGLE
#include HV_SINGLE
#else
#include "s2s.hpp"
#endif

#include <algorithm>
#include <array>
#include <bit>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <variant>
#include <vector>

#include "api.hpp"

using ll = long long;
using ull = unsigned long long;
using f32 = float;
using f64 = double;

using namespace s2s_literals;

namespace hv {

// ---------------------------------------------------------------- token glue
template <typename T> struct Glue { static constexpr bool is_record = false; };

template <typename T> struct is_opt : std::false_type {};
template <typename T> struct is_opt<std::optional<T>> : std::true_type {};
template <typename T> struct is_var : std::false_type {};
template <typename... T> struct is_var<std::variant<T...>> : std::true_type {};
template <typename T> struct is_vec : std::false_type {};
template <typename T> struct is_vec<std::vector<T>> : std::true_type {};
template <typename T> struct is_fs : std::false_type {};
template <std::size_t N> struct is_fs<s2s::fixed_string<N>> : std::true_type {};
template <typename T> struct is_sa : std::false_type {};
template <typename T, std::size_t N> struct is_sa<std::array<T, N>> : std::true_type {};

struct TIn {
  const u64* p;
  constexpr u64 next() { return *p++; }
};

struct TOut {
  std::vector<u64> v;
  constexpr void add(u64 x) { v.push_back(x); }
};

template <typename X> constexpr u64 canon(X x) {
  if constexpr (std::is_same_v<X, float>) return std::bit_cast<std::uint32_t>(x);
  else if constexpr (std::is_same_v<X, double>) return std::bit_cast<std::uint64_t>(x);
  else return static_cast<u64>(x);
}

template <typename X> constexpr X uncanon(u64 x) {
  if constexpr (std::is_same_v<X, float>) return std::bit_cast<float>(static_cast<std::uint32_t>(x));
  else if constexpr (std::is_same_v<X, double>) return std::bit_cast<double>(static_cast<std::uint64_t>(x));
  else return static_cast<X>(x);
}

template <typename X> constexpr void put(X& x, TIn& t);

template <std::size_t I, typename V> constexpr void put_alt(V& v, std::size_t idx, TIn& t) {
  if constexpr (I < std::variant_size_v<V>) {
    if (idx == I) {
      std::variant_alternative_t<I, V> alt{};
      put(alt, t);
      v.template emplace<I>(std::move(alt));
    } else {
      put_alt<I + 1>(v, idx, t);
    }
  }
}

template <typename X> constexpr void put(X& x, TIn& t) {
  if constexpr (std::is_arithmetic_v<X>) x = uncanon<X>(t.next());
  else if constexpr (is_fs<X>::value) { for (auto& c : x.value) c = static_cast<char>(t.next()); }
  else if constexpr (std::is_array_v<X> || is_sa<X>::value) { for (auto& e : x) put(e, t); }
  else if constexpr (std::is_same_v<X, std::string> || is_vec<X>::value) {
    x.resize(t.next());
    for (auto& e : x) put(e, t);
  } else if constexpr (is_opt<X>::value) {
    if (t.next()) { x.emplace(); put(*x, t); } else x.reset();
  } else if constexpr (is_var<X>::value) {
    const std::size_t idx = t.next();
    put_alt<0>(x, idx, t);
  } else Glue<X>::put(x, t);
}

template <typename X> constexpr void take(const X& x, TOut& t);

template <std::size_t I, typename V> constexpr void take_alt(const V& v, TOut& t) {
  if constexpr (I < std::variant_size_v<V>) {
    if (v.index() == I) take(std::get<I>(v), t);
    else take_alt<I + 1>(v, t);
  }
}

template <typename X> constexpr void take(const X& x, TOut& t) {
  if constexpr (std::is_arithmetic_v<X>) t.add(canon(x));
  else if constexpr (is_fs<X>::value) { for (auto c : x.value) t.add(canon(c)); }
  else if constexpr (std::is_array_v<X> || is_sa<X>::value) { for (const auto& e : x) take(e, t); }
  else if constexpr (std::is_same_v<X, std::string> || is_vec<X>::value) {
    t.add(x.size());
    for (const auto& e : x) take(e, t);
  } else if constexpr (is_opt<X>::value) {
    t.add(x.has_value());
    if (x) take(*x, t);
  } else if constexpr (is_var<X>::value) {
    t.add(x.index());
    take_alt<0>(x, t);
  } else Glue<X>::take(x, t);
}

// What a schema's callables are written over: one number per argument. The
// model computes the same number from its own value tree.
template <typename X> constexpr u64 measure(const X& x);

constexpr u64 mix(u64 acc, u64 m) { return acc * 3 + m + 1; }

template <std::size_t I, typename V> constexpr u64 measure_alt(const V& v) {
  if constexpr (I < std::variant_size_v<V>) {
    if (v.index() == I) return measure(std::get<I>(v));
    return measure_alt<I + 1>(v);
  } else return 0;
}

template <typename X> constexpr u64 flat_measure(const X& x, u64 acc) {
  if constexpr (std::is_arithmetic_v<X>) return mix(acc, canon(x));
  else { for (const auto& e : x) acc = flat_measure(e, acc); return acc; }
}

template <typename X> constexpr u64 measure(const X& x) {
  if constexpr (std::is_arithmetic_v<X>) return canon(x);
  else if constexpr (is_fs<X>::value) return flat_measure(x.value, 0);
  else if constexpr (Glue<X>::is_record) return Glue<X>::measure(x);
  else if constexpr (is_opt<X>::value) return x ? measure(*x) + 1 : 0;
  else if constexpr (is_var<X>::value) return x.index() * 7 + measure_alt<0>(x);
  else if constexpr (is_vec<X>::value || std::is_same_v<X, std::string>) {
    // a variable container measures as its element count, so that callables
    // over it stay meaningful for sizes
    return x.size();
  } else if constexpr (is_sa<X>::value || std::is_array_v<X>) {
    using E = std::remove_cvref_t<decltype(*std::begin(x))>;
    if constexpr (Glue<E>::is_record) {
      u64 acc = 0;
      for (const auto& e : x) acc = mix(acc, measure(e));
      return acc;
    } else return flat_measure(x, 0);
  } else return 0;
}

// ------------------------------------------------------------------- streams

// A custom stream in the shape the documentation gives: char* + count, bad on
// failure, sticky. `partial` decides whether an op that does not fit moves the
// bytes that do.
struct MS {
  Bytes* buf;
  std::size_t rp = 0;
  std::size_t cap = SIZE_MAX;
  bool partial = false;
  bool ok = true;
  std::size_t ops = 0, after = 0, neg = 0;
  explicit MS(Bytes& b) : buf(&b) {}
  auto read_(char* d, std::streamsize n_) -> MS& {
    ++ops;
    if (!ok) { ++after; return *this; }
    if (n_ < 0) { ++neg; ok = false; return *this; }
    const auto n = static_cast<std::size_t>(n_);
    const std::size_t avail = buf->size() - rp;
    if (n > avail) {
      ok = false;
      if (partial && avail) { std::memcpy(d, buf->data() + rp, avail); rp += avail; }
      return *this;
    }
    if (n) std::memcpy(d, buf->data() + rp, n);
    rp += n;
    return *this;
  }
  auto write_(const char* s, std::size_t n) -> MS& {
    ++ops;
    if (!ok) { ++after; return *this; }
    if (n > cap - buf->size()) {
      ok = false;
      if (partial) buf->insert(buf->end(), s, s + (cap - buf->size()));
      return *this;
    }
    buf->insert(buf->end(), s, s + n);
    return *this;
  }
  auto read(char* d, std::streamsize n) -> MS& {
    if (g_meanwhile) g_meanwhile();
    read_(d, n);
    if (g_meanwhile) g_meanwhile();
    return *this;
  }
  auto write(const char* s, std::size_t n) -> MS& {
    if (g_meanwhile) g_meanwhile();
    write_(s, n);
    if (g_meanwhile) g_meanwhile();
    return *this;
  }
  explicit operator bool() const { return ok; }
};

// The constant-evaluation stream, on std::array.
struct CS : s2s::constexpr_stream {
  Bytes* buf;
  std::size_t rp = 0;
  std::size_t cap = SIZE_MAX;
  bool partial = false;
  bool ok = true;
  std::size_t after = 0;
  constexpr explicit CS(Bytes& b) : buf(&b) {}
  template <std::size_t N>
  constexpr auto read(std::array<char, N>& d, std::size_t n) -> CS& {
    if (!ok) { ++after; return *this; }
    if (!partial && n > buf->size() - rp) { ok = false; return *this; }
    for (std::size_t i = 0; i < n; ++i) {
      if (rp >= buf->size()) { ok = false; return *this; }
      d[i] = static_cast<char>((*buf)[rp++]);
    }
    return *this;
  }
  template <std::size_t N>
  constexpr auto write(const std::array<char, N>& s, std::size_t n) -> CS& {
    if (!ok) { ++after; return *this; }
    if (!partial && n > cap - buf->size()) { ok = false; return *this; }
    for (std::size_t i = 0; i < n; ++i) {
      if (buf->size() >= cap) { ok = false; return *this; }
      buf->push_back(static_cast<u8>(s[i]));
    }
    return *this;
  }
  constexpr explicit operator bool() const { return ok; }
};

// A std::streambuf over a byte vector with a small window and a capacity.
struct WinBuf : std::streambuf {
  Bytes* buf;
  std::size_t rp = 0, cap, win;
  std::vector<char> w;
  WinBuf(Bytes& b, std::size_t cap_, std::size_t win_) : buf(&b), cap(cap_), win(win_), w(win_) {}
  int_type underflow() override {
    if (rp >= buf->size()) return traits_type::eof();
    const std::size_t n = std::min(win, buf->size() - rp);
    std::memcpy(w.data(), buf->data() + rp, n);
    rp += n;
    setg(w.data(), w.data(), w.data() + n);
    return traits_type::to_int_type(w[0]);
  }
  std::size_t consumed() const { return rp - static_cast<std::size_t>(egptr() - gptr()); }
  int_type overflow(int_type c) override {
    if (traits_type::eq_int_type(c, traits_type::eof())) return 0;
    if (buf->size() >= cap) return traits_type::eof();
    buf->push_back(static_cast<u8>(c));
    return c;
  }
};

#ifndef HV_KINDS
#define HV_KINDS 1
#endif

template <typename T> inline const char type_key = 0;

template <typename T> struct ObjT final : Obj {
  T v{};
  void put(const std::vector<u64>& t) override { TIn in{t.data()}; hv::put(v, in); }
  void put_field(std::size_t i, const std::vector<u64>& t) override { TIn in{t.data()}; Glue<T>::put_field(v, i, in); }
  std::vector<u64> take() const override { TOut o; hv::take(v, o); return std::move(o.v); }
  std::unique_ptr<Obj> clone() const override { auto p = std::make_unique<ObjT>(); p->v = v; return p; }
  const void* type() const override { return &type_key<T>; }
  void assign_from(const Obj& o) override { v = static_cast<const ObjT&>(o).v; }
};

template <typename T, bool be, typename S> constexpr auto do_read(S& s) {
  if constexpr (be) return s2s::struct_cast_be<T>(s);
  else return s2s::struct_cast_le<T>(s);
}
template <typename T, bool be, typename S> constexpr auto do_write(S& s, const T& o) {
  if constexpr (be) return s2s::stream_cast_be<T>(s, o);
  else return s2s::stream_cast_le<T>(s, o);
}

constexpr int reason_code(s2s::error_reason r) {
  switch (r) {
    case s2s::error_reason::buffer_exhaustion: return 0;
    case s2s::error_reason::validation_failure: return 1;
    case s2s::error_reason::type_deduction_failure: return 2;
    case s2s::error_reason::found_contradicting_length: return 3;
    case s2s::error_reason::excessive_length: return 4;
  }
  return 99;
}

template <typename T, bool be, typename S> void read_with(S& s, RRes& r) {
  g_alloc_max = 0;
  auto res = do_read<T, be>(s);
  r.alloc_max = g_alloc_max;
  if (res.has_value()) {
    r.ok = true;
    auto p = std::make_unique<ObjT<T>>();
    p->v = std::move(*res);
    r.obj = std::move(p);
  } else {
    r.reason = reason_code(res.error().failure_reason);
    r.at = std::string(res.error().failed_at);
  }
}

template <typename T, bool be> void read_kind(const Bytes& in, const StreamCfg& cfg, RRes& r) {
  if (cfg.kind == K_MS) {
    Bytes b = in;
    MS s(b);
    s.rp = cfg.start;
    s.partial = cfg.partial;
    s.ok = !cfg.failed;
    read_with<T, be>(s, r);
    r.pos = s.rp; r.after = s.after; r.neg = s.neg; r.ops = s.ops; r.bad = !s.ok;
    if (cfg.failed && r.after) --r.after;
    return;
  }
#if HV_KINDS & 2
  if (cfg.kind == K_SS) {
    std::stringstream s(std::string(reinterpret_cast<const char*>(in.data()), in.size()), std::ios::in | std::ios::out | std::ios::binary);
    s.seekg(static_cast<std::streamoff>(cfg.start));
    if (cfg.failed) s.setstate(std::ios::failbit);
    read_with<T, be>(s, r);
    r.bad = !s;
    if (s) r.pos = static_cast<std::size_t>(s.tellg());
    else r.pos_known = false;
    return;
  }
  if (cfg.kind == K_WIN) {
    Bytes b = in;
    WinBuf wb(b, SIZE_MAX, cfg.win);
    wb.rp = cfg.start;
    std::istream s(&wb);
    if (cfg.failed) s.setstate(std::ios::failbit);
    read_with<T, be>(s, r);
    r.bad = !s;
    if (s) r.pos = wb.consumed();
    else r.pos_known = false;
    if (cfg.failed && wb.consumed() != cfg.start) ++r.after;
    return;
  }
  if (cfg.kind == K_FILE) {
    {
      std::ofstream o(cfg.path, std::ios::binary | std::ios::trunc);
      o.write(reinterpret_cast<const char*>(in.data()), static_cast<std::streamsize>(in.size()));
    }
    std::ifstream s(cfg.path, std::ios::in | std::ios::binary);
    s.seekg(static_cast<std::streamoff>(cfg.start));
    if (cfg.failed) s.setstate(std::ios::failbit);
    read_with<T, be>(s, r);
    r.bad = !s;
    if (s) r.pos = static_cast<std::size_t>(s.tellg());
    else r.pos_known = false;
    return;
  }
#endif
#if HV_KINDS & 4
  if (cfg.kind == K_CS) {
    Bytes b = in;
    CS s(b);
    s.rp = cfg.start;
    s.partial = cfg.partial;
    s.ok = !cfg.failed;
    read_with<T, be>(s, r);
    r.pos = s.rp; r.after = s.after; r.bad = !s.ok;
    if (cfg.failed && r.after) --r.after;
    return;
  }
#endif
  r.threw = true;
  r.what = "harness: stream kind not compiled in";
}

template <typename T, bool be, typename S> void write_with(S& s, const T& o, WRes& r) {
  auto res = do_write<T, be>(s, o);
  if (res.has_value()) r.ok = true;
  else {
    r.reason = reason_code(res.error().failure_reason);
    r.at = std::string(res.error().failed_at);
  }
}

template <typename T, bool be> void write_kind(const T& o, const StreamCfg& cfg, const Bytes& prior, WRes& r) {
  const std::size_t cap = cfg.cap == SIZE_MAX ? SIZE_MAX : cfg.cap + prior.size();
  if (cfg.kind == K_MS) {
    r.out = prior;
    MS s(r.out);
    s.cap = cap; s.partial = cfg.partial;
    s.ok = !cfg.failed;
    write_with<T, be>(s, o, r);
    r.after = s.after; r.ops = s.ops; r.bad = !s.ok;
    if (cfg.failed && r.after) --r.after;
    return;
  }
#if HV_KINDS & 2
  if (cfg.kind == K_SS) {
    std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
    s.write(reinterpret_cast<const char*>(prior.data()), static_cast<std::streamsize>(prior.size()));
    if (cfg.failed) s.setstate(std::ios::failbit);
    write_with<T, be>(s, o, r);
    r.bad = !s;
    const auto str = s.str();
    r.out.assign(str.begin(), str.end());
    return;
  }
  if (cfg.kind == K_WIN) {
    r.out = prior;
    WinBuf wb(r.out, cap, cfg.win);
    std::ostream s(&wb);
    if (cfg.failed) s.setstate(std::ios::failbit);
    write_with<T, be>(s, o, r);
    r.bad = !s;
    return;
  }
  if (cfg.kind == K_FILE) {
    {
      std::fstream s(cfg.path, std::ios::in | std::ios::out | std::ios::binary | std::ios::trunc);
      s.write(reinterpret_cast<const char*>(prior.data()), static_cast<std::streamsize>(prior.size()));
      if (cfg.failed) s.setstate(std::ios::failbit);
      write_with<T, be>(s, o, r);
      r.bad = !s;
    }
    std::ifstream i(cfg.path, std::ios::binary);
    std::string str((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
    r.out.assign(str.begin(), str.end());
    return;
  }
#endif
#if HV_KINDS & 4
  if (cfg.kind == K_CS) {
    r.out = prior;
    CS s(r.out);
    s.cap = cap; s.partial = cfg.partial;
    s.ok = !cfg.failed;
    write_with<T, be>(s, o, r);
    r.after = s.after; r.bad = !s.ok;
    if (cfg.failed && r.after) --r.after;
    return;
  }
#endif
  r.threw = true;
  r.what = "harness: stream kind not compiled in";
}

// What the compiler lets a user do with obj["id"_f]. `assign` is judged on the
// reference handed out: anything but a reference to const can be modified.
template <typename O, typename A>
concept gettable = requires(O& o, A a) { o[a]; };

template <typename O, typename A> constexpr bool modifiable() {
  if constexpr (gettable<O, A>) {
    using R = decltype(std::declval<O&>()[std::declval<A>()]);
    return std::is_lvalue_reference_v<R> && !std::is_const_v<std::remove_reference_t<R>>;
  } else return false;
}

template <typename T, typename A> constexpr Policy policy_of(A) {
  return Policy{gettable<T, A>, gettable<const T, A>, modifiable<T, A>(), modifiable<const T, A>()};
}

#ifndef HV_DEFAULT_CEILING
#define HV_DEFAULT_CEILING (16ul * 1024ul * 1024ul)
#endif

template <typename T, bool has_be, typename S> void session_on(S& s, const std::vector<const Obj*>& objs, const std::vector<bool>& be, Session& out) {
  for (std::size_t i = 0; i < objs.size(); ++i) {
    WRes r;
    const T& v = static_cast<const ObjT<T>&>(*objs[i]).v;
    if constexpr (has_be) { if (be[i]) write_with<T, true>(s, v, r); else write_with<T, false>(s, v, r); }
    else write_with<T, false>(s, v, r);
    out.w.push_back(std::move(r));
  }
  for (std::size_t i = 0; i < objs.size(); ++i) {
    RRes r;
    if constexpr (has_be) { if (be[i]) read_with<T, true>(s, r); else read_with<T, false>(s, r); }
    else read_with<T, false>(s, r);
    out.r.push_back(std::move(r));
    if constexpr (requires { s.rp; }) out.pos.push_back(s.rp);
  }
}

template <typename T, bool has_be> Ops make_ops() {
  Ops o{};
  o.session = +[](int kind, const std::vector<const Obj*>& objs, const std::vector<bool>& be) -> Session {
    Session out;
    try {
#if HV_KINDS & 2
      if (kind == K_SS) {
        std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
        session_on<T, has_be>(s, objs, be, out);
        const auto str = s.str();
        out.wire.assign(str.begin(), str.end());
        return out;
      }
#endif
      MS s(out.wire);
      session_on<T, has_be>(s, objs, be, out);
    } catch (const std::exception& e) {
      RRes r; r.threw = true; r.what = e.what();
      out.r.push_back(std::move(r));
    }
    return out;
  };
  o.has_be = has_be;
  o.make = +[]() -> std::unique_ptr<Obj> { return std::make_unique<ObjT<T>>(); };
  o.read = +[](bool be, const Bytes& in, const StreamCfg& cfg) -> RRes {
    RRes r;
    try {
      if constexpr (has_be) { if (be) { read_kind<T, true>(in, cfg, r); return r; } }
      read_kind<T, false>(in, cfg, r);
    } catch (const std::exception& e) { r.threw = true; r.what = e.what(); }
    return r;
  };
  o.write = +[](bool be, const Obj& ob, const StreamCfg& cfg, const Bytes& prior) -> WRes {
    WRes r;
    const T& v = static_cast<const ObjT<T>&>(ob).v;
    try {
      if constexpr (has_be) { if (be) { write_kind<T, true>(v, cfg, prior, r); return r; } }
      write_kind<T, false>(v, cfg, prior, r);
    } catch (const std::exception& e) { r.threw = true; r.what = e.what(); }
    return r;
  };
  return o;
}

}  // namespace hv

#endif
