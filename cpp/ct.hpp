// The same cast, judged the same way, in the compiler and at run time.
#ifndef HV_CT_HPP
#define HV_CT_HPP

#include "harness.hpp"

namespace hv::ct {
template <typename T, bool be, typename S>
constexpr bool rd(const u8* in, std::size_t n, bool ok, int reason, std::string_view at, std::size_t lo, std::size_t hi, bool partial,
                  const u64* tk, std::size_t ntk) {
  Bytes b(in, in + n);
  S s(b);
  s.partial = partial;
  auto r = do_read<T, be>(s);
  if (s.after) return false;
  if (r.has_value() != ok) return false;
  if (s.rp < lo || s.rp > hi) return false;
  if (!ok) return reason_code(r.error().failure_reason) == reason && r.error().failed_at == at;
  TOut o;
  take(*r, o);
  if (o.v.size() != ntk) return false;
  for (std::size_t i = 0; i < ntk; ++i) if (o.v[i] != tk[i]) return false;
  return true;
}

template <typename T, bool be, typename S>
constexpr bool wr(const u64* tk, const u8* out, std::size_t nout, bool ok, int reason, int alt, std::string_view at, std::size_t lo,
                  std::size_t cap, bool partial) {
  T v{};
  TIn t{tk};
  Glue<T>::put(v, t);
  Bytes b;
  S s(b);
  s.cap = cap;
  s.partial = partial;
  auto r = do_write<T, be>(s, v);
  if (s.after) return false;
  if (r.has_value() != ok) return false;
  if (!ok) {
    const int c = reason_code(r.error().failure_reason);
    if (c != reason && c != alt) return false;
    if (r.error().failed_at != at) return false;
  }
  if (b.size() < lo || b.size() > nout || b.size() > cap) return false;
  if (ok && b.size() != nout) return false;
  for (std::size_t i = 0; i < b.size(); ++i) if (b[i] != out[i]) return false;
  return true;
}

struct Case { int id; bool (*fn)(); const char* stream; };
}  // namespace hv::ct

#endif
