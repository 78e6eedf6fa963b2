// What the schema translation units and the checks share. No s2s here.
#ifndef HV_API_HPP
#define HV_API_HPP

#include <cstddef>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

using u8 = unsigned char;
using u16 = unsigned short;
using u32 = unsigned int;
using u64 = unsigned long;
using i8 = signed char;
using i16 = short;
using i32 = int;
using i64 = long;

namespace hv {
using Bytes = std::vector<u8>;

enum Kind_ { K_MS = 0, K_SS = 1, K_CS = 2, K_WIN = 3, K_FILE = 4 };

// ------------------------------------------------------- allocation tracking
inline thread_local std::size_t g_alloc_max = 0;

// ------------------------------------------------ what a stream does meanwhile
// Called by the harness's stream before and after every operation.
inline thread_local void (*g_meanwhile)() = nullptr;

// ------------------------------------------------------------ result records
struct Obj {
  virtual ~Obj() = default;
  virtual void put(const std::vector<u64>& toks) = 0;
  virtual void put_field(std::size_t idx, const std::vector<u64>& toks) = 0;
  virtual std::vector<u64> take() const = 0;
  virtual std::unique_ptr<Obj> clone() const = 0;
  virtual const void* type() const = 0;
  virtual void assign_from(const Obj& o) = 0;
};

struct StreamCfg {
  int kind = K_MS;
  bool partial = false;
  std::size_t cap = SIZE_MAX;
  std::size_t win = 3;
  std::size_t start = 0;  // read position at which the cast starts
  std::string path;       // K_FILE
  bool failed = false;    // the stream has failed before the cast
};

struct RRes {
  bool ok = false, threw = false;
  int reason = -1;
  std::string at, what;
  std::unique_ptr<Obj> obj;
  std::size_t pos = 0;
  bool pos_known = true;
  std::size_t after = 0, neg = 0, ops = 0;
  bool bad = false;       // the stream's state after the cast
  std::size_t alloc_max = 0;
};

struct WRes {
  bool ok = false, threw = false;
  int reason = -1;
  std::string at, what;
  Bytes out;
  std::size_t after = 0, ops = 0;
  bool bad = false;
};

// One stream, several casts back to back: first every write, then every read.
struct Session {
  std::vector<WRes> w;
  std::vector<RRes> r;
  Bytes wire;
  std::vector<std::size_t> pos;  // read position after each read (K_MS)
};

struct Ops {
  Session (*session)(int kind, const std::vector<const Obj*>& objs, const std::vector<bool>& be);
  std::unique_ptr<Obj> (*make)();
  RRes (*read)(bool be, const Bytes& in, const StreamCfg& cfg);
  WRes (*write)(bool be, const Obj& o, const StreamCfg& cfg, const Bytes& prior);
  bool has_be;
};


using Fn = u64 (*)(const u64*);

// One access-policy observation: what the compiler accepts for obj["id"_f].
struct Policy {
  bool get, cget, assign, cassign;
};

struct Sub {
  int rec;       // index into the schema's record table
  Ops ops;
};

struct SchemaReg {
  const char* name;
  const char* desc;            // serialized description, see gen/emit.py
  const Fn* fns;
  const std::size_t* sizes;    // sizeof of every record type, by record index
  Ops ops;
  std::vector<Sub> subs;       // nested record types, where a check needs them
  std::vector<Policy> policy;  // per field of the top record
  std::size_t default_ceiling;
  int pair = -1;               // index of the twin schema, where there is one
};

std::vector<SchemaReg>& registry();
}  // namespace hv

#endif
