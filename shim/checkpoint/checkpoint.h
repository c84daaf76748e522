// Small stand-in for the magistrate (checkpoint) serialization library, which
// is not present in this sandbox. It implements the part of the interface that
// vt uses: sizing/packing/unpacking/footprinting serializers over member
// `serialize(S&)`, free `serialize(S&, T&)`, isByteCopyable types, arithmetic
// and enum types, raw arrays and the standard containers; polymorphic
// serialization; and (de)serialization to buffers and files.
#ifndef VERIF_SHIM_CHECKPOINT_H
#define VERIF_SHIM_CHECKPOINT_H
#include "checkpoint/detector.h"
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <queue>
#include <set>
#include <stack>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace checkpoint {

using SerialByteType = char;
using SerialSizeType = std::size_t;

struct SERIALIZE_CONSTRUCT_TAG {};

struct Serializer_base_tag {};

struct SerializerBase : Serializer_base_tag {
  bool isSizing() const { return false; }
  bool isPacking() const { return false; }
  bool isUnpacking() const { return false; }
  bool isFootprinting() const { return false; }
  template <typename> static constexpr bool hasTraits() { return false; }
};

struct Sizer : SerializerBase {
  bool isSizing() const { return true; }
  std::size_t n = 0;
  void contiguousBytes(void*, std::size_t sz, std::size_t cnt) { n += sz * cnt; }
  template <class T> void skip(T const&) {}
  void addBytes(std::size_t) {}
  template <class T> void countBytes(T const&) {}
  static constexpr int kind = 0;
};
struct Packer : SerializerBase {
  bool isPacking() const { return true; }
  char* cur; char* end;
  Packer(char* b, std::size_t sz) : cur(b), end(b + sz) {}
  void contiguousBytes(void* p, std::size_t sz, std::size_t cnt) {
    if (cur + sz * cnt > end) { std::fprintf(stderr, "checkpoint shim: pack overflow\n"); std::abort(); }
    if (sz * cnt) std::memcpy(cur, p, sz * cnt);
    cur += sz * cnt;
  }
  template <class T> void skip(T const&) {}
  void addBytes(std::size_t) {}
  template <class T> void countBytes(T const&) {}
  static constexpr int kind = 1;
};
struct Unpacker : SerializerBase {
  bool isUnpacking() const { return true; }
  char const* cur; char const* end;
  explicit Unpacker(char const* b) : cur(b), end(nullptr) {}
  Unpacker(char const* b, std::size_t sz) : cur(b), end(b + sz) {}
  void contiguousBytes(void* p, std::size_t sz, std::size_t cnt) {
    if (end && cur + sz * cnt > end) throw std::runtime_error("checkpoint shim: unpack past end");
    if (sz * cnt) std::memcpy(p, cur, sz * cnt);
    cur += sz * cnt;
  }
  template <class T> void skip(T const&) {}
  void addBytes(std::size_t) {}
  template <class T> void countBytes(T const&) {}
  static constexpr int kind = 2;
};
struct Footprinter : SerializerBase {
  bool isFootprinting() const { return true; }
  std::size_t n = 0;
  void contiguousBytes(void*, std::size_t sz, std::size_t cnt) { n += sz * cnt; }
  template <class T> void skip(T const& t) { n += sizeof(t); }
  void addBytes(std::size_t b) { n += b; }
  template <class T> void countBytes(T const& t) { n += sizeof(t); }
  static constexpr int kind = 3;
};

template <typename S> inline constexpr bool is_footprinter_v =
  std::is_same_v<std::remove_cv_t<std::remove_reference_t<S>>, Footprinter>;
template <typename S> using is_footprinter = std::bool_constant<is_footprinter_v<S>>;
template <typename S> inline constexpr bool is_serializer_v =
  std::is_base_of_v<Serializer_base_tag, std::remove_cv_t<std::remove_reference_t<S>>>;

namespace det {
template <class T, class S> using mem_ser_t = decltype(std::declval<T&>().serialize(std::declval<S&>()));
template <class T, class S> using free_ser_t = decltype(serialize(std::declval<S&>(), std::declval<T&>()));
template <class T> using byte_t = typename T::isByteCopyable;
template <class T, class S> struct has_mem : detection::is_detected<mem_ser_t, T, S> {};
template <class T, class S> struct has_free : detection::is_detected<free_ser_t, T, S> {};
template <class T> using byte_copy_tr = detection::is_detected_convertible<std::true_type, byte_t, T>;
template <class T> inline constexpr bool is_byte =
  std::is_arithmetic_v<T> || std::is_enum_v<T> || byte_copy_tr<T>::value;
template <class T> struct is_std : std::false_type {};
}

template <class S, class T> void dispatchOne(S& s, T& t);

template <class S, class T, typename = std::enable_if_t<is_serializer_v<S>>>
inline S& operator|(S& s, T& t) {
  dispatchOne(s, const_cast<std::remove_const_t<T>&>(t));
  return s;
}
template <class S, class T, typename = std::enable_if_t<is_serializer_v<S>>>
inline S& operator<<(S& s, T& t) { return s | t; }

// ------------------------------------------------------------- construction
namespace det {
template <class T> using recon_t = decltype(T::reconstruct(std::declval<void*>()));
template <class T> T* construct(void* mem) {
  if constexpr (std::is_constructible_v<T, SERIALIZE_CONSTRUCT_TAG> && !std::is_aggregate_v<T>) {
    return new (mem) T(SERIALIZE_CONSTRUCT_TAG{});
  } else if constexpr (std::is_default_constructible_v<T>) {
    return new (mem) T();
  } else if constexpr (detection::is_detected<recon_t, T>::value) {
    return &T::reconstruct(mem);
  } else {
    static_assert(std::is_default_constructible_v<T>, "type cannot be reconstructed");
    return nullptr;
  }
}
template <class T> struct Holder {
  alignas(T) char buf[sizeof(T)];
  T* p;
  Holder() { p = construct<T>(buf); }
  ~Holder() { p->~T(); }
  T& operator*() { return *p; }
};
}

// -------------------------------------------------------------- polymorphic
namespace poly {
inline std::size_t hashName(char const* n) {
  std::size_t h = 1469598103934665603ull;
  for (; *n; ++n) { h ^= static_cast<unsigned char>(*n); h *= 1099511628211ull; }
  return h;
}
template <class Root> std::unordered_map<std::size_t, Root* (*)()>& registry() {
  static std::unordered_map<std::size_t, Root* (*)()> r; return r;
}
template <class Root, class T> struct Reg {
  static Root* make() {
    if constexpr (std::is_abstract_v<T>) { return nullptr; }
    else { return static_cast<Root*>(det::construct<T>(::operator new(sizeof(T)))); }
  }
  Reg() { registry<Root>()[hashName(typeid(T).name())] = &make; }
  static Reg inst;
};
template <class Root, class T> Reg<Root, T> Reg<Root, T>::inst;

template <class T> void serAny(void* s, int kind, T& t) {
  switch (kind) {
  case 0: t.serialize(*static_cast<Sizer*>(s)); break;
  case 1: t.serialize(*static_cast<Packer*>(s)); break;
  case 2: t.serialize(*static_cast<Unpacker*>(s)); break;
  case 3: t.serialize(*static_cast<Footprinter*>(s)); break;
  }
}
template <class T> using root_t = typename T::vshim_poly_root_;
template <class T> inline constexpr bool is_poly = detection::is_detected<root_t, T>::value;
}

#define magistrate_virtual_serialize_root()                                    \
  template <class, class> friend struct ::checkpoint::poly::Reg;               \
  template <class V_> using vshim_self_of_ = V_;                               \
  struct vshim_poly_root_ {};                                                  \
  virtual void vshim_ser_(void* s_, int k_) = 0;                               \
  virtual std::size_t vshim_idx_() const = 0;

#define magistrate_virtual_serialize_derived_from(BASE)                        \
  void vshim_ser_(void* s_, int k_) override {                                 \
    ::checkpoint::poly::serAny(s_, k_, *this);                                 \
  }                                                                            \
  std::size_t vshim_idx_() const override {                                    \
    using Self_ = std::remove_cv_t<std::remove_reference_t<decltype(*this)>>;  \
    (void)::checkpoint::poly::Reg<BASE, Self_>::inst;                          \
    return ::checkpoint::poly::hashName(typeid(Self_).name());                 \
  }

#define checkpoint_virtual_serialize_root() magistrate_virtual_serialize_root()
#define checkpoint_virtual_serialize_derived_from(B) magistrate_virtual_serialize_derived_from(B)

// ------------------------------------------------------------- std dispatch
template <class S, class T> struct Std { static constexpr bool value = false; };

template <class S> std::size_t sizeField(S& s, std::size_t n) {
  if constexpr (!is_footprinter_v<S>) s.contiguousBytes(&n, sizeof(n), 1);
  return n;
}

#define VSHIM_STD(PARAMS, TYPE) template <class S, PARAMS> struct Std<S, TYPE>
#define VSHIM_COMMA ,

template <class S, class Ch, class Tr, class A>
struct Std<S, std::basic_string<Ch, Tr, A>> {
  static constexpr bool value = true;
  static void go(S& s, std::basic_string<Ch, Tr, A>& t) {
    auto n = sizeField(s, t.size());
    if (s.isUnpacking()) t.resize(n);
    if (s.isFootprinting()) s.addBytes(sizeof(t) + t.capacity());
    else s.contiguousBytes(t.data(), sizeof(Ch), n);
  }
};
template <class S, class E, class A> struct Std<S, std::vector<E, A>> {
  static constexpr bool value = true;
  static void go(S& s, std::vector<E, A>& t) {
    if constexpr (is_footprinter_v<S>) s.addBytes(sizeof(t));
    auto n = sizeField(s, t.size());
    if constexpr (std::is_same_v<E, bool>) {
      if (s.isUnpacking()) t.resize(n);
      for (std::size_t i = 0; i < n; i++) { bool b = t[i]; s | b; t[i] = b; }
    } else if constexpr (std::is_arithmetic_v<E>) {
      if (s.isUnpacking()) t.resize(n);
      s.contiguousBytes(t.data(), sizeof(E), n);
    } else if constexpr (std::is_same_v<S, Unpacker>) {
      t.clear(); t.reserve(n);
      if constexpr (std::is_copy_constructible_v<E> || std::is_move_constructible_v<E>) {
        for (std::size_t i = 0; i < n; i++) { det::Holder<E> e; s | *e; t.emplace_back(std::move(*e)); }
      } else { t = std::vector<E, A>(n); for (auto& e : t) s | e; }
    } else {
      for (auto& e : t) s | e;
    }
  }
};
#define VSHIM_SEQ(C)                                                           \
template <class S, class E, class A> struct Std<S, C<E, A>> {                  \
  static constexpr bool value = true;                                          \
  static void go(S& s, C<E, A>& t) {                                           \
    if constexpr (is_footprinter_v<S>) s.addBytes(sizeof(t));                  \
    auto n = sizeField(s, t.size());                                           \
    if constexpr (std::is_same_v<S, Unpacker>) {                               \
      t.clear();                                                               \
      for (std::size_t i = 0; i < n; i++) { det::Holder<E> e; s | *e; t.emplace_back(std::move(*e)); } \
    } else { for (auto& e : t) s | e; }                                        \
  }                                                                            \
};
VSHIM_SEQ(std::list)
VSHIM_SEQ(std::deque)
template <class S, class M, class K, class V> struct MapSer {
  static constexpr bool value = true;
  static void go(S& s, M& t) {
    if constexpr (is_footprinter_v<S>) s.addBytes(sizeof(t));
    auto n = sizeField(s, t.size());
    if constexpr (std::is_same_v<S, Unpacker>) {
      t.clear();
      for (std::size_t i = 0; i < n; i++) {
        det::Holder<K> k; det::Holder<V> v; s | *k; s | *v;
        t.emplace(std::move(*k), std::move(*v));
      }
    } else { for (auto& e : t) { s | const_cast<K&>(e.first); s | e.second; } }
  }
};
template <class S, class M, class K> struct SetSer {
  static constexpr bool value = true;
  static void go(S& s, M& t) {
    if constexpr (is_footprinter_v<S>) s.addBytes(sizeof(t));
    auto n = sizeField(s, t.size());
    if constexpr (std::is_same_v<S, Unpacker>) {
      t.clear();
      for (std::size_t i = 0; i < n; i++) { det::Holder<K> k; s | *k; t.emplace(std::move(*k)); }
    } else { for (auto& e : t) s | const_cast<K&>(e); }
  }
};
template <class S, class K, class V, class C, class A>
struct Std<S, std::map<K, V, C, A>> : MapSer<S, std::map<K, V, C, A>, K, V> {};
template <class S, class K, class V, class C, class A>
struct Std<S, std::multimap<K, V, C, A>> : MapSer<S, std::multimap<K, V, C, A>, K, V> {};
template <class S, class K, class V, class H, class Eq, class A>
struct Std<S, std::unordered_map<K, V, H, Eq, A>> : MapSer<S, std::unordered_map<K, V, H, Eq, A>, K, V> {};
template <class S, class K, class V, class H, class Eq, class A>
struct Std<S, std::unordered_multimap<K, V, H, Eq, A>> : MapSer<S, std::unordered_multimap<K, V, H, Eq, A>, K, V> {};
template <class S, class K, class C, class A>
struct Std<S, std::set<K, C, A>> : SetSer<S, std::set<K, C, A>, K> {};
template <class S, class K, class C, class A>
struct Std<S, std::multiset<K, C, A>> : SetSer<S, std::multiset<K, C, A>, K> {};
template <class S, class K, class H, class Eq, class A>
struct Std<S, std::unordered_set<K, H, Eq, A>> : SetSer<S, std::unordered_set<K, H, Eq, A>, K> {};
template <class S, class K, class H, class Eq, class A>
struct Std<S, std::unordered_multiset<K, H, Eq, A>> : SetSer<S, std::unordered_multiset<K, H, Eq, A>, K> {};
template <class S, class A, class B> struct Std<S, std::pair<A, B>> {
  static constexpr bool value = true;
  static void go(S& s, std::pair<A, B>& t) {
    s | const_cast<std::remove_const_t<A>&>(t.first);
    s | const_cast<std::remove_const_t<B>&>(t.second);
  }
};
template <class S, class... E> struct Std<S, std::tuple<E...>> {
  static constexpr bool value = true;
  static void go(S& s, std::tuple<E...>& t) {
    std::apply([&](auto&... e) { (void)((s | const_cast<std::remove_const_t<std::remove_reference_t<decltype(e)>>&>(e)), ..., 0); }, t);
  }
};
template <class S, class E, std::size_t N> struct Std<S, std::array<E, N>> {
  static constexpr bool value = true;
  static void go(S& s, std::array<E, N>& t) { for (auto& e : t) s | e; }
};
template <class S, std::size_t N> struct Std<S, std::bitset<N>> {
  static constexpr bool value = true;
  static void go(S& s, std::bitset<N>& t) { s.contiguousBytes(&t, sizeof(t), 1); }
};
template <class S, class E> struct Std<S, std::atomic<E>> {
  static constexpr bool value = true;
  static void go(S& s, std::atomic<E>& t) { E e = t.load(); s | e; if (s.isUnpacking()) t.store(e); }
};
template <class S, class R, class P> struct Std<S, std::chrono::duration<R, P>> {
  static constexpr bool value = true;
  static void go(S& s, std::chrono::duration<R, P>& t) { R r = t.count(); s | r; t = std::chrono::duration<R, P>(r); }
};
template <class S, class E> struct Std<S, std::optional<E>> {
  static constexpr bool value = true;
  static void go(S& s, std::optional<E>& t) {
    bool has = t.has_value(); s | has;
    if constexpr (std::is_same_v<S, Unpacker>) {
      t.reset();
      if (has) { det::Holder<E> e; s | *e; t.emplace(std::move(*e)); }
    } else if (has) s | *t;
  }
};
template <class S, class... E> struct Std<S, std::variant<E...>> {
  static constexpr bool value = true;
  template <std::size_t I> static void un(S& s, std::variant<E...>& t, std::size_t idx) {
    if constexpr (I < sizeof...(E)) {
      if (idx == I) {
        det::Holder<std::variant_alternative_t<I, std::variant<E...>>> e; s | *e;
        t.template emplace<I>(std::move(*e));
      } else un<I + 1>(s, t, idx);
    }
  }
  static void go(S& s, std::variant<E...>& t) {
    std::size_t idx = t.index(); s | idx;
    if constexpr (std::is_same_v<S, Unpacker>) un<0>(s, t, idx);
    else std::visit([&](auto& e) { s | e; }, t);
  }
};
template <class S> struct Std<S, std::monostate> {
  static constexpr bool value = true;
  static void go(S&, std::monostate&) {}
};
template <class S, class E, class D> struct Std<S, std::unique_ptr<E, D>> {
  static constexpr bool value = true;
  static void go(S& s, std::unique_ptr<E, D>& t) {
    bool null = t == nullptr; s | null;
    if (null) { if constexpr (std::is_same_v<S, Unpacker>) t.reset(); return; }
    if constexpr (poly::is_poly<E>) {
      std::size_t idx = 0;
      if constexpr (!std::is_same_v<S, Unpacker>) idx = t->vshim_idx_();
      if constexpr (!is_footprinter_v<S>) s | idx;
      if constexpr (std::is_same_v<S, Unpacker>) {
        auto it = poly::registry<E>().find(idx);
        if (it == poly::registry<E>().end()) { std::fprintf(stderr, "checkpoint shim: unregistered type\n"); std::abort(); }
        t.reset(it->second());
      }
      t->vshim_ser_(&s, S::kind);
    } else {
      if constexpr (std::is_same_v<S, Unpacker>) t.reset(det::construct<E>(::operator new(sizeof(E))));
      s | *t;
    }
  }
};
template <class S, class E> struct Std<S, std::shared_ptr<E>> {
  static constexpr bool value = true;
  static void go(S& s, std::shared_ptr<E>& t) {
    bool null = t == nullptr; s | null;
    if (null) { if constexpr (std::is_same_v<S, Unpacker>) t.reset(); return; }
    if constexpr (is_footprinter_v<S>) { s.addBytes(sizeof(*t)); }
    else {
      if constexpr (std::is_same_v<S, Unpacker>) t.reset(det::construct<E>(::operator new(sizeof(E))));
      s | *t;
    }
  }
};
template <class S, class T, class C> struct Std<S, std::queue<T, C>> {
  static constexpr bool value = true;
  struct Open : std::queue<T, C> { using std::queue<T, C>::c; };
  static void go(S& s, std::queue<T, C>& t) { s | static_cast<Open&>(t).c; }
};
template <class S, class T, class C> struct Std<S, std::stack<T, C>> {
  static constexpr bool value = true;
  struct Open : std::stack<T, C> { using std::stack<T, C>::c; };
  static void go(S& s, std::stack<T, C>& t) { s | static_cast<Open&>(t).c; }
};
template <class S, class T, class C, class Cmp> struct Std<S, std::priority_queue<T, C, Cmp>> {
  static constexpr bool value = true;
  struct Open : std::priority_queue<T, C, Cmp> { using std::priority_queue<T, C, Cmp>::c; };
  static void go(S& s, std::priority_queue<T, C, Cmp>& t) { s | static_cast<Open&>(t).c; }
};

template <class S, class T> void dispatchOne(S& s, T& t) {
  if constexpr (std::is_array_v<T>) {
    for (auto& e : t) s | e;
  } else if constexpr (Std<S, T>::value) {
    Std<S, T>::go(s, t);
  } else if constexpr (det::has_mem<T, S>::value) {
    t.serialize(s);
  } else if constexpr (det::has_free<T, S>::value) {
    serialize(s, t);
  } else if constexpr (det::is_byte<T>) {
    s.contiguousBytes(&t, sizeof(T), 1);
  } else if constexpr (is_footprinter_v<S>) {
    s.addBytes(sizeof(T));
  } else {
    static_assert(det::is_byte<T>, "checkpoint shim: type is not serializable");
  }
}

// -------------------------------------------------------------------- traits
template <typename T> struct SerializableTraits {
  static constexpr bool has_serialize_function = det::has_mem<T, Sizer>::value;
  static constexpr bool has_serialize_noninstrusive = det::has_free<T, Sizer>::value;
  static constexpr bool is_bytecopyable = det::is_byte<T>;
  static constexpr bool is_serializable =
    has_serialize_function || has_serialize_noninstrusive || is_bytecopyable ||
    Std<Sizer, T>::value || std::is_array_v<T>;
};

template <typename S, typename T>
void reconstructPointedToObjectIfNeeded(S&, T*& t) {
  if constexpr (std::is_same_v<S, Unpacker>) {
    t = det::construct<T>(::operator new(sizeof(T)));
  }
}

// ----------------------------------------------------------------- interface
struct SerializedInfo {
  SerializedInfo(char* b, std::size_t n, bool own) : buf_(b), n_(n), own_(own) {}
  ~SerializedInfo() { if (own_) delete[] buf_; }
  SerializedInfo(SerializedInfo const&) = delete;
  char* getBuffer() const { return buf_; }
  std::size_t getSize() const { return n_; }
private:
  char* buf_; std::size_t n_; bool own_;
};
using SerializedReturnType = SerializedInfo;
using BufferCallbackType = std::function<char*(std::size_t)>;

template <typename T> std::size_t getSize(T& t) { Sizer s; s | t; return s.n; }
template <typename T> std::size_t getMemoryFootprint(T const& t, std::size_t off = 0) {
  Footprinter s; s | const_cast<T&>(t); return s.n + off;
}
template <typename T>
std::unique_ptr<SerializedInfo> serialize(T& t, BufferCallbackType fn = nullptr) {
  auto n = getSize(t);
  char* b = fn ? fn(n) : new char[n ? n : 1];
  Packer p(b, n);
  p | t;
  if (p.cur != p.end) { std::fprintf(stderr, "checkpoint shim: size mismatch\n"); std::abort(); }
  return std::make_unique<SerializedInfo>(b, n, !fn);
}
template <typename T> std::unique_ptr<T> deserialize(char const* b) {
  std::unique_ptr<T> t(det::construct<T>(::operator new(sizeof(T))));
  Unpacker u(b); u | *t; return t;
}
template <typename T> void deserializeInPlace(char const* b, T* t) { Unpacker u(b); u | *t; }

template <typename T> void serializeToFile(T& t, std::string const& file) {
  auto r = serialize<T>(t);
  std::FILE* f = std::fopen(file.c_str(), "wb");
  if (!f) throw std::runtime_error("checkpoint shim: cannot write " + file);
  if (r->getSize()) std::fwrite(r->getBuffer(), 1, r->getSize(), f);
  std::fclose(f);
}
inline std::vector<char> readFile_(std::string const& file) {
  std::FILE* f = std::fopen(file.c_str(), "rb");
  if (!f) throw std::runtime_error("checkpoint shim: cannot read " + file);
  std::vector<char> b; char tmp[4096]; std::size_t k;
  while ((k = std::fread(tmp, 1, sizeof tmp, f)) > 0) b.insert(b.end(), tmp, tmp + k);
  std::fclose(f);
  return b;
}
template <typename T> std::unique_ptr<T> deserializeFromFile(std::string const& file) {
  auto b = readFile_(file);
  std::unique_ptr<T> t(det::construct<T>(::operator new(sizeof(T))));
  Unpacker u(b.data(), b.size()); u | *t; return t;
}
template <typename T> void deserializeInPlaceFromFile(std::string const& file, T* t) {
  auto b = readFile_(file);
  Unpacker u(b.data(), b.size()); u | *t;
}

} // end namespace checkpoint

namespace magistrate = checkpoint;

#endif
