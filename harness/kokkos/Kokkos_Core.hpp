// A stand-in for the parts of Kokkos that the library's Kokkos support uses: views with
// their extents, strides, labels, shared allocations and memory spaces, on the host only.
// Written from Kokkos' documentation; the library's own Kokkos unit tests compile and pass
// against it. `DevSpace` is memory the host must not touch: its pages are inaccessible
// except inside deep_copy (and `Standin::Open`).
#pragma once
#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <type_traits>
#include <utility>

#ifndef KOKKOS_VERSION
#define KOKKOS_VERSION 40300
#endif
#define KOKKOS_VERSION_LESS(a, b, c) (KOKKOS_VERSION < ((a) * 10000 + (b) * 100 + (c)))
#define KOKKOS_VERSION_GREATER_EQUAL(a, b, c) (!KOKKOS_VERSION_LESS(a, b, c))
#define KOKKOS_LAMBDA [=]
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FUNCTION
#define KOKKOS_IMPL_CTOR_DEFAULT_ARG (~std::size_t(0))
#define KOKKOS_INVALID_INDEX (~std::size_t(0))

namespace Kokkos {

static constexpr int ARRAY_LAYOUT_MAX_RANK = 8;

inline void initialize() {}
inline void initialize(int&, char**) {}
inline void finalize() {}
inline void fence() {}
inline void fence(std::string const&) {}

// ------------------------------------------------------------------ layouts
struct LayoutLeft {
  using array_layout = LayoutLeft;
  std::size_t dimension[ARRAY_LAYOUT_MAX_RANK];
  LayoutLeft(LayoutLeft const&) = default;
  LayoutLeft& operator=(LayoutLeft const&) = default;
  explicit constexpr LayoutLeft(
    std::size_t a = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t b = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t c = KOKKOS_IMPL_CTOR_DEFAULT_ARG,
    std::size_t d = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t e = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t f = KOKKOS_IMPL_CTOR_DEFAULT_ARG,
    std::size_t g = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t h = KOKKOS_IMPL_CTOR_DEFAULT_ARG)
    : dimension{a, b, c, d, e, f, g, h} {}
};
struct LayoutRight {
  using array_layout = LayoutRight;
  std::size_t dimension[ARRAY_LAYOUT_MAX_RANK];
  LayoutRight(LayoutRight const&) = default;
  LayoutRight& operator=(LayoutRight const&) = default;
  explicit constexpr LayoutRight(
    std::size_t a = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t b = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t c = KOKKOS_IMPL_CTOR_DEFAULT_ARG,
    std::size_t d = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t e = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t f = KOKKOS_IMPL_CTOR_DEFAULT_ARG,
    std::size_t g = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t h = KOKKOS_IMPL_CTOR_DEFAULT_ARG)
    : dimension{a, b, c, d, e, f, g, h} {}
};
struct LayoutStride {
  using array_layout = LayoutStride;
  std::size_t dimension[ARRAY_LAYOUT_MAX_RANK];
  std::size_t stride[ARRAY_LAYOUT_MAX_RANK];
  LayoutStride(LayoutStride const&) = default;
  LayoutStride& operator=(LayoutStride const&) = default;
  explicit constexpr LayoutStride(
    std::size_t a = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t as = 0, std::size_t b = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t bs = 0,
    std::size_t c = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t cs = 0, std::size_t d = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t ds = 0,
    std::size_t e = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t es = 0, std::size_t f = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t fs = 0,
    std::size_t g = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t gs = 0, std::size_t h = KOKKOS_IMPL_CTOR_DEFAULT_ARG, std::size_t hs = 0)
    : dimension{a, b, c, d, e, f, g, h}, stride{as, bs, cs, ds, es, fs, gs, hs} {}
};
template <typename T> struct is_array_layout : std::false_type {};
template <> struct is_array_layout<LayoutLeft> : std::true_type {};
template <> struct is_array_layout<LayoutRight> : std::true_type {};
template <> struct is_array_layout<LayoutStride> : std::true_type {};

// ------------------------------------------------------- spaces and traits
struct HostSpace;
struct DevSpace;
struct Serial { using memory_space = HostSpace; using execution_space = Serial; void fence() const {} void fence(std::string const&) const {} };
struct DevExec { using memory_space = DevSpace; using execution_space = DevExec; void fence() const {} void fence(std::string const&) const {} };
template <typename E, typename M> struct Device { using execution_space = E; using memory_space = M; using device_type = Device; };
struct HostSpace { using memory_space = HostSpace; using execution_space = Serial; using device_type = Device<Serial, HostSpace>; };
struct DevSpace { using memory_space = DevSpace; using execution_space = DevExec; using device_type = Device<DevExec, DevSpace>; };
using DefaultExecutionSpace = Serial;
using DefaultHostExecutionSpace = Serial;

enum MemoryTraitsFlags { Unmanaged = 0x01, RandomAccess = 0x02, Atomic = 0x04, Restrict = 0x08, Aligned = 0x10 };
template <unsigned F> struct MemoryTraits {
  static constexpr bool is_unmanaged = F & Unmanaged, is_random_access = F & RandomAccess, is_atomic = F & Atomic;
};
using MemoryManaged = MemoryTraits<0>;
using MemoryUnmanaged = MemoryTraits<Unmanaged>;
struct WithoutInitializing_t {};
static constexpr WithoutInitializing_t WithoutInitializing{};
struct ALL_t {};
static constexpr ALL_t ALL{};

template <typename T> struct is_space_arg : std::false_type {};
template <> struct is_space_arg<HostSpace> : std::true_type {};
template <> struct is_space_arg<DevSpace> : std::true_type {};
template <> struct is_space_arg<Serial> : std::true_type {};
template <> struct is_space_arg<DevExec> : std::true_type {};
template <typename E, typename M> struct is_space_arg<Device<E, M>> : std::true_type {};
template <typename T> struct is_traits_arg : std::false_type {};
template <unsigned F> struct is_traits_arg<MemoryTraits<F>> : std::true_type {};

namespace Standin {
template <template <typename> class P, typename Def, typename... A> struct Pick { using type = Def; };
template <template <typename> class P, typename Def, typename A, typename... R>
struct Pick<P, Def, A, R...> { using type = std::conditional_t<P<A>::value, A, typename Pick<P, Def, R...>::type>; };

// Memory of DevSpace: the pages cannot be touched unless opened.
struct Region { void* base; std::size_t bytes; };
inline std::set<std::pair<void*, std::size_t>>& regions() { static auto* r = new std::set<std::pair<void*, std::size_t>>; return *r; }
inline int& openCount() { static int n = 0; return n; }
inline void protect(int prot) { for (auto& r : regions()) mprotect(r.first, r.second, prot); }
struct Open {       // while one of these lives, the host may touch DevSpace
  Open() { if (openCount()++ == 0) protect(PROT_READ | PROT_WRITE); }
  ~Open() { if (--openCount() == 0) protect(PROT_NONE); }
  Open(Open const&) = delete;
};
inline long& allocations() { static long n = 0; return n; }      // live ones
// Every element a fresh allocation holds is initialized to the type's default.
template <typename T> struct Allocation {
  std::string label; T* data; std::size_t n; bool dev; void* raw; std::size_t bytes;
  Allocation(std::string const& l, std::size_t n_, bool dev_, bool init) : label(l), data(nullptr), n(n_), dev(dev_), raw(nullptr), bytes(0) {
    std::size_t want = (n ? n : 1) * sizeof(T);
    allocations()++;
    if (dev) {
      bytes = (want + 4095) / 4096 * 4096;
      raw = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (raw == MAP_FAILED) throw std::bad_alloc();
      regions().insert({raw, bytes});
    } else raw = ::operator new(want, std::align_val_t(alignof(T) < 64 ? 64 : alignof(T)));
    data = static_cast<T*>(raw);
    if constexpr (std::is_trivially_copyable_v<T>) {
      if (init) { for (std::size_t i = 0; i < n; i++) new (data + i) T(); }
      else std::memset(raw, 0xA5, n * sizeof(T));          // WithoutInitializing: anything
    } else for (std::size_t i = 0; i < n; i++) new (data + i) T();
    if (dev && openCount() == 0) mprotect(raw, bytes, PROT_NONE);
  }
  ~Allocation() {
    allocations()--;
    if (dev) {
      mprotect(raw, bytes, PROT_READ | PROT_WRITE);
      for (std::size_t i = 0; i < n; i++) data[i].~T();
      regions().erase({raw, bytes}); munmap(raw, bytes);
    } else {
      for (std::size_t i = 0; i < n; i++) data[i].~T();
      ::operator delete(raw, std::align_val_t(alignof(T) < 64 ? 64 : alignof(T)));
    }
  }
  Allocation(Allocation const&) = delete;
};
[[noreturn]] inline void fail(char const* what) { throw std::runtime_error(std::string("Kokkos stand-in: ") + what); }

template <typename T> struct AtomicElement {
  T* p;
  using const_value_type = std::add_const_t<T>;
  using non_const_value_type = std::remove_const_t<T>;
  explicit AtomicElement(T* q) : p(q) {}
  const_value_type operator=(const_value_type& v) const { *p = v; return v; }
  operator const_value_type() const { return *p; }
};

// The data type int**[2][3]: value type, dynamic and static extents
template <typename T> struct DT {
  using value = T; static constexpr std::size_t dyn = 0, rank = 0;
  using nonconst = std::remove_const_t<T>; using constt = std::add_const_t<T>;
  static constexpr std::size_t stat(std::size_t) { return 0; }
};
template <typename T> struct DT<T*> {
  using value = typename DT<T>::value; static constexpr std::size_t dyn = DT<T>::dyn + 1, rank = DT<T>::rank + 1;
  using nonconst = typename DT<T>::nonconst*; using constt = typename DT<T>::constt*;
  static constexpr std::size_t stat(std::size_t) { return 0; }
};
template <typename T, std::size_t N> struct DT<T[N]> {
  using value = typename DT<T>::value; static constexpr std::size_t dyn = DT<T>::dyn, rank = DT<T>::rank + 1;
  using nonconst = typename DT<T>::nonconst[N]; using constt = typename DT<T>::constt[N];
  static constexpr std::size_t stat(std::size_t k) { return k == 0 ? N : DT<T>::stat(k - 1); }   // k: position after the dynamic ones
};

// extents and strides of up to eight dimensions
struct Map {
  std::size_t rank = 0;
  std::size_t ext[8] = {1, 1, 1, 1, 1, 1, 1, 1};
  std::size_t str[8] = {0, 0, 0, 0, 0, 0, 0, 0};
  std::size_t size() const { std::size_t n = 1; for (std::size_t i = 0; i < rank; i++) n *= ext[i]; return n; }
  std::size_t span() const {
    std::size_t m = 0; if (size() == 0) return 0;
    for (std::size_t i = 0; i < rank; i++) { m += (ext[i] - 1) * str[i]; }
    return m + 1;
  }
  void fill(LayoutRight const*) { std::size_t s = 1; for (std::size_t i = rank; i-- > 0;) { str[i] = s; s *= ext[i]; } }
  void fill(LayoutLeft const*) { std::size_t s = 1; for (std::size_t i = 0; i < rank; i++) { str[i] = s; s *= ext[i]; } }
  void fill(LayoutStride const* l) { for (std::size_t i = 0; i < rank; i++) str[i] = l ? l->stride[i] : 0; }
  template <typename L> L layout(std::size_t valid) const {
    L l;
    for (int i = 0; i < 8; i++) {
      l.dimension[i] = std::size_t(i) < valid ? ext[i] : KOKKOS_IMPL_CTOR_DEFAULT_ARG;
      if constexpr (std::is_same_v<L, LayoutStride>) l.stride[i] = std::size_t(i) < valid ? str[i] : KOKKOS_IMPL_CTOR_DEFAULT_ARG;
    }
    return l;
  }
  std::size_t at(std::size_t const* idx, std::size_t n) const {
    if (n != rank) fail("wrong number of indices");
    std::size_t o = 0;
    for (std::size_t i = 0; i < rank; i++) { if (idx[i] >= ext[i]) fail("index out of bounds"); o += idx[i] * str[i]; }
    return o;
  }
};
template <typename A> struct LabelProp { std::string label; bool init; };
} // namespace Standin

inline Standin::LabelProp<void> view_alloc(std::string const& l) { return {l, true}; }
inline Standin::LabelProp<void> view_alloc(std::string const& l, WithoutInitializing_t) { return {l, false}; }
inline Standin::LabelProp<void> view_alloc(WithoutInitializing_t, std::string const& l) { return {l, false}; }

template <typename DataType, typename... P> struct ViewTraits {
  using data_type = DataType;
  using non_const_data_type = typename Standin::DT<DataType>::nonconst;
  using const_data_type = typename Standin::DT<DataType>::constt;
  using value_type = typename Standin::DT<DataType>::value;
  using const_value_type = std::add_const_t<value_type>;
  using non_const_value_type = std::remove_const_t<value_type>;
  using space_arg = typename Standin::Pick<is_space_arg, HostSpace, P...>::type;
  using memory_space = typename space_arg::memory_space;
  using execution_space = typename space_arg::execution_space;
  using device_type = Device<execution_space, memory_space>;
  using array_layout = typename Standin::Pick<is_array_layout, std::conditional_t<std::is_same_v<memory_space, DevSpace>, LayoutLeft, LayoutRight>, P...>::type;
  using memory_traits = typename Standin::Pick<is_traits_arg, MemoryManaged, P...>::type;
  static constexpr bool is_managed = !memory_traits::is_unmanaged;
  static constexpr bool is_dev = std::is_same_v<memory_space, DevSpace>;
  using size_type = std::size_t;
};

template <typename DataType, typename... P>
struct View : ViewTraits<DataType, P...> {
  using traits = ViewTraits<DataType, P...>;
  using typename traits::array_layout; using typename traits::value_type; using typename traits::size_type; using typename traits::memory_space;
  using typename traits::non_const_value_type; using typename traits::non_const_data_type;
  using DTT = Standin::DT<DataType>;
  static constexpr std::integral_constant<std::size_t, DTT::rank> rank{};
  static constexpr std::size_t Rank = DTT::rank;
  using HostMirror = View<non_const_data_type, array_layout, HostSpace>;
  using host_mirror_type = HostMirror;
  using reference_type = std::conditional_t<traits::memory_traits::is_atomic, Standin::AtomicElement<value_type>, value_type&>;
  using pointer_type = value_type*;
  using Track = std::shared_ptr<Standin::Allocation<non_const_value_type>>;

  Track track_;
  value_type* data_ = nullptr;
  Standin::Map map_;

  View() { extents(nullptr, 0); map_.fill(static_cast<array_layout const*>(nullptr)); }
  View(View const&) = default;
  View(View&&) = default;
  View& operator=(View const&) = default;
  View& operator=(View&&) = default;
  template <typename D2, typename... P2, typename = std::enable_if_t<
    std::is_convertible_v<typename View<D2, P2...>::value_type*, value_type*> && View<D2, P2...>::Rank == Rank &&
    std::is_same_v<typename View<D2, P2...>::non_const_value_type, non_const_value_type> &&
    std::is_same_v<typename View<D2, P2...>::memory_space, memory_space> && !std::is_same_v<View<D2, P2...>, View>>>
  View(View<D2, P2...> const& o) : track_(o.track_), data_(o.data_), map_(o.map_) {
    for (std::size_t i = DTT::dyn; i < Rank; i++) if (map_.ext[i] != DTT::stat(i - DTT::dyn)) Standin::fail("static extent mismatch");
    if constexpr (!std::is_same_v<array_layout, LayoutStride>) if (!std::is_same_v<array_layout, typename View<D2, P2...>::array_layout>) {
      Standin::Map m = map_; m.fill(static_cast<array_layout const*>(nullptr));
      for (std::size_t i = 0; i < Rank; i++) if (m.str[i] != map_.str[i]) Standin::fail("layout mismatch");
    }
  }
  explicit View(array_layout const& l) : View(std::string(), l) {}
  View(std::string const& label, array_layout const& l) { alloc(label, l, true); }
  template <typename A> View(Standin::LabelProp<A> const& p, array_layout const& l) { alloc(p.label, l, p.init); }
  template <typename... I, typename = std::enable_if_t<(std::is_integral_v<I> && ...)>>
  explicit View(std::string const& label, I... n) { std::size_t e[9] = {std::size_t(n)...}; allocN(label, e, sizeof...(I), true); }
  template <typename A, typename... I, typename = std::enable_if_t<(std::is_integral_v<I> && ...)>>
  explicit View(Standin::LabelProp<A> const& p, I... n) { std::size_t e[9] = {std::size_t(n)...}; allocN(p.label, e, sizeof...(I), p.init); }
  template <typename Q, typename... I, typename = std::enable_if_t<std::is_same_v<Q, value_type> && !std::is_same_v<Q, char const> && (std::is_integral_v<I> && ...)>>
  explicit View(Q* p, I... n) : data_(p) { std::size_t e[9] = {std::size_t(n)...}; extents(e, sizeof...(I)); map_.fill(static_cast<array_layout const*>(nullptr)); }
  template <typename Q, typename = std::enable_if_t<std::is_same_v<Q, value_type> && !std::is_same_v<Q, char const>>>
  View(Q* p, array_layout const& l) : data_(p) { fromLayout(l); }

  size_type extent(std::size_t i) const { return i < Rank ? map_.ext[i] : 1; }
  int extent_int(std::size_t i) const { return int(extent(i)); }
  size_type stride(std::size_t i) const { return map_.str[i]; }
  template <typename I> void stride(I* s) const { for (std::size_t i = 0; i < Rank; i++) s[i] = I(map_.str[i]); s[Rank] = I(map_.span()); }
  static constexpr size_type static_extent(unsigned i) { return i < DTT::dyn || i >= Rank ? (i < Rank ? 0 : 1) : DTT::stat(i - DTT::dyn); }
  static constexpr std::size_t rank_dynamic = DTT::dyn;
  void assign_data(value_type* p) { track_.reset(); data_ = p; }
  size_type size() const { return map_.size(); }
  size_type span() const { return map_.span(); }
  bool span_is_contiguous() const { return map_.span() == map_.size(); }
  int use_count() const { return int(track_.use_count()); }
  value_type* data() const { return data_; }
  bool is_allocated() const { return data_ != nullptr; }
  std::string label() const { return track_ ? track_->label : std::string(); }
  array_layout layout() const { return map_.template layout<array_layout>(Rank); }
  template <typename... I> reference_type operator()(I... i) const {
    std::size_t idx[sizeof...(I) + 1] = {std::size_t(i)...};
    return ref(map_.at(idx, sizeof...(I)));
  }
  template <typename I> reference_type operator[](I i) const { return (*this)(i); }

private:
  reference_type ref(std::size_t o) const {
    if constexpr (traits::memory_traits::is_atomic) return Standin::AtomicElement<value_type>(data_ + o); else return data_[o];
  }
  void extents(std::size_t const* e, std::size_t n) {
    map_.rank = Rank;
    for (std::size_t i = 0; i < Rank; i++)
      map_.ext[i] = i < DTT::dyn ? (i < n && e[i] != KOKKOS_IMPL_CTOR_DEFAULT_ARG ? e[i] : 0) : DTT::stat(i - DTT::dyn);
  }
  void fromLayout(array_layout const& l) { extents(l.dimension, 8); map_.fill(&l); }
  void alloc(std::string const& label, array_layout const& l, bool init) {
    static_assert(traits::is_managed, "allocating constructor of an unmanaged view");
    fromLayout(l); make(label, init);
  }
  void allocN(std::string const& label, std::size_t const* e, std::size_t n, bool init) {
    if (n != DTT::dyn && n != Rank) Standin::fail("constructor extents do not match the rank");
    extents(e, n); map_.fill(static_cast<array_layout const*>(nullptr)); make(label, init);
  }
  void make(std::string const& label, bool init) {
    track_ = std::make_shared<Standin::Allocation<non_const_value_type>>(label, map_.span(), traits::is_dev, init);
    data_ = track_->data;
  }
};

template <typename T> struct is_view : std::false_type {};
template <typename D, typename... P> struct is_view<View<D, P...>> : std::true_type {};
template <typename T> inline constexpr bool is_view_v = is_view<T>::value;

template <typename D, typename... P> auto create_mirror(View<D, P...> const& v) {
  using V = View<D, P...>; return typename V::HostMirror(v.label(), v.layout());
}
template <typename D, typename... P> auto create_mirror_view(View<D, P...> const& v) {
  using V = View<D, P...>; using M = typename V::HostMirror;
  if constexpr (!V::is_dev && std::is_same_v<typename V::data_type, typename M::data_type>) return M(v);
  else return M(v.label(), v.layout());
}
template <typename D, typename... P> auto create_mirror_view(WithoutInitializing_t, View<D, P...> const& v) {
  using V = View<D, P...>; using M = typename V::HostMirror;
  if constexpr (!V::is_dev && std::is_same_v<typename V::data_type, typename M::data_type>) return M(v);
  else return M(view_alloc(WithoutInitializing, v.label()), v.layout());
}
template <typename S, typename D, typename... P> auto create_mirror(S const&, View<D, P...> const& v) -> std::enable_if_t<is_space_arg<S>::value, decltype(create_mirror(v))> { return create_mirror(v); }
template <typename S, typename D, typename... P> auto create_mirror_view(S const&, View<D, P...> const& v) -> std::enable_if_t<is_space_arg<S>::value, decltype(create_mirror_view(v))> { return create_mirror_view(v); }
template <typename D, typename... P> constexpr unsigned rank(View<D, P...> const&) { return unsigned(View<D, P...>::Rank); }

namespace Standin {
template <typename A, typename B> void copyElements(A const& dst, Map const& md, B const& src, Map const& ms) {
  if (md.rank != ms.rank) fail("deep_copy: ranks differ");
  for (std::size_t i = 0; i < md.rank; i++) if (md.ext[i] != ms.ext[i]) fail("deep_copy: extents differ");
  if (md.size() == 0 || (static_cast<void const*>(dst) == static_cast<void const*>(src))) return;
  if (dst == nullptr || src == nullptr) return;             // as in Kokkos, after the extents were compared
  Open open;
  std::size_t idx[8] = {};
  for (;;) {
    dst[md.at(idx, md.rank)] = src[ms.at(idx, ms.rank)];
    std::size_t d = md.rank;
    while (d > 0) { if (++idx[d - 1] < md.ext[d - 1]) break; idx[--d] = 0; }
    if (d == 0) return;
  }
}
} // namespace Standin

template <typename D, typename... P, typename E, typename... Q>
void deep_copy(View<D, P...> const& dst, View<E, Q...> const& src) {
  static_assert(!std::is_const_v<typename View<D, P...>::value_type>, "deep_copy requires a non-const destination");
  Standin::copyElements(dst.data(), dst.map_, src.data(), src.map_);
}
template <typename S, typename D, typename... P, typename E, typename... Q>
std::enable_if_t<is_space_arg<S>::value> deep_copy(S const&, View<D, P...> const& dst, View<E, Q...> const& src) { deep_copy(dst, src); }
template <typename D, typename... P>
void deep_copy(View<D, P...> const& dst, typename View<D, P...>::non_const_value_type const& v) {
  Standin::Open open;
  Standin::Map m = dst.map_; if (m.size() == 0) return;
  std::size_t idx[8] = {};
  for (;;) {
    dst.data()[m.at(idx, m.rank)] = v;
    std::size_t d = m.rank;
    while (d > 0) { if (++idx[d - 1] < m.ext[d - 1]) break; idx[--d] = 0; }
    if (d == 0) return;
  }
}
template <typename S, typename D, typename... P>
auto create_mirror_view_and_copy(S const&, View<D, P...> const& v) {
  auto m = create_mirror_view(v); if (v.data()) deep_copy(m, v); return m;
}

template <typename N, typename F> void parallel_for(N n, F f) { for (N i = 0; i < n; i++) f(int(i)); }
template <typename N, typename F> void parallel_for(std::string const&, N n, F f) { for (N i = 0; i < n; i++) f(int(i)); }
} // namespace Kokkos

#include <Kokkos_Array.hpp>
#include <Kokkos_Complex.hpp>
#include <Kokkos_Pair.hpp>
