#pragma once
#include <Kokkos_Core.hpp>
#include <vector>
namespace Kokkos {
template <typename T> struct pod_hash { std::uint32_t operator()(T const& t) const { return std::uint32_t(std::hash<T>{}(t) * 2654435761u >> 7); } };
template <typename T> struct pod_equal_to { bool operator()(T const& a, T const& b) const { return a == b; } };
struct UnorderedMapInsertResult {
  bool ok_, existing_; std::uint32_t index_;
  bool success() const { return ok_; } bool existing() const { return existing_; } bool failed() const { return !ok_ && !existing_; } std::uint32_t index() const { return index_; }
};
// A bounded hash table; copies are handles of the same table.
template <typename Key, typename Value, typename Dev = DefaultExecutionSpace, typename Hasher = pod_hash<std::remove_const_t<Key>>, typename EqualTo = pod_equal_to<std::remove_const_t<Key>>>
struct UnorderedMap {
  using size_type = std::uint32_t; using key_type = Key; using value_type = Value;
  static constexpr size_type invalid_index = ~size_type(0);
  struct State { std::vector<Key> keys; std::vector<Value> values; std::vector<char> valid; size_type size = 0; bool failed = false, erasable = false; };
  std::shared_ptr<State> s_;
  Hasher hash_; EqualTo eq_;
  static size_type calculate_capacity(size_type hint) { return hint ? size_type((std::uint64_t(7) * hint / 6 + 127) / 128 * 128) : 128u; }
  explicit UnorderedMap(size_type hint = 0, Hasher h = Hasher(), EqualTo e = EqualTo()) : s_(std::make_shared<State>()), hash_(h), eq_(e) {
    size_type c = calculate_capacity(hint);
    s_->keys.resize(c); s_->values.resize(c); s_->valid.assign(c, 0);
  }
  size_type capacity() const { return size_type(s_->keys.size()); }
  size_type size() const { return s_->size; }
  bool failed_insert() const { return s_->failed; }
  bool empty() const { return size() == 0; }
  Hasher hasher() const { return hash_; }
  EqualTo equal_to() const { return eq_; }
  using HostMirror = UnorderedMap; using const_map_type = UnorderedMap; using insert_result = UnorderedMapInsertResult;
  bool is_allocated() const { return bool(s_); }
  UnorderedMapInsertResult insert(Key const& k, Value const& v = Value()) const {
    size_type i = find(k);
    if (i != invalid_index) return {false, true, i};
    for (size_type n = 0, c = capacity(), at = size_type(hash_(k) % c); n < c; n++, at = (at + 1) % c)
      if (!s_->valid[at]) { s_->valid[at] = 1; s_->keys[at] = k; s_->values[at] = v; s_->size++; return {true, false, at}; }
    s_->failed = true;
    return {false, false, invalid_index};
  }
  size_type find(Key const& k) const { for (size_type i = 0; i < capacity(); i++) if (s_->valid[i] && eq_(s_->keys[i], k)) return i; return invalid_index; }
  bool exists(Key const& k) const { return find(k) != invalid_index; }
  bool valid_at(size_type i) const { return i < capacity() && s_->valid[i]; }
  Key key_at(size_type i) const { return s_->keys[i < capacity() ? i : capacity() - 1]; }
  Value& value_at(size_type i) const { return s_->values[i < capacity() ? i : capacity() - 1]; }
  bool begin_erase() { bool r = !s_->erasable; s_->erasable = true; return r; }
  bool end_erase() { bool r = s_->erasable; s_->erasable = false; return r; }
  bool erase(Key const& k) const {
    size_type i = find(k);
    if (!s_->erasable || i == invalid_index) return false;
    s_->valid[i] = 0; s_->size--; return true;                 // the key stays where it was
  }
  void clear() { auto c = capacity(); s_->keys.assign(c, Key()); s_->values.assign(c, Value()); s_->valid.assign(c, 0); s_->size = 0; s_->failed = false; }
  bool rehash(size_type requested = 0) {
    if (requested < size()) requested = size();
    UnorderedMap t(requested, hash_, eq_);
    for (size_type i = 0; i < capacity(); i++) if (s_->valid[i]) t.insert(s_->keys[i], s_->values[i]);
    *this = t;
    return true;
  }
};
template <typename... A> void deep_copy(UnorderedMap<A...>& dst, UnorderedMap<A...> const& src) { *dst.s_ = *src.s_; }
} // namespace Kokkos
