#pragma once
// Stand-in for 3rdparty/flat (jcelerier/flat, "fc" flat containers; empty git
// submodule here): sorted sequence containers with a public `container`.
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <stdexcept>
#include <utility>
#include <vector>
namespace fc
{
struct container_construct_t { };
inline constexpr container_construct_t container_construct{};
namespace detail
{
struct first_of { template <typename P> auto& operator()(P& p) const { return p.first; } template <typename P> const auto& operator()(const P& p) const { return p.first; } };
struct ident { template <typename P> const P& operator()(const P& p) const { return p; } };

template <typename C, typename KeyOf, typename Compare, bool Multi>
class flat_base
{
public:
  using container_type = C;
  using value_type = typename C::value_type;
  using key_type = std::decay_t<decltype(KeyOf{}(std::declval<const value_type&>()))>;
  using iterator = typename C::iterator;
  using const_iterator = typename C::const_iterator;
  using size_type = typename C::size_type;
  using difference_type = std::ptrdiff_t;
  using reference = value_type&;
  using const_reference = const value_type&;
  using key_compare = Compare;
  C container;

  flat_base() = default;
  flat_base(std::initializer_list<value_type> l) { for (auto& v : l) insert(v); }
  flat_base(container_construct_t, C c) : container(std::move(c)) { sort_all(); }
  template <typename It> flat_base(It a, It b) { for (; a != b; ++a) insert(*a); }

  iterator begin() noexcept { return container.begin(); }
  iterator end() noexcept { return container.end(); }
  const_iterator begin() const noexcept { return container.begin(); }
  const_iterator end() const noexcept { return container.end(); }
  const_iterator cbegin() const noexcept { return container.begin(); }
  const_iterator cend() const noexcept { return container.end(); }
  auto rbegin() { return std::make_reverse_iterator(end()); }
  auto rend() { return std::make_reverse_iterator(begin()); }
  auto rbegin() const { return std::make_reverse_iterator(end()); }
  auto rend() const { return std::make_reverse_iterator(begin()); }
  bool empty() const noexcept { return container.begin() == container.end(); }
  size_type size() const noexcept { return container.size(); }
  void clear() { container.clear(); }
  void reserve(size_type n) { container.reserve(n); }
  value_type& front() { return *begin(); }
  value_type& back() { return *std::prev(end()); }
  const value_type& front() const { return *begin(); }
  const value_type& back() const { return *std::prev(end()); }

  template <typename K = key_type> iterator lower_bound(const K& k)
  { return std::lower_bound(begin(), end(), k, [](const value_type& v, const K& kk) { return Compare{}(KeyOf{}(v), kk); }); }
  template <typename K = key_type> const_iterator lower_bound(const K& k) const { return const_cast<flat_base*>(this)->lower_bound(k); }
  template <typename K = key_type> iterator upper_bound(const K& k)
  { return std::upper_bound(begin(), end(), k, [](const K& kk, const value_type& v) { return Compare{}(kk, KeyOf{}(v)); }); }
  template <typename K = key_type> const_iterator upper_bound(const K& k) const { return const_cast<flat_base*>(this)->upper_bound(k); }
  template <typename K> std::pair<iterator, iterator> equal_range(const K& k) { return {lower_bound(k), upper_bound(k)}; }
  template <typename K> std::pair<const_iterator, const_iterator> equal_range(const K& k) const { return {lower_bound(k), upper_bound(k)}; }
  template <typename K = key_type> iterator find(const K& k)
  { auto it = lower_bound(k); return (it != end() && !Compare{}(k, KeyOf{}(*it))) ? it : end(); }
  template <typename K = key_type> const_iterator find(const K& k) const { return const_cast<flat_base*>(this)->find(k); }
  template <typename K> size_type count(const K& k) const { auto r = equal_range(k); return r.second - r.first; }
  template <typename K> bool has(const K& k) const { return find(k) != end(); }
  template <typename K> bool contains(const K& k) const { return find(k) != end(); }

  iterator erase(const_iterator it) { return container.erase(it); }
  iterator erase(iterator it) { return container.erase(it); }
  iterator erase(const_iterator a, const_iterator b) { return container.erase(a, b); }
  size_type erase(const key_type& k)
  { auto r = equal_range(k); size_type n = r.second - r.first; container.erase(r.first, r.second); return n; }

  friend bool operator==(const flat_base& a, const flat_base& b) { return a.container == b.container; }
  friend bool operator!=(const flat_base& a, const flat_base& b) { return !(a.container == b.container); }
  friend bool operator<(const flat_base& a, const flat_base& b) { return a.container < b.container; }

  template <typename V> auto insert_impl(V&& v)
  {
    if constexpr (Multi)
    {
      auto it = upper_bound(KeyOf{}(v));
      return container.insert(it, value_type(std::forward<V>(v)));
    }
    else
    {
      auto it = lower_bound(KeyOf{}(v));
      if (it != end() && !Compare{}(KeyOf{}(v), KeyOf{}(*it)))
        return std::pair<iterator, bool>(it, false);
      it = container.insert(it, value_type(std::forward<V>(v)));
      return std::pair<iterator, bool>(it, true);
    }
  }
  auto insert(const value_type& v) { return insert_impl(v); }
  auto insert(value_type&& v) { return insert_impl(std::move(v)); }
  template <typename V, typename = std::enable_if_t<std::is_constructible_v<value_type, V&&>>>
  iterator insert(const_iterator, V&& v)
  {
    if constexpr (Multi) return insert_impl(value_type(std::forward<V>(v)));
    else return insert_impl(value_type(std::forward<V>(v))).first;
  }
  template <typename It, typename = std::enable_if_t<!std::is_constructible_v<value_type, It>>, typename = decltype(*std::declval<It>()), typename = decltype(++std::declval<It&>())>
  void insert(It a, It b) { for (; a != b; ++a) insert(*a); }
  void insert(std::initializer_list<value_type> l) { for (auto& v : l) insert(v); }
  template <typename... A> auto emplace(A&&... a) { return insert_impl(value_type{std::forward<A>(a)...}); }
protected:
  void sort_all()
  {
    std::stable_sort(begin(), end(), [](const value_type& a, const value_type& b) { return Compare{}(KeyOf{}(a), KeyOf{}(b)); });
    if constexpr (!Multi)
      container.erase(std::unique(begin(), end(), [](const value_type& a, const value_type& b) { return !Compare{}(KeyOf{}(a), KeyOf{}(b)); }), end());
  }
};
}
template <typename C, typename Compare = std::less<void>>
class flat_map : public detail::flat_base<C, detail::first_of, Compare, false>
{
  using base = detail::flat_base<C, detail::first_of, Compare, false>;
public:
  using base::base; using base::insert;
  using mapped_type = decltype(std::declval<typename C::value_type>().second);
  using key_type = typename base::key_type;
  flat_map() = default;
  template <typename K> mapped_type& operator[](K&& k)
  {
    auto it = this->lower_bound(k);
    if (it == this->end() || Compare{}(k, it->first))
      it = this->container.insert(it, typename C::value_type{key_type(std::forward<K>(k)), mapped_type{}});
    return it->second;
  }
  template <typename K> mapped_type& at(const K& k) { auto it = this->find(k); if (it == this->end()) throw std::out_of_range("flat_map"); return it->second; }
  template <typename K> const mapped_type& at(const K& k) const { return const_cast<flat_map*>(this)->at(k); }
  template <typename K, typename V> std::pair<typename base::iterator, bool> insert_or_assign(K&& k, V&& v)
  {
    auto it = this->lower_bound(k);
    if (it != this->end() && !Compare{}(k, it->first)) { it->second = std::forward<V>(v); return {it, false}; }
    it = this->container.insert(it, typename C::value_type{key_type(std::forward<K>(k)), mapped_type(std::forward<V>(v))});
    return {it, true};
  }
  template <typename K, typename... V> std::pair<typename base::iterator, bool> try_emplace(K&& k, V&&... v)
  {
    auto it = this->lower_bound(k);
    if (it != this->end() && !Compare{}(k, it->first)) return {it, false};
    it = this->container.insert(it, typename C::value_type{key_type(std::forward<K>(k)), mapped_type(std::forward<V>(v)...)});
    return {it, true};
  }
};
template <typename C, typename Compare = std::less<void>>
class flat_multimap : public detail::flat_base<C, detail::first_of, Compare, true>
{ using base = detail::flat_base<C, detail::first_of, Compare, true>; public: using base::base; using base::insert; };
template <typename C, typename Compare = std::less<void>>
class flat_set : public detail::flat_base<C, detail::ident, Compare, false>
{ using base = detail::flat_base<C, detail::ident, Compare, false>; public: using base::base; using base::insert; };
template <typename C, typename Compare = std::less<void>>
class flat_multiset : public detail::flat_base<C, detail::ident, Compare, true>
{ using base = detail::flat_base<C, detail::ident, Compare, true>; public: using base::base; using base::insert; };
template <typename K, typename V, typename Compare = std::less<void>> using vector_map = flat_map<std::vector<std::pair<K, V>>, Compare>;
template <typename K, typename V, typename Compare = std::less<void>> using vector_multimap = flat_multimap<std::vector<std::pair<K, V>>, Compare>;
template <typename K, typename Compare = std::less<void>> using vector_set = flat_set<std::vector<K>, Compare>;
template <typename K, typename Compare = std::less<void>> using vector_multiset = flat_multiset<std::vector<K>, Compare>;
}
