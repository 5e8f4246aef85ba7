#pragma once
// Stand-in for 3rdparty/variant (eggs.variant, empty git submodule here), on std::variant.
#include <cstddef>
#include <exception>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <variant>
namespace eggs
{
namespace variants
{
template <typename... Ts> class variant;
struct nullvariant_t { explicit constexpr nullvariant_t(int) { } };
inline constexpr nullvariant_t nullvariant{0};
class bad_variant_access : public std::exception
{ public: const char* what() const noexcept override { return "bad_variant_access"; } };
template <typename T> struct in_place_type_t { };
template <std::size_t I> struct in_place_index_t { };
// in_place<T> / in_place<I>: function pointers in eggs, objects here
template <typename T> inline constexpr in_place_type_t<T> in_place{};

namespace detail
{
template <typename T, typename... Ts>
struct index_of { static constexpr std::size_t get() {
  constexpr bool b[] = {std::is_same_v<T, Ts>...};
  for (std::size_t i = 0; i < sizeof...(Ts); i++) if (b[i]) return i;
  return std::size_t(-1); } static constexpr std::size_t value = get(); };
template <typename T, typename V> struct checked_index_of;
template <typename T, typename... Ts>
struct checked_index_of<T, variant<Ts...>> { static constexpr std::size_t count = index_of<T, Ts...>::value; static constexpr std::size_t value = count; };
}
template <std::size_t I, typename V> struct variant_element;
template <std::size_t I, typename... Ts>
struct variant_element<I, variant<Ts...>> { using type = std::variant_alternative_t<I, std::variant<Ts...>>; };
template <std::size_t I, typename V> using variant_element_t = typename variant_element<I, V>::type;
template <typename V> struct variant_size;
template <typename... Ts> struct variant_size<variant<Ts...>> : std::integral_constant<std::size_t, sizeof...(Ts)> { };

template <typename... Ts>
class variant
{
  using V = std::variant<std::monostate, Ts...>;
  V s;
  struct any_conv { };
  // which alternative does U initialise? exact decay match first, else overload resolution.
  template <typename U> struct pick {
    static constexpr std::size_t exact = detail::index_of<std::decay_t<U>, Ts...>::value;
  };
  template <typename U> static constexpr bool is_self = std::is_same_v<std::decay_t<U>, variant>;
  template <typename> struct is_ip : std::false_type { };
  template <typename T> struct is_ip<in_place_type_t<T>> : std::true_type { };
public:
  static constexpr std::size_t npos = std::size_t(-1);
  variant() = default;
  variant(nullvariant_t) { }
  variant(const variant&) = default;
  variant(variant&&) = default;
  variant& operator=(const variant&) = default;
  variant& operator=(variant&&) = default;
  variant& operator=(nullvariant_t) { s.template emplace<0>(); return *this; }
  template <typename U, std::enable_if_t<!is_self<U> && !is_ip<std::decay_t<U>>::value && !std::is_same_v<std::decay_t<U>, nullvariant_t>
     && (pick<U>::exact != npos || std::is_constructible_v<std::variant<Ts...>, U>), int> = 0>
  variant(U&& u) { init(std::forward<U>(u)); }
  template <typename T, typename... A>
  explicit variant(in_place_type_t<T>, A&&... a) : s(std::in_place_type<T>, std::forward<A>(a)...) { }
  template <typename U, std::enable_if_t<!is_self<U> && !std::is_same_v<std::decay_t<U>, nullvariant_t>
     && (pick<U>::exact != npos || std::is_constructible_v<std::variant<Ts...>, U>), int> = 0>
  variant& operator=(U&& u) { init(std::forward<U>(u)); return *this; }
private:
  template <typename U> void init(U&& u)
  {
    if constexpr (pick<U>::exact != npos)
    {
      constexpr auto I = pick<U>::exact + 1;
      if (s.index() == I) std::get<I>(s) = std::forward<U>(u);
      else { std::variant_alternative_t<I, V> tmp(std::forward<U>(u)); s.template emplace<I>(std::move(tmp)); }
    }
    else
    {
      std::variant<Ts...> tmp(std::forward<U>(u));
      std::visit([this](auto&& x) { s.template emplace<std::decay_t<decltype(x)>>(std::move(x)); }, std::move(tmp));
    }
  }
public:
  explicit operator bool() const noexcept { return s.index() != 0 && !s.valueless_by_exception(); }
  std::size_t which() const noexcept { return s.valueless_by_exception() ? npos : s.index() - 1; }
  template <std::size_t I, typename... A> auto& emplace(A&&... a) { return s.template emplace<I + 1>(std::forward<A>(a)...); }
  template <typename T, typename... A> T& emplace(A&&... a) { return s.template emplace<T>(std::forward<A>(a)...); }
  void swap(variant& o) { s.swap(o.s); }
  void* target() noexcept { return const_cast<void*>(static_cast<const variant*>(this)->target()); }
  const void* target() const noexcept
  {
    if (!*this) return nullptr;
    return std::visit([](const auto& x) -> const void* { return std::addressof(x); }, s);
  }
  template <typename T> T* target() noexcept { return std::get_if<T>(&s); }
  template <typename T> const T* target() const noexcept { return std::get_if<T>(&s); }
  const std::type_info& target_type() const noexcept
  {
    if (!*this) return typeid(void);
    return std::visit([](const auto& x) -> const std::type_info& { return typeid(x); }, s);
  }
  V& storage() & { return s; }
  const V& storage() const& { return s; }
  V&& storage() && { return std::move(s); }
  const V& storage() const&& { return s; }
  friend bool operator==(const variant& a, nullvariant_t) { return !a; }
};
template <typename... Ts> void swap(variant<Ts...>& a, variant<Ts...>& b) { a.swap(b); }
template <typename... Ts> bool operator==(const variant<Ts...>& a, const variant<Ts...>& b) { return a.storage() == b.storage(); }
template <typename... Ts> bool operator!=(const variant<Ts...>& a, const variant<Ts...>& b) { return !(a.storage() == b.storage()); }
template <typename... Ts> bool operator<(const variant<Ts...>& a, const variant<Ts...>& b) { return a.storage() < b.storage(); }
template <typename... Ts> bool operator>(const variant<Ts...>& a, const variant<Ts...>& b) { return b < a; }
template <typename... Ts> bool operator<=(const variant<Ts...>& a, const variant<Ts...>& b) { return !(b < a); }
template <typename... Ts> bool operator>=(const variant<Ts...>& a, const variant<Ts...>& b) { return !(a < b); }

template <typename T, typename... Ts, std::enable_if_t<(std::is_same_v<T, Ts> || ...), int> = 0>
bool operator==(const variant<Ts...>& a, const T& b) { auto p = a.template target<T>(); return p && *p == b; }
template <typename T, typename... Ts, std::enable_if_t<(std::is_same_v<T, Ts> || ...), int> = 0>
bool operator!=(const variant<Ts...>& a, const T& b) { return !(a == b); }

namespace detail
{
template <typename V> struct var_traits;
template <typename... Ts> struct var_traits<variant<Ts...>> { static constexpr std::size_t size = sizeof...(Ts); };
template <typename V> using traits = var_traits<std::decay_t<V>>;
template <std::size_t I, typename V>
decltype(auto) at(V&& v) { return std::get<I + 1>(std::forward<V>(v).storage()); }

template <typename R, typename F, typename V, std::size_t... I>
R visit1(F&& f, V&& v, std::index_sequence<I...>)
{
  using fn = R (*)(F&&, V&&);
  static constexpr fn table[] = {+[](F&& ff, V&& vv) -> R { return std::forward<F>(ff)(at<I>(std::forward<V>(vv))); }...};
  return table[v.which()](std::forward<F>(f), std::forward<V>(v));
}
}
template <typename F, typename V>
auto apply(F&& f, V&& v) -> decltype(std::forward<F>(f)(detail::at<0>(std::forward<V>(v))))
{
  using R = decltype(std::forward<F>(f)(detail::at<0>(std::forward<V>(v))));
  if (!v) throw bad_variant_access{};
  return detail::visit1<R>(std::forward<F>(f), std::forward<V>(v), std::make_index_sequence<detail::traits<V>::size>{});
}
template <typename F, typename V, typename W>
auto apply(F&& f, V&& v, W&& w) -> decltype(std::forward<F>(f)(detail::at<0>(std::forward<V>(v)), detail::at<0>(std::forward<W>(w))))
{
  using R = decltype(std::forward<F>(f)(detail::at<0>(std::forward<V>(v)), detail::at<0>(std::forward<W>(w))));
  if (!v || !w) throw bad_variant_access{};
  return apply([&](auto&& x) -> R {
    return apply([&](auto&& y) -> R { return std::forward<F>(f)(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y)); }, std::forward<W>(w));
  }, std::forward<V>(v));
}
template <typename R, typename F, typename V>
R apply(F&& f, V&& v)
{
  if (!v) throw bad_variant_access{};
  return detail::visit1<R>(std::forward<F>(f), std::forward<V>(v), std::make_index_sequence<detail::traits<V>::size>{});
}
template <typename T, typename... Ts> T& get(variant<Ts...>& v) { if (auto p = v.template target<T>()) return *p; throw bad_variant_access{}; }
template <typename T, typename... Ts> const T& get(const variant<Ts...>& v) { if (auto p = v.template target<T>()) return *p; throw bad_variant_access{}; }
template <typename T, typename... Ts> T&& get(variant<Ts...>&& v) { if (auto p = v.template target<T>()) return std::move(*p); throw bad_variant_access{}; }
template <typename T, typename... Ts> T* get_if(variant<Ts...>* v) { return v ? v->template target<T>() : nullptr; }
template <typename T, typename... Ts> const T* get_if(const variant<Ts...>* v) { return v ? v->template target<T>() : nullptr; }
template <typename T, typename... Ts> bool holds_alternative(const variant<Ts...>& v) { return v.template target<T>(); }
}
using variants::variant;
}
