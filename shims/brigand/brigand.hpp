#pragma once
// Stand-in for 3rdparty/brigand (empty git submodule here): the few meta-functions used.
#include <cstddef>
#include <initializer_list>
#include <type_traits>
#include <utility>
namespace brigand
{
template <typename... T> struct list { };
template <typename T> struct type_ { using type = T; };
template <std::size_t N> struct size_t : std::integral_constant<std::size_t, N> { };
template <int I> struct args { };
struct _1 { }; struct _2 { };
template <template <typename...> class F, typename... A> struct bind { };
namespace detail
{
template <typename L, template <typename...> class W> struct wrap_impl;
template <template <typename...> class L, typename... T, template <typename...> class W>
struct wrap_impl<L<T...>, W> { using type = W<T...>; };
template <typename B, typename T> struct ap;
template <template <typename...> class F, typename T> struct ap<bind<F, _1>, T> { using type = F<T>; };
template <typename L, typename B> struct tr;
template <template <typename...> class L, typename... T, typename B> struct tr<L<T...>, B> { using type = L<typename ap<B, T>::type...>; };
template <std::size_t S, typename I> struct ms;
template <std::size_t S, std::size_t... I> struct ms<S, std::index_sequence<I...>> { using type = list<size_t<S + I>...>; };
template <typename L> struct fe;
template <template <typename...> class L, typename... T> struct fe<L<T...>> { template <typename F> static void run(F& f) { (void)std::initializer_list<int>{(f(type_<T>{}), 0)...}; } };
}
template <typename L, template <typename...> class W> using wrap = typename detail::wrap_impl<L, W>::type;
template <typename L, typename B> using transform = typename detail::tr<L, B>::type;
template <typename S, std::size_t N> using make_sequence = typename detail::ms<S::value, std::make_index_sequence<N>>::type;
template <typename L, typename F> F for_each(F f) { detail::fe<L>::run(f); return f; }
}
