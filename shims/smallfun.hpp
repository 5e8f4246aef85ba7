#pragma once
// Stand-in for 3rdparty/SmallFunction (empty git submodule here): a type-erased
// callable. The inline buffer size only matters for allocation, which no
// property here talks about.
#include <cstddef>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace smallfun
{
enum class Methods { Copy = 1, Move = 2, Both = 3 };
template <typename S, std::size_t N = 64, std::size_t Align = alignof(std::max_align_t), Methods M = Methods::Both>
class function;
template <typename R, typename... A, std::size_t N, std::size_t Al, Methods M>
class function<R(A...), N, Al, M>
{
  struct base { virtual ~base() = default; virtual R call(A...) = 0; virtual base* clone() const = 0; };
  template <typename F>
  struct impl final : base
  {
    F f;
    template <typename G> explicit impl(G&& g) : f(std::forward<G>(g)) { }
    R call(A... a) override { return f(std::forward<A>(a)...); }
    base* clone() const override
    {
      if constexpr (std::is_copy_constructible_v<F>) return new impl(f);
      else return nullptr;
    }
  };
  std::unique_ptr<base> p;
public:
  function() = default;
  function(std::nullptr_t) { }
  function(const function& o) : p(o.p ? o.p->clone() : nullptr) { }
  function(function&& o) noexcept = default;
  function(function& o) : function(static_cast<const function&>(o)) { }
  function& operator=(const function& o) { p.reset(o.p ? o.p->clone() : nullptr); return *this; }
  function& operator=(function&& o) noexcept = default;
  template <typename F, std::enable_if_t<!std::is_same_v<std::decay_t<F>, function>, int> = 0>
  function(F&& f) : p(new impl<std::decay_t<F>>(std::forward<F>(f))) { }
  template <typename F, std::enable_if_t<!std::is_same_v<std::decay_t<F>, function>, int> = 0>
  function& operator=(F&& f) { p.reset(new impl<std::decay_t<F>>(std::forward<F>(f))); return *this; }
  R operator()(A... a) const { return p->call(std::forward<A>(a)...); }
  explicit operator bool() const noexcept { return bool(p); }
  bool allocated() const noexcept { return bool(p); }
  void reset() { p.reset(); }
};
}
