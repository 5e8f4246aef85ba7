#pragma once
// Stand-in for 3rdparty/nano-signal-slot (empty git submodule here).
// Only the API used by libossia, with its documented semantics: slots are
// called in connection order; disconnecting is by (object, function) pair;
// a slot may be disconnected during emission.
#include <cstddef>
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
#include <vector>
namespace Nano
{
class Observer
{
public:
  struct token { };
  std::shared_ptr<token> nano_token{std::make_shared<token>()};
  Observer() = default;
  Observer(const Observer&) { }
  Observer& operator=(const Observer&) { return *this; }
  ~Observer() = default;
};

template <typename T>
class Signal;

template <typename R, typename... A>
class Signal<R(A...)>
{
  struct slot
  {
    const void* obj{};
    const void* fun{}; // identity of the function (one tag per template arg)
    std::function<R(A...)> call;
    bool tracked{};
    std::weak_ptr<Observer::token> alive;
    bool dead{};
  };
  std::vector<std::shared_ptr<slot>> m_slots;

  template <auto F>
  static const void* tag()
  {
    static const char t{};
    return &t;
  }
  template <typename T>
  static void track(slot& s, T* t)
  {
    if constexpr (std::is_base_of_v<Observer, std::remove_const_t<T>>)
    {
      s.tracked = true;
      s.alive = static_cast<const Observer*>(t)->nano_token;
    }
  }
  void add(std::shared_ptr<slot> s) { m_slots.push_back(std::move(s)); }
  void del(const void* o, const void* f)
  {
    for (std::size_t i = 0; i < m_slots.size();)
      if (m_slots[i]->obj == o && m_slots[i]->fun == f)
      {
        m_slots[i]->dead = true;
        m_slots.erase(m_slots.begin() + i);
      }
      else
        i++;
  }

public:
  Signal() = default;
  Signal(const Signal&) = delete;
  Signal& operator=(const Signal&) = delete;

  // pointer to member
  template <auto F, typename T>
  void connect(T* t)
  {
    auto s = std::make_shared<slot>();
    s->obj = t;
    s->fun = tag<F>();
    s->call = [t](A... a) -> R { return (t->*F)(std::forward<A>(a)...); };
    track(*s, t);
    add(std::move(s));
  }
  template <auto F, typename T>
  void connect(T& t)
  {
    if constexpr (std::is_pointer_v<T>)
      connect<F>(static_cast<T>(t));
    else if constexpr (std::is_member_function_pointer_v<decltype(F)>)
      connect<F>(std::addressof(t));
    else
      connect_free<F>(t);
  }
  // free function
  template <auto F>
  void connect()
  {
    auto s = std::make_shared<slot>();
    s->fun = tag<F>();
    s->call = [](A... a) -> R { return F(std::forward<A>(a)...); };
    add(std::move(s));
  }
  // functor, owned by the caller (lvalue) or by the signal (rvalue)
  template <typename L, std::enable_if_t<!std::is_pointer_v<std::remove_reference_t<L>>, int> = 0>
  void connect(L&& l)
  {
    auto s = std::make_shared<slot>();
    if constexpr (std::is_lvalue_reference_v<L>)
    {
      s->obj = std::addressof(l);
      auto* p = std::addressof(l);
      s->call = [p](A... a) -> R { return (*p)(std::forward<A>(a)...); };
    }
    else
      s->call = std::function<R(A...)>(std::move(l));
    add(std::move(s));
  }
  template <typename L>
  void connect(L* l)
  {
    auto s = std::make_shared<slot>();
    s->obj = l;
    s->call = [l](A... a) -> R { return (*l)(std::forward<A>(a)...); };
    track(*s, l);
    add(std::move(s));
  }

  template <auto F, typename T>
  void disconnect(T* t) { del(t, tag<F>()); }
  template <auto F, typename T>
  void disconnect(T& t)
  {
    if constexpr (std::is_pointer_v<T>)
      del(t, tag<F>());
    else
      del(std::addressof(t), tag<F>());
  }
  template <auto F>
  void disconnect() { del(nullptr, tag<F>()); }
  template <typename L>
  void disconnect(L* l) { del(l, nullptr); }
  template <typename L>
  void disconnect(L& l) { del(std::addressof(l), nullptr); }
  void disconnect_all() { for (auto& s : m_slots) s->dead = true; m_slots.clear(); }
  void removeAll() { disconnect_all(); }
  bool empty() const noexcept { return m_slots.empty(); }
  bool is_empty() const noexcept { return m_slots.empty(); }

  template <typename... U>
  void operator()(U&&... u) const
  {
    const auto copy = m_slots;
    for (auto& s : copy)
      if (!s->dead && (!s->tracked || !s->alive.expired()))
        s->call(static_cast<A>(u)...);
  }
  template <typename... U>
  void fire(U&&... u) const { (*this)(std::forward<U>(u)...); }
  template <typename... U>
  void emit(U&&... u) const { (*this)(std::forward<U>(u)...); }
};
}
