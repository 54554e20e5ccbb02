// Stand-in for pika's sender/receiver library (not installed here).  Senders are run by continuation passing on the
// calling thread: `start(receiver)` calls the receiver once with the values, immediately or -- when an async_rw_mutex
// access is not granted yet -- when it is granted.  Only what the code under verification uses is provided.
// The meaning of every construct is the documented pika/P2300 one; this file is part of the trusted base.
#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#ifndef PIKA_HAVE_STDEXEC
#define PIKA_HAVE_STDEXEC
#endif

namespace pika::execution {
enum class thread_priority { default_, low, normal, high, high_recursive, bound, boost };
enum class thread_stacksize { default_, small_, medium, large, huge, nostack, current, minimal = small_, maximal = huge };
enum class thread_schedule_hint_mode { none, thread, numa };

namespace experimental {
template <class... Ts> struct vc_values {};
template <class S> using vc_decay = std::remove_cv_t<std::remove_reference_t<S>>;

template <class S, class = void> struct vc_is_sender : std::false_type {};
template <class S> struct vc_is_sender<S, std::void_t<typename vc_decay<S>::vc_sig>> : std::true_type {};
template <class S> inline constexpr bool is_sender_v = vc_is_sender<S>::value;
template <class S> struct is_sender : vc_is_sender<S> {};

template <class V> struct vc_tuple_of;
template <class... Vs> struct vc_tuple_of<vc_values<Vs...>> { using type = std::tuple<vc_decay<Vs>...>; };
template <class S> using vc_tuple_t = typename vc_tuple_of<typename vc_decay<S>::vc_sig>::type;

template <class V, template <class...> class T, template <class...> class VA> struct vc_types;
template <class... Vs, template <class...> class T, template <class...> class VA> struct vc_types<vc_values<Vs...>, T, VA> { using type = VA<T<Vs...>>; };
template <class S, class Env, template <class...> class T, template <class...> class VA>
using value_types_of_t = typename vc_types<typename vc_decay<S>::vc_sig, T, VA>::type;

template <class A, class B> struct vc_cat;
template <class... A, class... B> struct vc_cat<vc_values<A...>, vc_values<B...>> { using type = vc_values<A..., B...>; };
template <class... Vs> struct vc_cat_all { using type = vc_values<>; };
template <class V> struct vc_cat_all<V> { using type = V; };
template <class A, class B, class... R> struct vc_cat_all<A, B, R...> { using type = typename vc_cat_all<typename vc_cat<A, B>::type, R...>::type; };

template <class F, class V> struct vc_result;
template <class F, class... Vs> struct vc_result<F, vc_values<Vs...>> { using type = std::invoke_result_t<F, Vs...>; };
template <class R> struct vc_res_values { using type = vc_values<R>; };
template <> struct vc_res_values<void> { using type = vc_values<>; };

// pipeable adaptors
template <class F> struct vc_partial { F f; };
template <class F> vc_partial<F> vc_make_partial(F f) { return {std::move(f)}; }
template <class S, class F, class = std::enable_if_t<is_sender_v<S>>>
auto operator|(S&& s, vc_partial<F> p) { return std::move(p.f)(std::forward<S>(s)); }

// just
template <class... Ts> struct vc_just {
  using vc_sig = vc_values<Ts...>;
  std::tuple<Ts...> v;
  template <class R> void start(R r) { std::apply([&](Ts&... x) { std::move(r)(std::move(x)...); }, v); }
};
template <class... Ts> vc_just<std::decay_t<Ts>...> just(Ts&&... ts) { return {std::tuple<std::decay_t<Ts>...>(std::forward<Ts>(ts)...)}; }

// then
template <class S, class F> struct vc_then {
  using vc_res = typename vc_result<F, typename vc_decay<S>::vc_sig>::type;
  using vc_sig = typename vc_res_values<vc_res>::type;
  S s;
  F f;
  template <class R> struct recv {
    F f;
    R r;
    template <class... Vs> void operator()(Vs&&... vs) {
      if constexpr (std::is_void_v<vc_res>) {
        std::invoke(std::move(f), std::forward<Vs>(vs)...);
        std::move(r)();
      }
      else
        std::move(r)(std::invoke(std::move(f), std::forward<Vs>(vs)...));
    }
  };
  template <class R> void start(R r) { s.start(recv<R>{std::move(f), std::move(r)}); }
};
template <class S, class F, class = std::enable_if_t<is_sender_v<S>>> auto then(S&& s, F&& f) { return vc_then<vc_decay<S>, std::decay_t<F>>{std::forward<S>(s), std::forward<F>(f)}; }
template <class F> auto then(F&& f) { return vc_make_partial([f = std::forward<F>(f)](auto&& s) mutable { return then(std::forward<decltype(s)>(s), std::move(f)); }); }

// let_value
template <class F, class T> struct vc_let_result;
template <class F, class... Vs> struct vc_let_result<F, std::tuple<Vs...>> { using type = std::invoke_result_t<F, Vs&...>; };
template <class S, class F> struct vc_let {
  using tuple = vc_tuple_t<S>;
  using inner = vc_decay<typename vc_let_result<F, tuple>::type>;
  using vc_sig = typename inner::vc_sig;
  S s;
  F f;
  template <class R> struct state {
    F f;
    R r;
    std::optional<tuple> v;
  };
  template <class R> struct recv2 {
    std::unique_ptr<state<R>> st;
    template <class... Vs> void operator()(Vs&&... vs) {
      R r = std::move(st->r);
      std::move(r)(std::forward<Vs>(vs)...);
    }
  };
  template <class R> struct recv {
    F f;
    R r;
    template <class... Vs> void operator()(Vs&&... vs) {
      auto st = std::make_unique<state<R>>(state<R>{std::move(f), std::move(r), std::nullopt});
      st->v.emplace(std::forward<Vs>(vs)...);
      auto* p = st.get();
      inner in = std::apply([&](auto&... x) { return std::invoke(std::move(p->f), x...); }, *p->v);
      in.start(recv2<R>{std::move(st)});
    }
  };
  template <class R> void start(R r) { s.start(recv<R>{std::move(f), std::move(r)}); }
};
template <class S, class F, class = std::enable_if_t<is_sender_v<S>>> auto let_value(S&& s, F&& f) { return vc_let<vc_decay<S>, std::decay_t<F>>{std::forward<S>(s), std::forward<F>(f)}; }
template <class F> auto let_value(F&& f) { return vc_make_partial([f = std::forward<F>(f)](auto&& s) mutable { return let_value(std::forward<decltype(s)>(s), std::move(f)); }); }

// when_all
template <class... Ss> struct vc_all {
  using vc_sig = typename vc_cat_all<typename Ss::vc_sig...>::type;
  std::tuple<Ss...> ss;
  template <class R> struct state {
    R r;
    std::size_t left;
    std::tuple<std::optional<vc_tuple_t<Ss>>...> v;
    void done() {
      if (--left == 0) {
        auto vals = std::apply([](auto&... o) { return std::tuple_cat(std::move(*o)...); }, v);
        (std::get<std::optional<vc_tuple_t<Ss>>*>(std::tuple<std::optional<vc_tuple_t<Ss>>*>(nullptr)), ...);
        std::apply([&](auto&... x) { std::move(r)(std::move(x)...); }, vals);
      }
    }
  };
  template <std::size_t I, class R> struct recv {
    std::shared_ptr<state<R>> st;
    template <class... Vs> void operator()(Vs&&... vs) {
      std::get<I>(st->v).emplace(std::forward<Vs>(vs)...);
      auto p = std::move(st);
      p->done();
    }
  };
  template <class R, std::size_t... I> void go(R&& r, std::index_sequence<I...>) {
    auto st = std::shared_ptr<state<R>>(new state<R>{std::move(r), sizeof...(Ss), {}});
    (std::get<I>(ss).start(recv<I, R>{st}), ...);
  }
  template <class R> void start(R r) {
    if constexpr (sizeof...(Ss) == 0)
      std::move(r)();
    else
      go(std::move(r), std::index_sequence_for<Ss...>{});
  }
};
template <class... Ss> auto when_all(Ss&&... ss) { return vc_all<vc_decay<Ss>...>{std::tuple<vc_decay<Ss>...>(std::forward<Ss>(ss)...)}; }

template <class V> struct vc_vec_sig;
template <> struct vc_vec_sig<vc_values<>> { using type = vc_values<>; using elem = std::tuple<>; };
template <class T> struct vc_vec_sig<vc_values<T>> { using type = vc_values<std::vector<vc_decay<T>>>; using elem = vc_decay<T>; };
template <class S> struct vc_all_vec {
  using vc_sig = typename vc_vec_sig<typename S::vc_sig>::type;
  using elem = typename vc_vec_sig<typename S::vc_sig>::elem;
  std::vector<S> ss;
  template <class R> struct state {
    R r;
    std::size_t left;
    std::vector<std::optional<elem>> v;
    void done() {
      if (--left == 0) {
        if constexpr (std::is_same_v<elem, std::tuple<>>)
          std::move(r)();
        else {
          std::vector<elem> out;
          out.reserve(v.size());
          for (auto& x : v)
            out.push_back(std::move(*x));
          v.clear();
          std::move(r)(std::move(out));
        }
      }
    }
  };
  template <class R> struct recv {
    std::shared_ptr<state<R>> st;
    std::size_t i;
    template <class... Vs> void operator()(Vs&&... vs) {
      if constexpr (sizeof...(Vs) > 0)
        st->v[i].emplace(std::forward<Vs>(vs)...);
      auto p = std::move(st);
      p->done();
    }
  };
  template <class R> void start(R r) {
    const std::size_t n = ss.size();
    auto st = std::shared_ptr<state<R>>(new state<R>{std::move(r), n + 1, {}});
    if constexpr (!std::is_same_v<elem, std::tuple<>>)
      st->v.resize(n);
    for (std::size_t i = 0; i < n; ++i)
      ss[i].start(recv<R>{st, i});
    st->done();
  }
};
template <class S> auto when_all_vector(std::vector<S> ss) { return vc_all_vec<S>{std::move(ss)}; }
inline auto when_all_vector() { return vc_make_partial([](auto&& s) { return let_value(std::forward<decltype(s)>(s), [](auto& v) { return when_all_vector(std::move(v)); }); }); }

// split / ensure_started
struct vc_waiter0 {
  virtual ~vc_waiter0() = default;
  virtual void go() = 0;
};
template <class F> struct vc_waiter : vc_waiter0 {
  F f;
  explicit vc_waiter(F g) : f(std::move(g)) {}
  void go() override { f(); }
};
template <class F> std::unique_ptr<vc_waiter0> vc_make_waiter(F f) { return std::unique_ptr<vc_waiter0>(new vc_waiter<F>(std::move(f))); }

template <class S> struct vc_shared_state {
  std::optional<S> s;
  std::optional<vc_tuple_t<S>> v;
  std::vector<std::unique_ptr<vc_waiter0>> waiters;
};
template <class S> struct vc_shared_recv {
  std::shared_ptr<vc_shared_state<S>> st;
  template <class... Vs> void operator()(Vs&&... vs) {
    auto p = std::move(st);
    p->v.emplace(std::forward<Vs>(vs)...);
    auto w = std::move(p->waiters);
    p->waiters.clear();
    for (auto& x : w)
      x->go();
  }
};
template <class S> void vc_shared_start(std::shared_ptr<vc_shared_state<S>> st) {
  if (st->s) {
    S s = std::move(*st->s);
    st->s.reset();
    s.start(vc_shared_recv<S>{std::move(st)});
  }
}
template <class V> struct vc_cref;
template <class... Vs> struct vc_cref<vc_values<Vs...>> { using type = vc_values<const vc_decay<Vs>&...>; };
template <class V> struct vc_rref;
template <class... Vs> struct vc_rref<vc_values<Vs...>> { using type = vc_values<vc_decay<Vs>...>; };
template <class S> struct vc_split {
  using vc_sig = typename vc_cref<typename S::vc_sig>::type;
  std::shared_ptr<vc_shared_state<S>> st;
  template <class R> void start(R r) {
    auto p = st;
    vc_shared_start(p);
    if (p->v)
      std::apply([&](const auto&... x) { std::move(r)(x...); }, *p->v);
    else {
      auto* q = p.get();
      q->waiters.push_back(vc_make_waiter([q, r = std::move(r)]() mutable { std::apply([&](const auto&... x) { std::move(r)(x...); }, *q->v); }));
    }
  }
};
template <class S, class = std::enable_if_t<is_sender_v<S>>> auto split(S&& s) {
  auto st = std::make_shared<vc_shared_state<vc_decay<S>>>();
  st->s.emplace(std::forward<S>(s));
  return vc_split<vc_decay<S>>{std::move(st)};
}
inline auto split() { return vc_make_partial([](auto&& s) { return split(std::forward<decltype(s)>(s)); }); }

template <class S> struct vc_started {
  using vc_sig = typename vc_rref<typename S::vc_sig>::type;
  std::shared_ptr<vc_shared_state<S>> st;
  vc_started(std::shared_ptr<vc_shared_state<S>> p) : st(std::move(p)) {}
  vc_started(vc_started&&) = default;
  vc_started& operator=(vc_started&&) = default;
  template <class R> void start(R r) {
    auto p = std::move(st);
    if (p->v) {
      auto v = std::move(*p->v);
      p.reset();
      std::apply([&](auto&... x) { std::move(r)(std::move(x)...); }, v);
    }
    else {
      auto* q = p.get();
      q->waiters.push_back(vc_make_waiter([q, r = std::move(r)]() mutable {
        auto v = std::move(*q->v);
        std::apply([&](auto&... x) { std::move(r)(std::move(x)...); }, v);
      }));
    }
  }
};
template <class S, class = std::enable_if_t<is_sender_v<S>>> auto ensure_started(S&& s) {
  auto st = std::make_shared<vc_shared_state<vc_decay<S>>>();
  st->s.emplace(std::forward<S>(s));
  vc_shared_start(st);
  return vc_started<vc_decay<S>>(std::move(st));
}
inline auto ensure_started() { return vc_make_partial([](auto&& s) { return ensure_started(std::forward<decltype(s)>(s)); }); }

// drop_value, drop_operation_state, unpack, bulk
struct vc_drop { template <class... Vs> void operator()(Vs&&...) const {} };
template <class S, class = std::enable_if_t<is_sender_v<S>>> auto drop_value(S&& s) { return then(std::forward<S>(s), vc_drop{}); }
inline auto drop_value() { return vc_make_partial([](auto&& s) { return drop_value(std::forward<decltype(s)>(s)); }); }
template <class S, class = std::enable_if_t<is_sender_v<S>>> vc_decay<S> drop_operation_state(S&& s) { return std::forward<S>(s); }
inline auto drop_operation_state() { return vc_make_partial([](auto&& s) { return drop_operation_state(std::forward<decltype(s)>(s)); }); }

template <class V> struct vc_unpack_sig;
template <class T> struct vc_unpack_sig<vc_values<T>> : vc_unpack_sig<vc_values<vc_decay<T>>> {};
template <class... Ts> struct vc_unpack_sig<vc_values<std::tuple<Ts...>>> { using type = vc_values<Ts...>; };
template <class... Ts> struct vc_unpack_sig<vc_values<std::tuple<Ts...>&>> { using type = vc_values<Ts&...>; };
template <class... Ts> struct vc_unpack_sig<vc_values<const std::tuple<Ts...>&>> { using type = vc_values<const Ts&...>; };
template <class S> struct vc_unpack {
  using vc_sig = typename vc_unpack_sig<typename S::vc_sig>::type;
  S s;
  template <class R> struct recv {
    R r;
    template <class T> void operator()(T&& t) { std::apply(std::move(r), std::forward<T>(t)); }
  };
  template <class R> void start(R r) { s.start(recv<R>{std::move(r)}); }
};
template <class S, class = std::enable_if_t<is_sender_v<S>>> auto unpack(S&& s) { return vc_unpack<vc_decay<S>>{std::forward<S>(s)}; }
inline auto unpack() { return vc_make_partial([](auto&& s) { return unpack(std::forward<decltype(s)>(s)); }); }

template <class S, class N, class F> struct vc_bulk {
  using vc_sig = typename S::vc_sig;
  S s;
  N n;
  F f;
  template <class R> struct recv {
    N n;
    F f;
    R r;
    template <class... Vs> void operator()(Vs&&... vs) {
      for (N i = 0; i < n; ++i)
        f(i, vs...);
      std::move(r)(std::forward<Vs>(vs)...);
    }
  };
  template <class R> void start(R r) { s.start(recv<R>{n, std::move(f), std::move(r)}); }
};
template <class S, class N, class F, class = std::enable_if_t<is_sender_v<S>>> auto bulk(S&& s, N n, F&& f) { return vc_bulk<vc_decay<S>, N, std::decay_t<F>>{std::forward<S>(s), n, std::forward<F>(f)}; }
template <class N, class F, class = std::enable_if_t<std::is_integral_v<N>>> auto bulk(N n, F&& f) { return vc_make_partial([n, f = std::forward<F>(f)](auto&& s) mutable { return bulk(std::forward<decltype(s)>(s), n, std::move(f)); }); }

// split_tuple: a sender of a tuple becomes a tuple of senders
template <class S, std::size_t... I> auto vc_split_tuple(S s, std::index_sequence<I...>) {
  auto sh = split(std::move(s));
  return std::make_tuple(then(sh, [](const auto& t) { return std::move(std::get<I>(const_cast<vc_decay<decltype(t)>&>(t))); })...);
}
template <class S, class = std::enable_if_t<is_sender_v<S>>> auto split_tuple(S&& s) {
  using tup = std::tuple_element_t<0, vc_tuple_t<S>>;
  return vc_split_tuple<vc_decay<S>>(std::forward<S>(s), std::make_index_sequence<std::tuple_size_v<tup>>{});
}
inline auto split_tuple() { return vc_make_partial([](auto&& s) { return split_tuple(std::forward<decltype(s)>(s)); }); }

// schedulers
struct thread_pool_scheduler {
  template <class P> explicit thread_pool_scheduler(P*) {}
  thread_pool_scheduler() = default;
};
template <class Sch> Sch with_priority(Sch s, thread_priority) { return s; }
template <class Sch> Sch with_stacksize(Sch s, thread_stacksize) { return s; }
template <class Sch, class H> Sch with_hint(Sch s, H) { return s; }
template <class Sch> Sch with_annotation(Sch s, const char*) { return s; }
template <class Sch> auto schedule(Sch) { return just(); }
template <class S, class Sch, class = std::enable_if_t<is_sender_v<S>>> vc_decay<S> continues_on(S&& s, Sch) { return std::forward<S>(s); }
template <class Sch, class = std::enable_if_t<!is_sender_v<Sch>>> auto continues_on(Sch) { return vc_make_partial([](auto&& s) -> vc_decay<decltype(s)> { return std::forward<decltype(s)>(s); }); }
template <class S, class Sch, class = std::enable_if_t<is_sender_v<S>>> vc_decay<S> transfer(S&& s, Sch) { return std::forward<S>(s); }
template <class Sch, class = std::enable_if_t<!is_sender_v<Sch>>> auto transfer(Sch s) { return continues_on(s); }
template <class Sch, class... Ts> auto transfer_just(Sch, Ts&&... ts) { return just(std::forward<Ts>(ts)...); }

// start_detached
struct vc_sink { template <class... Vs> void operator()(Vs&&...) {} };
template <class S, class = std::enable_if_t<is_sender_v<S>>> void start_detached(S&& s) {
  vc_decay<S> x(std::forward<S>(s));
  x.start(vc_sink{});
}
inline auto start_detached() { return vc_make_partial([](auto&& s) { start_detached(std::forward<decltype(s)>(s)); }); }

// type-erased senders
template <class... Ts> struct vc_recv0 {
  virtual ~vc_recv0() = default;
  virtual void go(Ts... vs) = 0;
};
template <class R, class... Ts> struct vc_recv1 : vc_recv0<Ts...> {
  R r;
  explicit vc_recv1(R x) : r(std::move(x)) {}
  void go(Ts... vs) override { std::move(r)(std::forward<Ts>(vs)...); }
};
template <class... Ts> struct vc_erased_recv {
  std::unique_ptr<vc_recv0<Ts...>> p;
  template <class... Vs> void operator()(Vs&&... vs) {
    auto q = std::move(p);
    q->go(std::forward<Vs>(vs)...);
  }
};
template <class... Ts> struct vc_send0 {
  virtual ~vc_send0() = default;
  virtual void start(vc_erased_recv<Ts...> r) = 0;
  virtual std::unique_ptr<vc_send0> clone() const = 0;
};
template <class S, bool Copy, class... Ts> struct vc_send1 : vc_send0<Ts...> {
  S s;
  template <class X> explicit vc_send1(int, X&& x) : s(std::forward<X>(x)) {}
  void start(vc_erased_recv<Ts...> r) override { s.start(std::move(r)); }
  std::unique_ptr<vc_send0<Ts...>> clone() const override {
    if constexpr (Copy)
      return std::unique_ptr<vc_send0<Ts...>>(new vc_send1(0, s));
    else
      return nullptr;
  }
};
template <class... Ts> class unique_any_sender {
  std::unique_ptr<vc_send0<Ts...>> p;

public:
  using vc_sig = vc_values<Ts...>;
  unique_any_sender() = default;
  template <class S, class = std::enable_if_t<is_sender_v<S> && !std::is_same_v<vc_decay<S>, unique_any_sender>>>
  unique_any_sender(S&& s) : p(new vc_send1<vc_decay<S>, false, Ts...>(0, std::forward<S>(s))) {}
  unique_any_sender(unique_any_sender&&) = default;
  unique_any_sender& operator=(unique_any_sender&&) = default;
  bool empty() const noexcept { return !p; }
  explicit operator bool() const noexcept { return bool(p); }
  void reset() { p.reset(); }
  template <class R> void start(R r) {
    auto q = std::move(p);
    q->start(vc_erased_recv<Ts...>{std::unique_ptr<vc_recv0<Ts...>>(new vc_recv1<R, Ts...>(std::move(r)))});
  }
};
template <class... Ts> class any_sender {
  std::unique_ptr<vc_send0<Ts...>> p;

public:
  using vc_sig = vc_values<Ts...>;
  any_sender() = default;
  template <class S, class = std::enable_if_t<is_sender_v<S> && !std::is_same_v<vc_decay<S>, any_sender>>>
  any_sender(S&& s) : p(new vc_send1<vc_decay<S>, true, Ts...>(0, std::forward<S>(s))) {}
  any_sender(any_sender&&) = default;
  any_sender& operator=(any_sender&&) = default;
  any_sender(const any_sender& o) : p(o.p ? o.p->clone() : nullptr) {}
  any_sender& operator=(const any_sender& o) {
    p = o.p ? o.p->clone() : nullptr;
    return *this;
  }
  bool empty() const noexcept { return !p; }
  explicit operator bool() const noexcept { return bool(p); }
  void reset() { p.reset(); }
  template <class R> void start(R r) {
    auto q = std::move(p);
    q->start(vc_erased_recv<Ts...>{std::unique_ptr<vc_recv0<Ts...>>(new vc_recv1<R, Ts...>(std::move(r)))});
  }
};
template <class V> struct vc_any_of;
template <class... Vs> struct vc_any_of<vc_values<Vs...>> {
  using unique = unique_any_sender<vc_decay<Vs>...>;
  using any = any_sender<vc_decay<Vs>...>;
};
template <class S> auto make_unique_any_sender(S&& s) { return typename vc_any_of<typename vc_decay<S>::vc_sig>::unique(std::forward<S>(s)); }
template <class S> auto make_any_sender(S&& s) { return typename vc_any_of<typename vc_decay<S>::vc_sig>::any(std::forward<S>(s)); }
}  // namespace experimental
}  // namespace pika::execution

extern "C" void vc_unreachable(const char* id);
namespace pika::this_thread::experimental {
namespace vcx = pika::execution::experimental;
// what other threads do while this one waits: lets something happen, and says if something did
inline bool (*vc_progress)() = nullptr;
template <class T> struct vc_sync_result;
template <> struct vc_sync_result<std::tuple<>> { static void get(std::optional<std::tuple<>>&) {} };
template <class T> struct vc_sync_result<std::tuple<T>> { static T get(std::optional<std::tuple<T>>& o) { return std::move(std::get<0>(*o)); } };
template <class S> auto sync_wait(S&& s) {
  using T = vcx::vc_tuple_t<S>;
  auto st = std::make_shared<std::optional<T>>();
  vcx::vc_decay<S> x(std::forward<S>(s));
  x.start([st](auto&&... vs) { st->emplace(std::forward<decltype(vs)>(vs)...); });
  while (!*st && vc_progress && vc_progress()) {}
  if (!*st)
    vc_unreachable("sync_wait on a sender that can never complete (deadlock)");
  return vc_sync_result<T>::get(*st);
}
inline auto sync_wait() { return vcx::vc_make_partial([](auto&& s) { return sync_wait(std::forward<decltype(s)>(s)); }); }
}
