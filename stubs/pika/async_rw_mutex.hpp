// Stand-in for pika::execution::experimental::async_rw_mutex: accesses are granted in the order in which read() and
// readwrite() are called; consecutive reads share one access; an access ends when the last sender or wrapper that
// refers to it is destroyed.
#pragma once
#include <pika/execution.hpp>

namespace pika::execution::experimental {
enum class async_rw_mutex_access_type { readwrite, read };

template <class RW> struct vc_rw_state {
  std::shared_ptr<std::optional<RW>> value;
  bool ready = false;
  std::shared_ptr<vc_rw_state> next;
  std::vector<std::unique_ptr<vc_waiter0>> waiters;
  void grant(std::shared_ptr<std::optional<RW>> v) {
    value = std::move(v);
    ready = true;
    auto w = std::move(waiters);
    waiters.clear();
    for (auto& x : w)
      x->go();
  }
  ~vc_rw_state() {
    if (next) {
      auto n = std::move(next);
      n->grant(std::move(value));
    }
  }
};

template <class RW, class RO, async_rw_mutex_access_type at> class async_rw_mutex_access_wrapper;
template <class RW, class RO> class async_rw_mutex_access_wrapper<RW, RO, async_rw_mutex_access_type::readwrite> {
  std::shared_ptr<vc_rw_state<RW>> st;

public:
  explicit async_rw_mutex_access_wrapper(std::shared_ptr<vc_rw_state<RW>> s) : st(std::move(s)) {}
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  RW& get() { return **st->value; }
  operator RW&() & { return get(); }
};
template <class RW, class RO> class async_rw_mutex_access_wrapper<RW, RO, async_rw_mutex_access_type::read> {
  std::shared_ptr<vc_rw_state<RW>> st;

public:
  explicit async_rw_mutex_access_wrapper(std::shared_ptr<vc_rw_state<RW>> s) : st(std::move(s)) {}
  const RO& get() const { return **st->value; }
  operator const RO&() const& { return get(); }
};

template <class RW, class RO, async_rw_mutex_access_type at> struct vc_rw_sender {
  using wrapper = async_rw_mutex_access_wrapper<RW, RO, at>;
  using vc_sig = vc_values<wrapper>;
  std::shared_ptr<vc_rw_state<RW>> st;
  template <class R> void start(R r) {
    auto s = std::move(st);
    if (s->ready)
      std::move(r)(wrapper(std::move(s)));
    else {
      auto* q = s.get();
      q->waiters.push_back(vc_make_waiter([s = std::move(s), r = std::move(r)]() mutable { std::move(r)(wrapper(std::move(s))); }));
    }
  }
};
template <class RW, class RO> struct vc_rw_unique_sender : vc_rw_sender<RW, RO, async_rw_mutex_access_type::readwrite> {
  using base = vc_rw_sender<RW, RO, async_rw_mutex_access_type::readwrite>;
  explicit vc_rw_unique_sender(std::shared_ptr<vc_rw_state<RW>> s) : base{std::move(s)} {}
  vc_rw_unique_sender(vc_rw_unique_sender&&) = default;
  vc_rw_unique_sender& operator=(vc_rw_unique_sender&&) = default;
};

template <class RW, class RO = RW> class async_rw_mutex {
  std::shared_ptr<vc_rw_state<RW>> st;
  bool last_read = false, fresh = true;
  void advance() {
    auto n = std::make_shared<vc_rw_state<RW>>();
    auto p = std::move(st);
    st = n;
    p->next = std::move(n);
  }

public:
  using read_type = const RO;
  using readwrite_type = RW;
  using value_type = RW;
  using read_access_type = async_rw_mutex_access_wrapper<RW, RO, async_rw_mutex_access_type::read>;
  using readwrite_access_type = async_rw_mutex_access_wrapper<RW, RO, async_rw_mutex_access_type::readwrite>;
  template <class U, class = std::enable_if_t<!std::is_same_v<std::decay_t<U>, async_rw_mutex>>>
  explicit async_rw_mutex(U&& u) : st(std::make_shared<vc_rw_state<RW>>()) {
    auto v = std::make_shared<std::optional<RW>>();
    v->emplace(std::forward<U>(u));
    st->value = std::move(v);
    st->ready = true;
  }
  async_rw_mutex(async_rw_mutex&&) = default;
  async_rw_mutex& operator=(async_rw_mutex&&) = default;
  async_rw_mutex(const async_rw_mutex&) = delete;
  auto read() {
    if (!last_read && !fresh)
      advance();
    last_read = true;
    fresh = false;
    return vc_rw_sender<RW, RO, async_rw_mutex_access_type::read>{st};
  }
  auto readwrite() {
    if (!fresh)
      advance();
    last_read = false;
    fresh = false;
    return vc_rw_unique_sender<RW, RO>(st);
  }
};
}
