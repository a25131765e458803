// Minimal stand-in for libcoro's lazily started task (the library is not installed here).
#pragma once
#include <coroutine>
#include <exception>
#include <optional>
#include <utility>
namespace coro {
template <class T = void> class task;
namespace detail {
struct promise_base {
  std::coroutine_handle<> cont; std::exception_ptr err;
  struct final_awaiter { bool await_ready() noexcept { return false; } template <class P> std::coroutine_handle<> await_suspend(std::coroutine_handle<P> h) noexcept { return h.promise().cont ? h.promise().cont : std::coroutine_handle<>(std::noop_coroutine()); } void await_resume() noexcept {} };
  std::suspend_always initial_suspend() noexcept { return {}; }
  final_awaiter final_suspend() noexcept { return {}; }
  void unhandled_exception() { err = std::current_exception(); }
};
template <class T> struct promise : promise_base { std::optional<T> v; task<T> get_return_object(); template <class U> void return_value(U&& u) { v.emplace(std::forward<U>(u)); } T& result() { if (err) std::rethrow_exception(err); return *v; } };
template <> struct promise<void> : promise_base { task<void> get_return_object(); void return_void() {} void result() { if (err) std::rethrow_exception(err); } };
}
template <class T> class task {
 public:
  using promise_type = detail::promise<T>;
  task() = default; explicit task(std::coroutine_handle<promise_type> h) : h_(h) {}
  task(const task&) = delete; task(task&& o) noexcept : h_(std::exchange(o.h_, nullptr)) {}
  task& operator=(task&& o) noexcept { if (this != &o) { if (h_) h_.destroy(); h_ = std::exchange(o.h_, nullptr); } return *this; }
  ~task() { if (h_) h_.destroy(); }
  bool is_ready() const { return !h_ || h_.done(); }
  bool resume() { if (!h_.done()) h_.resume(); return !h_.done(); }
  std::coroutine_handle<promise_type> handle() { return h_; }
  promise_type& promise() { return h_.promise(); }
  auto operator co_await() const noexcept { struct aw { std::coroutine_handle<promise_type> h; bool await_ready() { return !h || h.done(); } std::coroutine_handle<> await_suspend(std::coroutine_handle<> c) { h.promise().cont = c; return h; } decltype(auto) await_resume() { return h.promise().result(); } }; return aw{h_}; }
 private:
  std::coroutine_handle<promise_type> h_{nullptr};
};
template <class T> task<T> detail::promise<T>::get_return_object() { return task<T>(std::coroutine_handle<promise<T>>::from_promise(*this)); }
inline task<void> detail::promise<void>::get_return_object() { return task<void>(std::coroutine_handle<promise<void>>::from_promise(*this)); }
}
