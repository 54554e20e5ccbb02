// transform_mpi: the function is called with the values and a request; the result is delivered once the request is complete
#pragma once
#include <mpi.h>
#include <string>
#include <pika/execution.hpp>
namespace pika::mpi::experimental {
namespace vcx = pika::execution::experimental;
template <class F> struct vc_mpi_call {
  F f;
  template <class... Ts> auto operator()(Ts&&... ts) -> decltype(std::move(f)(ts..., (MPI_Request*) nullptr)) {
    MPI_Request req;
    if constexpr (std::is_void_v<decltype(std::move(f)(ts..., &req))>) {
      std::move(f)(ts..., &req);
      MPI_Wait(&req, MPI_STATUS_IGNORE);
    }
    else {
      auto r = std::move(f)(ts..., &req);
      MPI_Wait(&req, MPI_STATUS_IGNORE);
      return r;
    }
  }
};
template <class F> auto transform_mpi(F&& f) { return vcx::then(vc_mpi_call<std::decay_t<F>>{std::forward<F>(f)}); }
template <class S, class F> auto transform_mpi(S&& s, F&& f) { return vcx::then(std::forward<S>(s), vc_mpi_call<std::decay_t<F>>{std::forward<F>(f)}); }
enum class exception_mode { no_handler, install_handler };
inline void start_polling(exception_mode) {}
inline void stop_polling() {}
inline std::string get_pool_name() { return "default"; }
}
