#pragma once
#include <functional>
namespace pika::util::detail { template <class S> using unique_function = std::function<S>; template <class S> using function = std::function<S>; }
