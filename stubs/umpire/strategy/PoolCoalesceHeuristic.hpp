#pragma once
namespace umpire::strategy { template <class P> struct PoolCoalesceHeuristic {}; }
