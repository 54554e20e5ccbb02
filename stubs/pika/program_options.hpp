#pragma once
#include <string>
#include <vector>
#include <map>
namespace pika::program_options { struct options_description { template <class... T> options_description(T&&...) {} };
struct variables_map { std::size_t count(const std::string&) const { return 0; } }; }
