#pragma once
#include "plan.hpp"
namespace gen {
plan::Plan make(const std::string& prop, uint64_t seed);
std::string rule(const std::string& prop);
}
