#pragma once
#include "evmc.hpp"
namespace evmc { std::string hex(const bytes& b); }
