#pragma once
#include <evmc/evmc.h>
extern "C" evmc_vm* evmc_create_evmone(void) noexcept;
