#pragma once
#include <cstddef>
#include <cstdint>
namespace sim {
void net_tamper(uint8_t* p, size_t n, int mode);
uint64_t net_ops(int party);
uint64_t net_sends(int party);
uint64_t entropy_u64();
}
