#pragma once
#include <array>
#include <cstdint>
namespace seal {
class Modulus;
class SEALContext;
using parms_id_type = std::array<uint64_t, 4>;
constexpr parms_id_type parms_id_zero{};
}  // namespace seal
namespace spu::mpc::cheetah {
class RLWEPt;
}  // namespace spu::mpc::cheetah
