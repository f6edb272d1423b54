#pragma once
#include <string>
#include <utility>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/crypto/rand/rand.h"
namespace yacl::crypto {
namespace openssl { using UniquePkey = uint128_t; }
inline std::pair<Buffer, Buffer> GenSm2KeyPairToPemBuf() { uint128_t id = FastRandU128(); std::string s(16, 0); std::memcpy(s.data(), &id, 16); return {Buffer("PK" + s), Buffer("SK" + s)}; }
}
