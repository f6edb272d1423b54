#pragma once
#include <memory>
#include "yacl/crypto/key_utils.h"
#include "yacl/crypto/rand/rand.h"
namespace yacl::crypto {
// Ideal authenticated public-key encryption: key bytes carry an id; ciphertext
// is a tagged, keyed one-time pad. A wrong key or a modified ciphertext throws.
class PkeEncryptor { public: virtual ~PkeEncryptor() = default; virtual std::vector<uint8_t> Encrypt(ByteContainerView) = 0; };
class PkeDecryptor { public: virtual ~PkeDecryptor() = default; virtual std::vector<uint8_t> Decrypt(ByteContainerView) = 0; };
namespace simpke { uint128_t KeyId(ByteContainerView pem); std::vector<uint8_t> Seal(uint128_t id, ByteContainerView); std::vector<uint8_t> Open(uint128_t id, ByteContainerView); }
class Sm2Encryptor : public PkeEncryptor { public: explicit Sm2Encryptor(ByteContainerView pk) : id_(simpke::KeyId(pk)) {} std::vector<uint8_t> Encrypt(ByteContainerView b) override { return simpke::Seal(id_, b); } private: uint128_t id_; };
class Sm2Decryptor : public PkeDecryptor { public: explicit Sm2Decryptor(ByteContainerView sk) : id_(simpke::KeyId(sk)) {} std::vector<uint8_t> Decrypt(ByteContainerView b) override { return simpke::Open(id_, b); } private: uint128_t id_; };
}
