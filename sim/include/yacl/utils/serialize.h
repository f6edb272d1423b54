#pragma once
#include <cstring>
#include <tuple>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/int128.h"
namespace yacl {
inline Buffer SerializeUint128(uint128_t v) { return Buffer(&v, sizeof(v)); }
inline uint128_t DeserializeUint128(ByteContainerView b) { YACL_ENFORCE(b.size() == sizeof(uint128_t)); uint128_t v; std::memcpy(&v, b.data(), sizeof(v)); return v; }
inline Buffer SerializeInt128(int128_t v) { return Buffer(&v, sizeof(v)); }
inline int128_t DeserializeInt128(ByteContainerView b) { int128_t v; std::memcpy(&v, b.data(), sizeof(v)); return v; }
template <typename... Ts> Buffer SerializeVars(const Ts&... vs) {
  static_assert((std::is_trivially_copyable_v<Ts> && ...));
  Buffer b(static_cast<int64_t>((sizeof(Ts) + ... + 0))); char* p = b.template data<char>();
  ((std::memcpy(p, &vs, sizeof(Ts)), p += sizeof(Ts)), ...); return b;
}
template <typename T> T DeserializeVars(ByteContainerView b) { YACL_ENFORCE(b.size() == sizeof(T)); T t; std::memcpy(&t, b.data(), sizeof(T)); return t; }
template <typename T1, typename T2, typename... Ts> std::tuple<T1, T2, Ts...> DeserializeVars(ByteContainerView b) {
  std::tuple<T1, T2, Ts...> t; const uint8_t* p = b.data();
  std::apply([&](auto&... x) { ((std::memcpy(&x, p, sizeof(x)), p += sizeof(x)), ...); }, t); return t;
}
}  // namespace yacl
