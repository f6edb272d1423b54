// Base OT with the functional behaviour of a real base OT (message exchange over the
// simulated link; the sender's blocks are random, the receiver learns the chosen one).
#pragma once
#include "yacl/kernel/type/ot_store.h"
#include "yacl/link/context.h"
namespace yacl::crypto {
using Block = uint128_t; using MsgPair = std::array<uint128_t, 2>;
void BaseOtRecv(const std::shared_ptr<link::Context>& ctx, const dynamic_bitset<uint128_t>& choices, absl::Span<uint128_t> recv_blocks);
void BaseOtSend(const std::shared_ptr<link::Context>& ctx, absl::Span<std::array<uint128_t, 2>> send_blocks);
}
