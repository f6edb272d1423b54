// Knobs and faults of the simulated rpc layer.
#pragma once
#include <cstdint>
#include <string>
namespace sim {
struct RpcFaults {
  double p_refuse = 0;         // connection refused (the client retries up to max_retry)
  double p_cut_stream = 0;     // the stream breaks after some bytes
  double p_write_fail = 0;     // the server's write fails (client vanished)
  double p_lost_response = 0;  // request handled, response header lost
  int64_t crash_server_after_bytes = -1;  // server process dies after streaming this many bytes
  int server_party = 90;
  uint64_t max_piece = 0;      // 0: seeded piece sizes
  uint64_t late_notify_us = 0;
};
RpcFaults& rpc_faults();
void rpc_restart_server();     // a crashed server comes back up
bool rpc_server_up();
void rpc_reset();
const std::string& rpc_misuse();             // a client broke the life-time rules of the rpc library
const std::string& rpc_server_escaped();  // what left a request handler as an exception (ends a real server)
}  // namespace sim
