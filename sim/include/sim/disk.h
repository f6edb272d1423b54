// Disk faults for the simulated key/value store.
#pragma once
#include <cstdint>
namespace sim {
struct DiskFaults {
  double p_open_fail = 0, p_put_fail = 0, p_get_fail = 0, p_del_fail = 0;
  int64_t full_after_bytes = -1;
  int party = -1;  // -1: every party
};
DiskFaults& disk_faults();
}
