#pragma once
#include <cstdint>
#include <cstddef>
#include <climits>
#include <cmath>
#include <cinttypes>
#include <sys/types.h>
