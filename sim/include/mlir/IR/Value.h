#pragma once
#include "mlir/IR/Operation.h"
