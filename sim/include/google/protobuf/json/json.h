#pragma once
#include "google/protobuf/util/json_util.h"
namespace google::protobuf::json {
using google::protobuf::util::JsonStringToMessage;
using google::protobuf::util::MessageToJsonString;
}
