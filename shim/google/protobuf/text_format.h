#pragma once
#include <google/protobuf/message.h>
namespace google { namespace protobuf { class TextFormat { public: static bool PrintToString(const Message&, std::string*) { return true; } }; }}
