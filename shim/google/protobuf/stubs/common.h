// Stand-in for the protobuf runtime: only what sofa-pbrpc relies on (see DESIGN.md, "stand-ins").
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <limits.h>
#include <assert.h>
#include <string>
#include <algorithm>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <vector>
#include <utility>
#include <memory>
#include <functional>
#include <limits>
#include <iosfwd>
#include <ostream>
#include <cstring>
#include <cstdlib>
#include <cstdio>
namespace google { namespace protobuf {
typedef unsigned int uint;
typedef int8_t int8; typedef int16_t int16; typedef int32_t int32; typedef int64_t int64;
typedef uint8_t uint8; typedef uint16_t uint16; typedef uint32_t uint32; typedef uint64_t uint64;
static const int32 kint32max = 0x7FFFFFFF; static const int32 kint32min = -kint32max - 1;
static const int64 kint64max = 0x7FFFFFFFFFFFFFFFLL; static const int64 kint64min = -kint64max - 1;
static const uint32 kuint32max = 0xFFFFFFFFu; static const uint64 kuint64max = 0xFFFFFFFFFFFFFFFFULL;
using std::string;
}}
#define GOOGLE_DISALLOW_EVIL_CONSTRUCTORS(T) T(const T&); void operator=(const T&)
#define GOOGLE_CHECK(x) assert(x)
#define GOOGLE_DCHECK(x) assert(x)
#define GOOGLE_CHECK_GT(a, b) assert((a) > (b))
#define GOOGLE_CHECK_GE(a, b) assert((a) >= (b))
#define GOOGLE_CHECK_EQ(a, b) assert((a) == (b))
#define GOOGLE_CHECK_NE(a, b) assert((a) != (b))
#define GOOGLE_CHECK_LT(a, b) assert((a) < (b))
#define GOOGLE_CHECK_LE(a, b) assert((a) <= (b))
namespace google { namespace protobuf { enum sx_LogLevel { LOGLEVEL_INFO, LOGLEVEL_WARNING, LOGLEVEL_ERROR, LOGLEVEL_FATAL, LOGLEVEL_DFATAL = LOGLEVEL_ERROR }; struct sx_LogSink { int l_; sx_LogSink(int l) : l_(l) {} ~sx_LogSink() { assert(l_ != LOGLEVEL_FATAL && "GOOGLE_LOG(FATAL)"); } template <class T> sx_LogSink& operator<<(const T&) { return *this; } }; }}
#define GOOGLE_LOG(L) ::google::protobuf::sx_LogSink(::google::protobuf::LOGLEVEL_##L)
#include <google/protobuf/stubs/callback.h>
#define GOOGLE_ATTRIBUTE_DEPRECATED
