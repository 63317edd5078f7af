#pragma once
#include <sstream>
namespace boost { template <class T, class S> struct sx_lex; template <class S> struct sx_lex<std::string, S> { static std::string c(const S& v) { std::ostringstream o; o << v; return o.str(); } }; template <class T, class S> T lexical_cast(const S& v) { return sx_lex<T, S>::c(v); } }
