// Entry points for the analysis of the parser; never executed.
#include <vector>
#include "common.h"
extern "C" void verdict_accept(const json::value&);
extern "C" void verdict_reject();
#ifndef TRAITS
#define TRAITS json::_packed_bytes::packed_bytes_trait_max
#endif
template <bool C, class S> static void go(const S& in)
{
    auto r = json::parser<C, S, TRAITS>::parse(in);
    if (r) verdict_accept(*r); else verdict_reject();
}
extern "C" void w_strict_string(const std::string& in) { go<false>(in); }
extern "C" void w_jsonc_string(const std::string& in) { go<true>(in); }
extern "C" void w_strict_view(const std::string_view& in) { go<false>(in); }
extern "C" void w_jsonc_view(const std::string_view& in) { go<true>(in); }
extern "C" void w_strict_vector(const std::vector<char>& in) { go<false>(in); }
extern "C" void w_jsonc_vector(const std::vector<char>& in) { go<true>(in); }
// the public entry points
template <bool C, class S> static void go2(const S& in)
{
    auto r = C ? json::parsec(in) : json::parse(in);
    if (r) verdict_accept(*r); else verdict_reject();
}
extern "C" void w_parse_string(const std::string& in) { go2<false>(in); }
extern "C" void w_parsec_string(const std::string& in) { go2<true>(in); }
extern "C" void w_parse_view(const std::string_view& in) { go2<false>(in); }
extern "C" void w_parsec_view(const std::string_view& in) { go2<true>(in); }
extern "C" void w_parse_vector(const std::vector<char>& in) { go2<false>(in); }
extern "C" void w_parsec_vector(const std::vector<char>& in) { go2<true>(in); }
