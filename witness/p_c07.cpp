// C07: what escaping a text writes. The text is the parameter: any bytes, any length.
#include "common.h"
#include <string>
#include <string_view>
extern "C" void esc_open(std::string&);                       // holds something unknown
extern "C" void esc_frame(const char* before, const char* after);
extern "C" void esc_done(const std::string&);                 // must be what was there, and the text with escapes
#define E(name, type) extern "C" void h_c07_##name(const type& in)
E(append_view, std::string_view)
{
    std::string out;
    esc_open(out);
    json::_utils::append_escaped_string(out, in);
    esc_done(out);
}
E(append_string, std::string)
{
    std::string out;
    esc_open(out);
    json::_utils::append_escaped_string(out, in);
    esc_done(out);
}
E(escape_view, std::string_view) { esc_done(json::_utils::escape_string(in)); }
E(escape_string, std::string) { esc_done(json::_utils::escape_string(in)); }
E(legacy_string, std::string) { esc_done(json::_utils::unescape_string(in)); }
E(value_string, std::string)
{
    esc_frame("\"", "\"");
    json::value v(in);
    esc_done(v.to_string());
}
E(format_string, std::string)
{
    esc_frame("\"", "\"");
    json::value v(in);
    esc_done(v.format());
}
