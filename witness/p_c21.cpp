// C21: reading from a stream or file. The stream may be anything: readable, shorter than it says, not seekable, broken, failing while it is read,
// a directory, not there; and deliver any bytes.
#include "harness.h"
#include <filesystem>
extern "C" void stream_result(const json::value* r, bool bom, bool comments); // what came out, with these options
template <class F>
inline void reading(F f, bool bom, bool comments)
{
    std::optional<json::value> r;
    bool done = false;
    try {
        r = f();
        done = true;
    }
    catch (...) {
    }
    must(done, "reading a stream or file throws nothing");
    if (done) stream_result(r.has_value() ? &*r : nullptr, bom, comments);
}
#define S(name, args, bom, comments) extern "C" void h_c21_stream_##name(std::istream& in) { bool b = nd_bool(), c = nd_bool(); (void)b; (void)c; reading([&] { return json::parse args; }, bom, comments); }
S(default, (in), false, false)
S(bom, (in, b), b, false)
S(all, (in, b, c), b, c)
#define O(name, type, args, bom, comments) extern "C" void h_c21_open_##name(type in) { bool b = nd_bool(), c = nd_bool(); (void)b; (void)c; reading([&] { return json::open args; }, bom, comments); }
O(chars_default, const char*, (in), false, false)
O(chars_bom, const char*, (in, b), b, false)
O(chars, const char*, (in, b, c), b, c)
O(string_default, const std::string&, (in), false, false)
O(string, const std::string&, (in, b, c), b, c)
O(path_default, const std::filesystem::path&, (in), false, false)
O(path, const std::filesystem::path&, (in, b, c), b, c)
