// pretends that the standard library has no floating point std::from_chars
#include <charconv>
#include <version>
#undef __cpp_lib_to_chars
