// Enums and values (C18); never executed.
#include "harness.h"
enum class Color { Red = 1, Green = 2, Blue = 4 };
enum class Big : unsigned long long { Zero = 0, One = 1, Top = 128, Huge = 0x100000001ull };
enum class Neg : int { Low = -128, M = -1, Z = 0, P = 127 };
enum class Span { Idle = 100, Running, Paused, Stopped, MEOJSON_ENUM_RANGE(Idle, Stopped) };
using json::_reflection::enum_to_string;
template <class E> void named(E e, const char* n)
{
    must(attempt([&] {
        json::value v(e);
        must(v.is_string() && v.as_string_view() == n, "an enumerator becomes the string that is its name");
        must(std::as_const(v).is<E>(), "is<enum> is true for the name of an enumerator");
        must(v.as<E>() == e, "the name of an enumerator converts back to it");
        must(static_cast<E>(std::as_const(v)) == e, "the name of an enumerator is cast back to it");
    }) == DONE, "the conversion of an enumerator to a value and back succeeds");
}
template <class E> void named(const char* n, E e)
{
    must(attempt([&] {
        json::value v(n);
        must(v.is<E>(), "is<enum> is true for a name in any case");
        must(v.as<E>() == e, "a name in any case converts to its enumerator");
    }) == DONE, "the conversion of a name to an enumerator succeeds");
}
template <class E> void unnamed(const char* n)
{
    json::value v(n);
    must(attempt([&] { must(!v.is<E>(), "is<enum> is false for other texts"); }) == DONE, "is<enum> does not throw");
    must(attempt([&] { (void)v.as<E>(); }) == JSONEX, "the conversion of another text to an enum throws json::exception");
}
template <class E> void none(E e)
{
    must(attempt([&] { json::value v(e); }) == JSONEX, "a value that is no enumerator is refused with json::exception");
}
H(c18_color) { named(Color::Red, "Red"); named(Color::Green, "Green"); named(Color::Blue, "Blue"); }
H(c18_color_text) { named("red", Color::Red); named("GREEN", Color::Green); named("bLUE", Color::Blue); }
H(c18_color_not) { unnamed<Color>(""); unnamed<Color>("re"); unnamed<Color>("redd"); unnamed<Color>("1"); }
H(c18_color_none) { none(Color(0)); none(Color(3)); none(Color(5)); none(Color(129)); none(Color(-129)); none(Color(2147483647)); none(Color(-2147483647 - 1)); }
H(c18_big) { named(Big::Zero, "Zero"); named(Big::One, "One"); named(Big::Top, "Top"); }
H(c18_big_none) { none(Big(2)); none(Big(0x100000000ull)); none(Big::Huge); none(Big(~0ull)); none(Big(~0ull - 127)); }
H(c18_neg) { named(Neg::Low, "Low"); named(Neg::M, "M"); named(Neg::P, "P"); none(Neg(-2)); none(Neg(126)); }
H(c18_span) { named(Span::Idle, "Idle"); named(Span::Paused, "Paused"); named(Span::Stopped, "Stopped"); named("STOPPED", Span::Stopped); }
H(c18_span_none) { none(Span(99)); none(Span(104)); none(Span(0)); none(Span(-1)); unnamed<Span>("Idl"); }
H(c18_other_kind)
{
    Value v(1, NUL | BOO | ARR | OBJ);
    must(attempt([&] { must(!std::as_const(*v).is<Color>(), "is<enum> is false for values that are neither text nor number"); }) == DONE, "is<enum> does not throw");
    must(attempt([&] { (void)v->as<Color>(); }) == JSONEX, "the conversion of another kind of value to an enum throws json::exception");
}
