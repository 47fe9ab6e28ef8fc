// C08: what serialisation writes.
#include "harness.h"
#include <iostream>
#include <optional>
static void whole(const std::string& s, int id) { must(is_serial(&s, id), "the text is that of the value"); }
H(c08_value_to_string)
{
    Value v(1);
    whole(v->to_string(), 1);
}
H(c08_value_dumps)
{
    Value v(1);
    whole(v->dumps(), 1);
    whole(v->dumps(nd_size(2)), 1);
}
H(c08_value_format)
{
    Value v(1);
    whole(v->format(), 1);
    whole(v->format(nd_size(2)), 1);
}
H(c08_value_stream)
{
    Value v(1);
    std::string s;
    std::ostream& os = reinterpret_cast<std::ostream&>(s); // only the interpreter's models of its functions see it
    os << *v;
    whole(s, 1);
}
H(c08_array_to_string)
{
    Array a(1);
    whole(a->to_string(), 1);
}
H(c08_array_dumps)
{
    Array a(1);
    whole(a->dumps(), 1);
    whole(a->dumps(nd_size(2)), 1);
}
H(c08_array_format)
{
    Array a(1);
    whole(a->format(), 1);
    whole(a->format(nd_size(2)), 1);
}
H(c08_array_stream)
{
    Array a(1);
    std::string s;
    std::ostream& os = reinterpret_cast<std::ostream&>(s);
    os << *a;
    whole(s, 1);
}
H(c08_object_to_string)
{
    Object o(1);
    whole(o->to_string(), 1);
}
H(c08_object_dumps)
{
    Object o(1);
    whole(o->dumps(), 1);
    whole(o->dumps(nd_size(2)), 1);
}
H(c08_object_format)
{
    Object o(1);
    whole(o->format(), 1);
    whole(o->format(nd_size(2)), 1);
}
H(c08_object_stream)
{
    Object o(1);
    std::string s;
    std::ostream& os = reinterpret_cast<std::ostream&>(s);
    os << *o;
    whole(s, 1);
}
