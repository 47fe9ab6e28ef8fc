// Generated conversions of structs (C16); never executed.
#include "harness.h"
struct Rec
{
    json::value any;
    std::string text;
    int count = 0;
    bool flag = false;
    json::array list;
    MEO_JSONIZATION(any, MEO_KEY("the text") text, MEO_OPT count, MEO_OPT MEO_KEY("delete") flag, MEO_KEY("items") MEO_OPT list);
};
struct Flag
{
    json::value any;
    bool flag = false;
    MEO_JSONIZATION(any, MEO_OPT MEO_KEY("delete") flag);
};
struct Items
{
    json::array list;
    int count = 0;
    MEO_JSONIZATION(MEO_KEY("items") MEO_OPT list, MEO_OPT count);
};
struct Two
{
    int a = 0;
    std::string b;
    MEO_JSONIZATION(a, b);
};
struct Opts
{
    std::string x, y;
    MEO_JSONIZATION(MEO_OPT x, MEO_OPT MEO_KEY("why") y);
};
struct Nest
{
    Two in;
    std::optional<int> maybe;
    MEO_JSONIZATION(in, maybe);
};
struct Swap // keys that are the names of other fields
{
    std::string p, q;
    MEO_JSONIZATION(MEO_KEY("q") p, MEO_KEY("p") q);
};
static bool is_text(const json::value& v, int id) { return v.is_string() && same_view(&static_cast<const std::string_view&>(v.as_string_view()), id); }

// ---------------------------------------------------------------- serialisation
H(c16_to_two)
{
    Text t(1);
    must(attempt([&] {
        Two s;
        s.a = 7;
        s.b = *t;
        const json::value v = s.to_json();
        must(v.is_object() && v.as_object().size() == 2, "each field is written exactly once");
        must(v.contains("a") && v.at("a").is_number() && v.at("a").as_integer() == 7, "a field is written under its own key");
        must(v.contains("b") && is_text(v.at("b"), 1), "a field is written under its own key");
        must(same_string(&s.b, 1), "writing leaves the struct as it was");
    }) == DONE, "writing a struct succeeds");
}
H(c16_to_rec)
{
    Value any(1, NUL | STR | NUM | BOO);
    Text t(2);
    bool b = nd_bool();
    must(attempt([&] {
        Rec s;
        s.any = *any;
        s.text = *t;
        s.count = -3;
        s.flag = b;
        const json::value v(s);
        must(v.is_object() && v.as_object().size() == 5, "each field is written exactly once");
        must(v.contains("any") && same_value(&v.at("any"), 1), "a field is written under its own key");
        must(v.contains("the text") && is_text(v.at("the text"), 2), "a field is written under the key given for it");
        must(v.contains("count") && v.at("count").is_number() && v.at("count").as_integer() == -3, "an optional field is written as well");
        must(v.contains("delete") && v.at("delete").is_boolean() && v.at("delete").as_boolean() == b, "a field is written under the key given for it");
        must(v.contains("items") && v.at("items").is_array() && v.at("items").as_array().empty(), "a field is written under the key given for it");
    }) == DONE, "writing a struct succeeds");
}
H(c16_to_swap)
{
    Text t(1), u(2);
    must(attempt([&] {
        Swap s { *t, *u };
        const json::value v = s;
        must(v.is_object() && v.as_object().size() == 2, "each field is written exactly once");
        must(v.contains("q") && is_text(v.at("q"), 1), "a field is written under the key given for it");
        must(v.contains("p") && is_text(v.at("p"), 2), "a field is written under the key given for it");
    }) == DONE, "writing a struct succeeds");
}
H(c16_to_opts)
{
    Text t(1), u(2);
    must(attempt([&] {
        Opts s { *t, *u };
        const json::value v = s;
        must(v.is_object() && v.as_object().size() == 2, "each field is written exactly once");
        must(v.contains("x") && is_text(v.at("x"), 1), "an optional field is written as well");
        must(v.contains("why") && is_text(v.at("why"), 2), "a field is written under the key given for it");
    }) == DONE, "writing a struct succeeds");
}
H(c16_to_nest)
{
    Text t(1);
    must(attempt([&] {
        Nest s;
        s.in.a = 5;
        s.in.b = *t;
        const json::value v = s;
        must(v.is_object() && v.as_object().size() == 2, "each field is written exactly once");
        must(v.contains("in") && v.at("in").is_object() && v.at("in").as_object().size() == 2, "a nested struct is written under its key");
        must(is_text(v.at("in").at("b"), 1) && v.at("in").at("a").as_integer() == 5, "a nested struct is written with its own keys");
        must(v.contains("maybe") && v.at("maybe").is_null(), "an empty optional is written as null");
    }) == DONE, "writing a struct succeeds");
}
// ---------------------------------------------------------------- checking and loading
// 0 ok, 1 missing, 2 of another type
template <class T> int state(const json::value& in, const char* key)
{
    if (!in.is_object() || !in.as_object().contains(key)) return 1;
    return in.as_object().at(key).is<T>() ? 0 : 2;
}
struct Want
{
    const char* bad = nullptr; // the first offending key
    void need(int s, const char* key) { if (s && !bad) bad = key; }
    void may(int s, const char* key) { if (s == 2 && !bad) bad = key; }
};
static bool names(const std::string& got, const char* want) { return got == want; }
template <class S> void agree(const json::value& in, S& s, const Want& w)
{
    std::string e1, e2;
    bool checked = false, loaded = false;
    must(attempt([&] { checked = std::as_const(s).check_json(in, e1); }) == DONE, "checking does not throw");
    must(checked == !w.bad, "checking accepts exactly what has all keys with the right types");
    must(attempt([&] { loaded = s.from_json(in, e2); }) == DONE, "loading does not throw");
    must(loaded == checked, "checking and loading agree");
    if (w.bad && !checked) must(names(e1, w.bad), "checking reports the first offending key");
    if (w.bad && !loaded) must(names(e2, w.bad), "loading reports the first offending key");
    must(attempt([&] { must(std::as_const(s).check_json(in) == checked, "checking without a key gives the same answer"); }) == DONE, "checking does not throw");
    must(attempt([&] { must(in.is<S>() == checked, "is<struct> gives the answer of the check"); }) == DONE, "is<struct> does not throw");
}
H(c16_two)
{
    Value v(1);
    const json::value& in = *v;
    must(attempt([&] {
        Two s;
        Want w;
        w.need(state<int>(in, "a"), "a");
        w.need(state<std::string>(in, "b"), "b");
        agree(in, s, w);
        if (!w.bad) {
            must(s.a == in.at("a").as_integer(), "a key is loaded into its own field");
            must(s.b == in.at("b").as_string_view(), "a key is loaded into its own field");
        }
        must(v.same(), "checking and loading leave the value as it was");
    }) == DONE, "checking and loading do not throw");
}
H(c16_opts)
{
    Value v(1);
    const json::value& in = *v;
    Text old(2);
    must(attempt([&] {
        Opts s { *old, *old };
        Want w;
        int x = state<std::string>(in, "x"), y = state<std::string>(in, "why");
        w.may(x, "x");
        w.may(y, "why");
        agree(in, s, w);
        if (!w.bad) {
            if (x == 0) must(s.x == in.at("x").as_string_view(), "a key is loaded into its own field");
            else must(same_string(&s.x, 2), "a field whose key is absent keeps its value");
            if (y == 0) must(s.y == in.at("why").as_string_view(), "a key is loaded into its own field");
            else must(same_string(&s.y, 2), "a field whose key is absent keeps its value");
        }
    }) == DONE, "checking and loading do not throw");
}
H(c16_swap)
{
    Value v(1, OBJ);
    const json::value& in = *v;
    must(attempt([&] {
        Swap s;
        Want w;
        w.need(state<std::string>(in, "q"), "q");
        w.need(state<std::string>(in, "p"), "p");
        agree(in, s, w);
        if (!w.bad) {
            must(s.p == in.at("q").as_string_view(), "a key is loaded into its own field");
            must(s.q == in.at("p").as_string_view(), "a key is loaded into its own field");
        }
    }) == DONE, "checking and loading do not throw");
}
H(c16_flag)
{
    Value v(1, OBJ);
    const json::value& in = *v;
    must(attempt([&] {
        Flag s;
        Want w;
        w.need(state<json::value>(in, "any"), "any");
        int d = state<bool>(in, "delete");
        w.may(d, "delete");
        agree(in, s, w);
        if (!w.bad) {
            must(s.any == in.at("any"), "a key is loaded into its own field");
            if (d == 0) must(s.flag == in.at("delete").as_boolean(), "a key is loaded into its own field");
            else must(!s.flag, "a field whose key is absent keeps its value");
        }
    }) == DONE, "checking and loading do not throw");
}
H(c16_items)
{
    Value v(1, OBJ);
    const json::value& in = *v;
    must(attempt([&] {
        Items s;
        Want w;
        int e = state<json::array>(in, "items"), c = state<int>(in, "count");
        w.may(e, "items");
        w.may(c, "count");
        agree(in, s, w);
        if (!w.bad) {
            if (e == 0) must(s.list == in.at("items").as_array(), "a key is loaded into its own field");
            else must(s.list.empty(), "a field whose key is absent keeps its value");
            if (c == 0) must(s.count == in.at("count").as_integer(), "a key is loaded into its own field");
            else must(s.count == 0, "a field whose key is absent keeps its value");
        }
    }) == DONE, "checking and loading do not throw");
}
H(c16_nest)
{
    Value v(1, OBJ);
    const json::value& in = *v;
    must(attempt([&] {
        Nest s;
        Want w;
        w.need(state<Two>(in, "in"), "in");
        w.need(state<std::optional<int>>(in, "maybe"), "maybe");
        agree(in, s, w);
        if (!w.bad) {
            must(s.in.a == in.at("in").at("a").as_integer(), "a nested struct is loaded into its own field");
            must(s.in.b == in.at("in").at("b").as_string_view(), "a nested struct is loaded into its own field");
            must(s.maybe.has_value() == !in.at("maybe").is_null(), "null is loaded as an empty optional");
        }
    }) == DONE, "checking and loading do not throw");
}
H(c16_as)
{
    Value v(1, OBJ);
    const json::value& in = *v;
    Two s;
    bool ok = false;
    must(attempt([&] { ok = in.is<Two>(); }) == DONE, "is<struct> does not throw");
    Outcome o = attempt([&] { s = in.as<Two>(); });
    must(o == (ok ? DONE : JSONEX), "the conversion to a struct succeeds exactly for what the check accepts, else throws json::exception");
    if (o == DONE) must(attempt([&] { must(s.b == in.at("b").as_string_view(), "a key is loaded into its own field"); }) == DONE, "the key is there");
    must(v.same(), "the conversion leaves the value as it was");
}
H(c16_round)
{
    Text t(1);
    must(attempt([&] {
        Two s;
        s.a = -12;
        s.b = *t;
        const json::value v = s;
        must(v.is<Two>(), "what was written is accepted");
        Two u = v.as<Two>();
        must(u.a == -12 && same_string(&u.b, 1), "what was written is loaded back");
    }) == DONE, "a struct is written and loaded back");
}
