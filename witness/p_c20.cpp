// Nullable wrappers (C20); never executed.
#include "harness.h"
static bool same_text(std::string_view s) { return same_view(&s, 1); }
template <class T> using opt = std::optional<T>;
template <class T> using shp = std::shared_ptr<T>;
template <class T> using unp = std::unique_ptr<T>;
template <class W> struct make;
template <class T> struct make<opt<T>> { template <class X> static opt<T> of(X&& x) { return opt<T>(std::in_place, std::forward<X>(x)); } };
template <class T> struct make<shp<T>> { template <class X> static shp<T> of(X&& x) { return std::make_shared<T>(std::forward<X>(x)); } };
template <class T> struct make<unp<T>> { template <class X> static unp<T> of(X&& x) { return std::make_unique<T>(std::forward<X>(x)); } };
template <class W> void empty()
{
    must(attempt([] {
        W w {};
        const W c {};
        must(json::value(c).is_null(), "an empty wrapper becomes null");
        must(json::value(w).is_null(), "an empty wrapper becomes null");
        must(json::value(std::move(w)).is_null(), "an empty wrapper becomes null");
        json::value v(true);
        v = c;
        must(v.is_null(), "an empty wrapper is assigned as null");
        json::value n;
        must(!std::as_const(n).as<W>(), "null becomes an empty wrapper");
        must(!json::value().as<W>(), "null becomes an empty wrapper");
        must(!json::value(nullptr).operator W(), "null is cast to an empty wrapper");
        must(n.is<W>(), "is<wrapper> is true for null");
    }) == DONE, "the conversion of empty wrappers succeeds");
}
#define E(name, T) H(c20_empty_opt_##name) { empty<opt<T>>(); } H(c20_empty_shp_##name) { empty<shp<T>>(); } H(c20_empty_unp_##name) { empty<unp<T>>(); }
E(int, int)
E(string, std::string)
E(array, json::array)

// a wrapper of a text becomes the string, and is left as it was unless it was moved
template <class W> void text()
{
    Text t(1);
    W w = make<W>::of(*t);
    must(attempt([&] {
        json::value v(w);
        must(v.is_string() && same_text(v.as_string_view()), "a wrapper becomes the value of its content");
        must(w && same_string(&*w, 1), "the wrapper that was converted keeps its content");
        json::value u(std::as_const(w));
        must(u.is_string() && same_text(u.as_string_view()), "a wrapper becomes the value of its content");
        must(w && same_string(&*w, 1), "the wrapper that was converted keeps its content");
    }) == DONE, "the conversion of a wrapper succeeds");
}
template <class W> void text_rvalue()
{
    Text t(1);
    W w = make<W>::of(*t);
    must(attempt([&] {
        json::value v(std::move(w));
        must(v.is_string() && same_text(v.as_string_view()), "a moved wrapper becomes the value of its content");
    }) == DONE, "the conversion of a wrapper succeeds");
}
template <class W> void text_assigned()
{
    Text t(1);
    Value v(2);
    W w = make<W>::of(*t);
    must(attempt([&] {
        *v = w;
        must(v->is_string() && same_text(v->as_string_view()), "a wrapper is assigned as its content");
        must(w && same_string(&*w, 1), "the wrapper that was converted keeps its content");
    }) == DONE, "the assignment of a wrapper succeeds");
}
#define T(f) H(c20_opt_##f) { f<opt<std::string>>(); } H(c20_shp_##f) { f<shp<std::string>>(); } H(c20_unp_##f) { f<unp<std::string>>(); }
T(text)
T(text_rvalue)
T(text_assigned)
H(c20_shared_content)
{
    Text t(1);
    auto w = make<shp<std::string>>::of(*t);
    auto other = w;
    must(attempt([&] {
        json::value v(std::move(w));
        must(v.is_string() && same_text(v.as_string_view()), "a moved wrapper becomes the value of its content");
        must(other && same_string(&*other, 1), "content that others share is kept");
    }) == DONE, "the conversion of a wrapper succeeds");
}
// containers as content
template <class W> void container()
{
    Array a(1);
    W w = make<W>::of(*a);
    must(attempt([&] {
        json::value v(w);
        must(v.is_array() && same_array(&std::as_const(v).as_array(), 1), "a wrapper becomes the value of its content");
        must(w && same_array(&*w, 1), "the wrapper that was converted keeps its content");
    }) == DONE, "the conversion of a wrapper succeeds");
}
H(c20_opt_array) { container<opt<json::array>>(); }
H(c20_shp_array) { container<shp<json::array>>(); }
H(c20_unp_array) { container<unp<json::array>>(); }
template <class W> void number(W w)
{
    must(attempt([&] {
        json::value v(w);
        must(v.is_number() && v.as_integer() == 42, "a wrapper becomes the value of its content");
        json::value u(std::move(w));
        must(u.is_number() && u.as_integer() == 42, "a moved wrapper becomes the value of its content");
    }) == DONE, "the conversion of a wrapper succeeds");
}
H(c20_opt_number) { number(make<opt<int>>::of(42)); }
H(c20_shp_number) { number(make<shp<int>>::of(42)); }
H(c20_unp_number) { number(make<unp<int>>::of(42)); }
H(c20_opt_false)
{
    bool b = nd_bool();
    must(attempt([&] {
        const opt<bool> o(b);
        json::value v(o);
        must(v.is_boolean() && v.as_boolean() == b, "a wrapper becomes the value of its content, also if that is false");
        json::value u { opt<bool>(b) };
        must(u.is_boolean() && u.as_boolean() == b, "a wrapper becomes the value of its content, also if that is false");
    }) == DONE, "the conversion of a wrapper succeeds");
}
// back
enum How { LVALUE, CONSTANT, RVALUE, CAST, CAST_RVALUE };
template <class W> W get(json::value& v, How how)
{
    switch (how) {
    case LVALUE: return v.as<W>();
    case CONSTANT: return std::as_const(v).as<W>();
    case RVALUE: return std::move(v).as<W>();
    case CAST: return v.operator W();
    default: return std::move(v).operator W();
    }
}
template <class W> void from_text(How how)
{
    Value v(1);
    W w {};
    Outcome o = attempt([&] { w = get<W>(*v, how); });
    must(o != OTHEREX, "the conversion to a wrapper fails with another exception than json::exception");
    must((o == DONE) == v.is(NUL | STR), "the conversion to a wrapper succeeds exactly for null and its content");
    if (o == DONE && v.is(NUL)) must(!w, "null becomes an empty wrapper");
    if (o == DONE && v.is(STR)) {
        must(!!w, "a value becomes a wrapper that is not empty");
        if (w) must(same_string(&*w, 1), "a wrapper holds the conversion of the value");
    }
    if (how == LVALUE || how == CONSTANT || how == CAST) must(v.same(), "the conversion leaves the value as it was");
}
template <class W> void from_number(How how)
{
    Value v(1);
    W w {};
    Outcome o = attempt([&] { w = get<W>(*v, how); });
    must(o != OTHEREX, "the conversion to a wrapper fails with another exception than json::exception");
    must((o == DONE) == (v.is(NUL) || (v.is(NUM) && readable(1, "int"))), "the conversion to a wrapper succeeds exactly for null and its content");
    if (o == DONE && v.is(NUL)) must(!w, "null becomes an empty wrapper");
    if (o == DONE && v.is(NUM)) {
        must(!!w, "a value becomes a wrapper that is not empty");
        if (w) must(is_number(&*w, 1, "int"), "a wrapper holds the conversion of the value");
    }
}
template <class W> void from_flag(How how)
{
    bool b = nd_bool();
    json::value v(b);
    must(attempt([&] {
        W w = get<W>(v, how);
        must(!!w, "false becomes a wrapper that is not empty");
        if (w) must(*w == b, "a wrapper holds the conversion of the value");
    }) == DONE, "the conversion to a wrapper succeeds");
}
template <class W> void from_array(How how)
{
    Value v(1);
    W w {};
    Outcome o = attempt([&] { w = get<W>(*v, how); });
    must(o != OTHEREX, "the conversion to a wrapper fails with another exception than json::exception");
    // an rvalue may be made a container where it is empty
    if (how != CAST_RVALUE || !v.is(STR | OBJ) || !is_empty(1)) must((o == DONE) == v.is(NUL | ARR), "the conversion to a wrapper succeeds exactly for null and its content");
    if (o == DONE && v.is(NUL)) must(!w, "null becomes an empty wrapper");
    if (o == DONE && v.is(ARR)) {
        must(!!w, "a value becomes a wrapper that is not empty");
        if (w) must(same_array(&*w, 1), "a wrapper holds the conversion of the value");
    }
}
#define F1(f, w, T, how) H(c20_##f##_##w##_##how) { f<w<T>>(how); }
#define F2(f, w, T) F1(f, w, T, LVALUE) F1(f, w, T, CONSTANT) F1(f, w, T, RVALUE) F1(f, w, T, CAST) F1(f, w, T, CAST_RVALUE)
#define F(f, T) F2(f, opt, T) F2(f, shp, T) F2(f, unp, T)
F(from_text, std::string)
F(from_number, int)
F(from_flag, bool)
F(from_array, json::array)
// is
template <class W, class T> void asked()
{
    Value v(1);
    must(attempt([&] {
        bool w = std::as_const(*v).is<W>(), t = std::as_const(*v).is<T>();
        must(w == (v.is(NUL) || t), "is<wrapper> is true exactly for null and what is<content> accepts");
    }) == DONE, "is<wrapper> does not throw");
    must(v.same(), "a query leaves the value as it was");
}
#define I(name, T) H(c20_is_opt_##name) { asked<opt<T>, T>(); } H(c20_is_shp_##name) { asked<shp<T>, T>(); } H(c20_is_unp_##name) { asked<unp<T>, T>(); }
I(int, int)
I(string, std::string)
I(bool, bool)
I(double, double)
I(array, json::array)
I(object, json::object)
// inside of other containers
H(c20_inside_pair)
{
    Text t(1);
    must(attempt([&] {
        std::pair<opt<std::string>, shp<int>> p { make<opt<std::string>>::of(*t), nullptr };
        json::value v(p);
        must(v.is_array() && v.as_array().size() == 2, "a pair becomes an array of two");
        must(v.as_array()[0].is_string() && same_text(v.as_array()[0].as_string_view()), "a wrapper in a pair becomes the value of its content");
        must(v.as_array()[1].is_null(), "an empty wrapper in a pair becomes null");
        must(p.first && same_string(&*p.first, 1), "the wrapper that was converted keeps its content");
        auto q = v.as<std::pair<opt<std::string>, shp<int>>>();
        must(q.first && same_string(&*q.first, 1), "a wrapper in a pair holds the conversion of the element");
        must(!q.second, "null in a pair becomes an empty wrapper");
    }) == DONE, "the conversion of wrappers inside of a pair succeeds");
}
