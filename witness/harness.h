// What the programs in p_*.cpp are written with.  They are never executed: json-ai interprets them with unknown values.
#pragma once
#include "common.h"
#include <array>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <tuple>
#include <unordered_map>
#include <vector>
extern "C" {
void nd_value(void* p, int kinds, int id);  // a value of one of the kinds, of which nothing else is known
void nd_array(void* p, int id);
void nd_object(void* p, int id);
void nd_string(void* p, int id);
bool nd_bool();
size_t nd_size(int id);
void must(bool condition, const char* what);
int kind_of(int id);
bool same_value(const void* p, int id);     // the value at p equals what id was made
bool same_array(const void* p, int id);
bool same_object(const void* p, int id);
bool same_string(const void* p, int id);
bool same_view(const void* p, int id);      // a string_view of the text of id
bool is_elem(const void* p, int id, size_t index);   // the value at p equals that element of the array id
bool is_member(const void* p, int id, int key);     // the value at p equals that member of the object id
bool is_concat(const void* p, int a, int b); // the array at p is a followed by b
bool is_merge(const void* p, int a, int b);  // the object at p has the members of both, those of b winning
bool consistent(const void* p);             // type and content of the value at p agree
bool apart(const void* p, const void* q);   // the two values share nothing
bool is_number(const void* p, int id, const char* type); // *p is the whole text of id read as that type
bool readable(int id, const char* type);    // the whole text of id can be read as that type
bool in_range(int id, size_t index);        // the array id has that element
bool has_size(int id, size_t n);
bool is_empty(int id);                      // text or container
bool has_key(int id, int key);
bool equal_content(int a, int b);           // texts or containers are equal
void freeze(const void* p);                 // from now on the value, array or object at p is only read, and so is static storage
void thaw(const void* p);
bool is_serial(const void* s, int id);       // the string at s is the JSON text of id, white space between the tokens aside
void nd_number(void* p, int id, const char* type); // a number of that arithmetic type
bool is_finite(int id);
bool json_number(const void* s);           // the string at s is a number of JSON
void failing(bool on);                      // allocations may fail
bool allocation_failed();
}
#define H(name) extern "C" void h_##name()
enum { NUL = 1, BOO = 2, STR = 4, NUM = 8, ARR = 16, OBJ = 32, ANY = 63 };
inline int bit(int id) { return 1 << kind_of(id); }
template <class T> union Raw { Raw() {} ~Raw() {} T v; };
struct Value
{
    Raw<json::value> r;
    int id;
    explicit Value(int n, int kinds = ANY) : id(n) { nd_value(&r.v, kinds, n); }
    ~Value() { r.v.~value(); }
    json::value& operator*() { return r.v; }
    json::value* operator->() { return &r.v; }
    bool is(int kinds) const { return bit(id) & kinds; }
    bool same() const { return same_value(&r.v, id); }
};
struct Text
{
    Raw<std::string> r;
    int id;
    explicit Text(int n) : id(n) { nd_string(&r.v, n); }
    ~Text() { r.v.~basic_string(); }
    std::string& operator*() { return r.v; }
    bool same() const { return same_string(&r.v, id); }
};
struct Array
{
    Raw<json::array> r;
    int id;
    explicit Array(int n) : id(n) { nd_array(&r.v, n); }
    ~Array() { r.v.~array(); }
    json::array& operator*() { return r.v; }
    json::array* operator->() { return &r.v; }
    bool same() const { return same_array(&r.v, id); }
};
struct Object
{
    Raw<json::object> r;
    int id;
    explicit Object(int n) : id(n) { nd_object(&r.v, n); }
    ~Object() { r.v.~object(); }
    json::object& operator*() { return r.v; }
    json::object* operator->() { return &r.v; }
    bool same() const { return same_object(&r.v, id); }
};
// runs f; what it must not do is end with anything but json::exception
enum Outcome { DONE, JSONEX, OTHEREX };
template <class F> inline Outcome attempt(F f)
{
    try { f(); return DONE; }
    catch (const json::exception&) { return JSONEX; }
    catch (...) { return OTHEREX; }
}
