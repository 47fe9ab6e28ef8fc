#pragma once
#include <json.hpp>
#define KIND(n) extern "C" { extern const int kind_##n = static_cast<int>(json::value::value_type::n); }
KIND(invalid) KIND(null) KIND(boolean) KIND(string) KIND(number) KIND(array) KIND(object)
