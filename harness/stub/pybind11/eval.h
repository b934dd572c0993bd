#pragma once
#include "pybind11.h"
namespace pybind11
{
// an evaluated expression is kept as its source text
template <typename... A> inline object eval(const std::string &text, A &&...)
{
    object o;
    char *c = new char[text.size() + 1];
    std::memcpy(c, text.c_str(), text.size() + 1);
    o.v.k = stub::STR; o.v.s = c;
    return o;
}
template <typename... A> inline object exec(const char *, A &&...) { return object(); }
}
