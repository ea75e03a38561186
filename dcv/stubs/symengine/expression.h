// Verification stand-in for SymEngine (not installed): keeps the string.
#ifndef DCV_SYMENGINE_STUB
#define DCV_SYMENGINE_STUB
#include <iostream>
#include <string>
namespace SymEngine {
struct Expression {
    Expression() {}
    Expression(const std::string &s) : m_s(s) {}
    friend std::ostream &operator<<(std::ostream &os, const Expression &e) { return os << e.m_s; }
    std::string m_s;
};
}
#endif
