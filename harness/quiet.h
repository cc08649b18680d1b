// std::cout without output: include before the code under test
#pragma once
#include <iomanip>
#include <iostream>
namespace std {
struct sx_null_t
{
  template<class T> sx_null_t & operator<<(const T &) { return *this; }
  sx_null_t & operator<<(ostream & (*)(ostream &)) { return *this; }
  sx_null_t & operator<<(ios_base & (*)(ios_base &)) { return *this; }
};
static sx_null_t sx_null;
}  // namespace std
#define cout sx_null
#define cerr sx_null
