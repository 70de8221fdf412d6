// Do 32 bit programs build and run here?
#include <cmath>
#include <cstdio>
#include <iostream>
#include <stdexcept>
#include <string>
struct S {
  S() : n(3) {}
  int n;
} s;
int main(int argc, char**) {
  try {
    throw std::runtime_error(std::string("m32 ") + "works");
  } catch (std::exception const& e) {
    double const x = std::sin(double(argc));
    unsigned long long const q = (unsigned long long)1e18 / (unsigned long long)(argc + 6);
    if (s.n != 3 || !(x > 0.84 && x < 0.85) || q != 142857142857142857ull) return 1;
    std::cout << e.what() << ' ' << sizeof(void*) << std::endl;
  }
}
