ID = 'c26-swapped-back'
PROPERTY = 'C26'
NEEDS = 'swapping a value whose move may throw with an error, and no exception'
BREAKS = 'the moved-from value stays in place when the error moves in, so it is never destroyed'
EDITS = [('include/trajopt/util/expected', '      ::new (rhs.valptr()) T(std::move(val()));\n      val().~T();\n      ::new (errptr()) unexpected_type(std::move(temp));', '      ::new (rhs.valptr()) T(std::move(val()));\n      ::new (errptr()) unexpected_type(std::move(temp));')]
COUNT = 1
DEMO = r'''#include <cstdio>
#include <trajopt/util/expected>
static int live;
struct Val { Val() { live++; } Val(const Val&) noexcept(false) { live++; } ~Val() { live--; } Val& operator=(const Val&) = default; };
int main() {
  {
    trajopt::expected<Val, int> a, b(trajopt::unexpect, 3);
    a.swap(b);
    if (a.has_value() || !b.has_value() || a.error() != 3) return 1;
  }
  std::printf("%d alive\n", live);
  return live != 0;
}
'''
LITE = True
SH = r'''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
g++ -std=c++20 -O1 -w -Iinclude "$here/demo.cpp" -o "$t/demo"
rc=$?
if [ $rc = 0 ]; then timeout 60 "$t/demo"; rc=$?; fi
rm -f "$t/demo"
rmdir "$t"
exit $rc
'''
