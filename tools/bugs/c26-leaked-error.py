ID = 'c26-leaked-error'
PROPERTY = 'C26'
NEEDS = 'assigning a success to a result without value type that holds an error with resources'
BREAKS = 'the error is not destroyed, so its resources leak'
EDITS = [('include/trajopt/util/expected', '      if (rhs.m_has_val) {\n        geterr().~unexpected<E>();\n        construct();', '      if (rhs.m_has_val) {\n        construct();')]
COUNT = 1
DEMO = r'''#include <cstdio>
#include <trajopt/util/expected>
static int live;
struct Err { Err(int) { live++; } Err(const Err&) { live++; } ~Err() { live--; } Err& operator=(const Err&) = default; };
int main() {
  {
    trajopt::expected<void, Err> a(trajopt::unexpect, 1), b;
    a = b;
    if (!a.has_value()) return 1;
  }
  std::printf("%d alive\n", live);
  return live != 0;
}
'''
LITE = True
SH = r'''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
g++ -std=c++20 -O1 -w -Iinclude "$here/demo.cpp" -o "$t/demo"
rc=$?
if [ $rc = 0 ]; then timeout 60 "$t/demo"; rc=$?; fi
rm -f "$t/demo"
rmdir "$t"
exit $rc
'''
