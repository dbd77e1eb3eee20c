ID = 'c27-value-first'
PROPERTY = 'C27'
NEEDS = 'comparing a plain value with a result that holds an error, the value on the left'
BREAKS = 'the error state compares as equal to the error payload instead of different from every value'
EDITS = [('include/trajopt/util/expected', 'constexpr bool operator!=(const U& v, const expected<T, E>& x) {\n  return x.has_value() ? *x != v : true;', 'constexpr bool operator!=(const U& v, const expected<T, E>& x) {\n  return x.has_value() ? *x != v : false;')]
COUNT = 1
DEMO = r'''#include <cstdio>
#include <string>
#include <trajopt/util/expected>
int main() {
  trajopt::expected<int, std::string> a(trajopt::unexpect, "no");
  const int one = 1;
  return !(a != one && one != a);
}
'''
LITE = True
SH = r'''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
g++ -std=c++20 -O1 -w -Iinclude "$here/demo.cpp" -o "$t/demo"
rc=$?
if [ $rc = 0 ]; then timeout 60 "$t/demo"; rc=$?; fi
rm -f "$t/demo"
rmdir "$t"
exit $rc
'''
