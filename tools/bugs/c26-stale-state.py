ID = 'c26-stale-state'
PROPERTY = 'C26'
NEEDS = 'assigning a plain value, whose copy may throw, to a result that holds an error'
BREAKS = 'the result still says that it holds an error, and later destroys the value as one'
EDITS = [('include/trajopt/util/expected', '      try {\n        ::new (valptr()) T(std::forward<U>(v));\n        this->m_has_val = true;\n      } catch', '      try {\n        ::new (valptr()) T(std::forward<U>(v));\n      } catch')]
COUNT = 1
DEMO = r'''#include <cstdio>
#include <string>
#include <trajopt/util/expected>
int main() {
  trajopt::expected<std::string, int> a(trajopt::unexpect, 3);
  std::string s = "x";
  a = s;
  return !(a.has_value() && *a == "x");
}
'''
LITE = True
SH = r'''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
g++ -std=c++20 -O1 -w -Iinclude "$here/demo.cpp" -o "$t/demo"
rc=$?
if [ $rc = 0 ]; then timeout 60 "$t/demo"; rc=$?; fi
rm -f "$t/demo"
rmdir "$t"
exit $rc
'''
