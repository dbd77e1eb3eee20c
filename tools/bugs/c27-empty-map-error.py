ID = 'c27-empty-map-error'
PROPERTY = 'C27'
NEEDS = 'map_error on an expected<void, E> that holds a value'
BREAKS = 'a success turns into an error holding a default'
EDITS = [('include/trajopt/util/expected', '  return exp.has_value()\n             ? result()\n             : result(unexpect, detail::invoke(std::forward<F>(f),\n                                               std::forward<Exp>(exp).error()));\n}\ntemplate <class Exp, class F,\n          detail::enable_if_t<std::is_void<exp_t<Exp>>::value>* = nullptr,\n          class Ret = decltype(detail::invoke(std::declval<F>(),\n                                              std::declval<Exp>().error())),\n          detail::enable_if_t<std::is_void<Ret>::value>* = nullptr>\nauto map_error_impl(Exp&& exp, F&& f) {\n  using result = expected<exp_t<Exp>, monostate>;\n  if (exp.has_value()) {\n    return result();\n  }\n\n  detail::invoke(std::forward<F>(f), std::forward<Exp>(exp).error());\n  return result(unexpect, monostate{});', '  return exp.has_value()\n             ? result()\n             : result(unexpect, detail::invoke(std::forward<F>(f),\n                                               std::forward<Exp>(exp).error()));\n}\ntemplate <class Exp, class F,\n          detail::enable_if_t<std::is_void<exp_t<Exp>>::value>* = nullptr,\n          class Ret = decltype(detail::invoke(std::declval<F>(),\n                                              std::declval<Exp>().error())),\n          detail::enable_if_t<std::is_void<Ret>::value>* = nullptr>\nauto map_error_impl(Exp&& exp, F&& f) {\n  using result = expected<exp_t<Exp>, monostate>;\n  if (!exp.has_value()) {\n    detail::invoke(std::forward<F>(f), std::forward<Exp>(exp).error());\n  }\n  return result(unexpect, monostate{});')]
COUNT = 1
DEMO = r'''#include <cstdio>
#include <trajopt/util/expected>
int main() {
  trajopt::expected<void, int> a;
  int calls = 0;
  auto b = a.map_error([&](int) { calls++; });
  return !(b.has_value() && calls == 0);
}
'''
LITE = True
SH = r'''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
g++ -std=c++20 -O1 -w -Iinclude "$here/demo.cpp" -o "$t/demo"
rc=$?
if [ $rc = 0 ]; then timeout 60 "$t/demo"; rc=$?; fi
rm -f "$t/demo"
rmdir "$t"
exit $rc
'''
