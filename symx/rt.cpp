// Definitions of libstdc++ out-of-line functions for the symbolic executor.
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <variant>
#include <system_error>

static const char* dupz(const char* s) {
  size_t n = 0;
  while (s[n]) ++n;
  char* p = (char*)malloc(n + 1);
  for (size_t i = 0; i <= n; i++) p[i] = s[i];
  return p;
}
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

__cow_string::__cow_string() : _M_p(dupz("")) {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupz(s.c_str())) {}
__cow_string::__cow_string(const char* s, size_t) : _M_p(dupz(s)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupz(o._M_p)) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = dupz(o._M_p); return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }

logic_error::logic_error(const char* s) : _M_msg(s, 0) {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
domain_error::domain_error(const char* s) : logic_error(s) {}
domain_error::domain_error(const string& s) : logic_error(s) {}
domain_error::~domain_error() noexcept {}
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::invalid_argument(const string& s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
length_error::length_error(const char* s) : logic_error(s) {}
length_error::length_error(const string& s) : logic_error(s) {}
length_error::~length_error() noexcept {}
out_of_range::out_of_range(const char* s) : logic_error(s) {}
out_of_range::out_of_range(const string& s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
range_error::range_error(const char* s) : runtime_error(s) {}
range_error::range_error(const string& s) : runtime_error(s) {}
range_error::~range_error() noexcept {}
overflow_error::overflow_error(const char* s) : runtime_error(s) {}
overflow_error::overflow_error(const string& s) : runtime_error(s) {}
overflow_error::~overflow_error() noexcept {}

void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
}  // namespace std
