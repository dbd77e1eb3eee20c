// C01: flattened sample index.
#include "sym.hpp"
#include <stdexcept>
#include <vector>
#include <trajopt/util/TrajoptUtil.hpp>
using trajopt::GetIndex;
#if THOROUGH
constexpr int MAXSEG = 9;
#else
constexpr int MAXSEG = 5;
#endif
static std::vector<size_t> counts() {
  size_t n = sym_choice("segments", 0, MAXSEG);
  std::vector<size_t> N;
  N.reserve(n);
  for (size_t i = 0; i < n; i++) N.push_back(sym_u64("count"));
  return N;
}
SYM_CASE(c01_value) {
  auto N = counts();
  if (N.size() % 2) {  // earlier calls do not matter
    std::vector<size_t> other{9, 4, 7};
    GetIndex(other, 3, 2);
    std::vector<size_t> same(N.size(), 6);
    GetIndex(same, N.size(), 1);
  }
  auto copy = N;
  size_t w = sym_u64("wpt"), s = sym_u64("samp");
  bool threw = false;
  size_t got = 0;
  try {
    got = GetIndex(N, w, s);
  } catch (const std::out_of_range&) {
    threw = true;
  }
  sym_check(sym_iff(threw, w > N.size() + 1), "out_of_range_exactly_when_too_few_segments");
  if (!threw) {
    size_t ref = s;
    for (size_t k = 0; k < copy.size(); k++) ref += sym_ite_u64(k + 2 <= w, copy[k], 0);
    ref += sym_ite_u64(w > 0, 1, 0);
    sym_check(got == ref, "value");
    sym_reach("value");
  } else {
    sym_reach("throw");
  }
  for (size_t k = 0; k < copy.size(); k++) sym_check(N[k] == copy[k], "argument_unchanged");
}
SYM_CASE(c01_gapfree) {
  auto N = counts();
  size_t total = 1;
  for (auto c : N) {
    sym_assume(c < (1ull << 40));
    total += c;
  }
  // segments are contiguous, in order, start right after sample 0
  size_t at = 1;
  for (size_t w = 1; w <= N.size(); w++) {
    sym_check(GetIndex(N, w, 0) == at, "segment_starts_where_the_previous_ended");
    size_t s = sym_u64("s");
    sym_assume(s < N[w - 1]);
    size_t i = GetIndex(N, w, s);
    sym_check(i - at == s, "numbered_consecutively_inside_the_segment");
    at += N[w - 1];
    sym_check(GetIndex(N, w, N[w - 1] - 1) + 1 == GetIndex(N, w + 1, 0), "last_sample_before_next_segment");
  }
  sym_check(GetIndex(N, N.size() + 1, 0) == total, "one_past_last_is_total");
  sym_check(GetIndex(N, 0, 0) == 0, "first_sample");
  sym_check(GetIndex(N, 0) == 0, "default_sample");
  sym_reach("end");
}
