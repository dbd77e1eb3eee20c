ID = 'c04-leftover-intervals'
PROPERTY = 'C04'
NEEDS = 'a segment whose interval count is not a multiple of its number of guess points'
BREAKS = "the last piece of a segment's guess is as short as the others, so the guess has too few entries"
EDITS = [('include/trajopt/util/GenerateLinearInitialGuess.hpp', 'size_t N_lastGuessSgmt = N_sgmt - (guessPointCount - 1) * N_guessSgmt;', 'size_t N_lastGuessSgmt = N_guessSgmt;')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
int main() {
  for (size_t n : {4, 5, 6}) {
    SwervePathBuilder b;
    b.SetDrivetrain(drivetrain());
    b.PoseWpt(0, 0, 0, 0);
    b.PoseWpt(1, 4, 2, 1);
    b.SgmtInitialGuessPoints(0, {Pose2d{1, 2, {0.5}}});
    b.ControlIntervalCounts(std::vector<size_t>{n});
    auto g = b.CalculateInitialGuess();
    for (auto* q : {&g.x, &g.y, &g.thetacos, &g.thetasin}) CHECK(q->size() == n + 1, "%zu intervals: %zu entries", n, q->size());
    CHECK(near(g.x.back(), 4) && near(g.y.back(), 2));
  }
}
'''
