ID = 'c13-interior-waypoints'
PROPERTY = 'C13'
NEEDS = 'a segment constraint over three or more waypoints'
BREAKS = 'a segment constraint is recorded at the end waypoints but not at those between them'
EDITS = [('include/trajopt/path/SwervePathBuilder.hpp', '    for (size_t index = fromIndex + 1; index <= toIndex; ++index) {\n      path.waypoints.at(index).waypointConstraints.push_back(constraint);', '    path.waypoints.at(toIndex).waypointConstraints.push_back(constraint);\n    for (size_t index = fromIndex + 1; index <= toIndex; ++index) {')]
COUNT = 1
DEMO = r'''#include "kit.hpp"
#include <trajopt/constraint/AngularVelocityMaxMagnitudeConstraint.hpp>
int main() {
  for (size_t to = 1; to <= 3; to++) {
    SwervePathBuilder b;
    b.WptInitialGuessPoint(3, {0, 0, {0}});
    b.SgmtConstraint(0, to, AngularVelocityMaxMagnitudeConstraint{1});
    for (size_t w = 0; w <= 3; w++) {
      CHECK(b.GetPath().waypoints.at(w).waypointConstraints.size() == (w <= to), "waypoint %zu of 0..%zu", w, to);
      CHECK(b.GetPath().waypoints.at(w).segmentConstraints.size() == (w >= 1 && w <= to), "segment before %zu of 0..%zu", w, to);
    }
  }
}
'''
