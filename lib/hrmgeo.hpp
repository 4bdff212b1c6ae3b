// conversions from the library's public shape types to the oracle's
#pragma once
#include "geo.hpp"
#include "hrm/geometry/SuperEllipse.h"
#include "hrm/geometry/SuperQuadrics.h"
namespace geo {
inline SE2 of(const hrm::SuperEllipse& s) {
    return SE2{s.getSemiAxis().at(0), s.getSemiAxis().at(1), s.getEpsilon(), s.getPosition().at(0), s.getPosition().at(1), s.getAngle()};
}
inline Eigen::Matrix3d rotOf(const Eigen::Quaterniond& q) {   // the oracle's own quaternion to matrix
    double n = std::sqrt(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z());
    double w = q.w() / n, x = q.x() / n, y = q.y() / n, z = q.z() / n;
    Eigen::Matrix3d R;
    R << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
         2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
         2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
    return R;
}
inline SQ3 of(const hrm::SuperQuadrics& s) {
    return SQ3{s.getSemiAxis().at(0), s.getSemiAxis().at(1), s.getSemiAxis().at(2), s.getEpsilon().at(0), s.getEpsilon().at(1),
               V3(s.getPosition().at(0), s.getPosition().at(1), s.getPosition().at(2)), rotOf(s.getQuaternion())};
}
}  // namespace geo
