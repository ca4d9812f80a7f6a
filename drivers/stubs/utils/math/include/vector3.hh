// Stand-in for JEOD's Vector3 (not available here): only what LineSegmentIntersect uses, semantics per JEOD.
#ifndef VERIF_VECTOR3
#define VERIF_VECTOR3
#include <cmath>
struct Vector3 {
    static void cross(const double a[3], const double b[3], double d[3]) { d[0] = a[1] * b[2] - a[2] * b[1]; d[1] = a[2] * b[0] - a[0] * b[2]; d[2] = a[0] * b[1] - a[1] * b[0]; }
    static double dot(const double a[3], const double b[3]) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
    static void diff(const double a[3], const double b[3], double d[3]) { for (int i = 0; i < 3; ++i) d[i] = a[i] - b[i]; }
    static double vmag(const double a[3]) { return std::sqrt(dot(a, a)); }
    static void scale(double s, double d[3]) { for (int i = 0; i < 3; ++i) d[i] *= s; }
};
#endif
