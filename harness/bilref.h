// Inverse bilinear mapping of a quad by Newton iteration in double precision.
#pragma once
#include "common.h"
// corners: P00 (y1,x1), P10 (y2,x1), P01 (y1,x2), P11 (y2,x2); solves for u (y direction), v (x direction)
inline bool inv_bilinear(double y0, double x0, const double py0[4], const double px0[4], double& u, double& v) {
    u = v = 0.5; double py[4], px[4], y = 0, x = 0;
    for(int k = 0; k < 4; k++) { py[k] = py0[k] - y0; px[k] = px0[k] - x0; }
    for(int it = 0; it < 60; it++) {
        double w00 = (1 - u) * (1 - v), w10 = u * (1 - v), w01 = (1 - u) * v, w11 = u * v;
        double fy = w00 * py[0] + w10 * py[1] + w01 * py[2] + w11 * py[3] - y, fx = w00 * px[0] + w10 * px[1] + w01 * px[2] + w11 * px[3] - x;
        double yu = (1 - v) * (py[1] - py[0]) + v * (py[3] - py[2]), xu = (1 - v) * (px[1] - px[0]) + v * (px[3] - px[2]);
        double yv = (1 - u) * (py[2] - py[0]) + u * (py[3] - py[1]), xv = (1 - u) * (px[2] - px[0]) + u * (px[3] - px[1]);
        double det = yu * xv - yv * xu; if(det == 0) return false;
        double du = (fy * xv - yv * fx) / det, dv = (yu * fx - fy * xu) / det;
        u -= du; v -= dv;
        if(std::fabs(du) + std::fabs(dv) < 1e-10) return true;
    }
    return false;
}
