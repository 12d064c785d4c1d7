// Deterministic point sets and data sets used by the harnesses.
#pragma once
#include "common.h"
namespace vh {

inline arma::mat make_points(const std::string& kind, int n, uint64_t seed)
{
    Rng r(seed * 1000003ull + n);
    arma::mat p(n, 2);
    for (int i = 0; i < n; i++) {
        double x = r.u(0, 10), y = r.u(0, 10);
        if (kind == "lattice") { int w = n < 5 ? 2 : (n < 20 ? 4 : 7); x = i % w; y = i / w; }
        else if (kind == "line") { x = r.k(12) * 0.5; y = 2 * x + 1; }
        else if (kind == "dup") { x = r.k(3); y = r.k(3); }
        else if (kind == "big") { x = 500000 + r.u(0, 1000); y = 200000 + r.u(0, 1000); }
        else if (kind == "neg") { x = r.u(-7, 3); y = r.u(-4, 9); }
        else if (kind == "clu") { double cx = r.k(3) * 4.0, cy = r.k(2) * 5.0; x = cx + r.u(0, 1); y = cy + r.u(0, 1); }
        else if (kind == "far" && i == n - 1) { x = 40 + r.u(0, 1); y = 45; }
        else if (kind == "mid" && i == n / 2) { x = 40 + r.u(0, 1); y = 45; }
        else if (kind == "geo") { x = r.u(-170, 170) / 2; y = r.u(-75, 75); }
        else if (kind == "geoloc") { x = 114 + r.u(0, 1); y = 30 + r.u(0, 1); if (r.k(6) == 0 && i > 0) { x = p(i - 1, 0); y = p(i - 1, 1); } }
        else if (kind == "globe") { x = r.u(-180, 180); y = r.u(-90, 90); }
        else if (kind == "dateline") { const double xs[] = { 180, -180, 179.5, -179.5, 178 }; x = xs[r.k(5)]; y = r.k(3) * 10.0; }
        p(i, 0) = x; p(i, 1) = y;
    }
    return p;
}
inline arma::vec make_times(int n, uint64_t seed, const std::string& kind = "mix")
{
    Rng r(seed * 7777ull + 5 + n);
    arma::vec t(n);
    for (int i = 0; i < n; i++) t(i) = kind == "same" ? 3.0 : kind == "int" ? r.k(5) : (r.k(3) == 0 ? (double)r.k(4) : r.u(0, 5));
    return t;
}
}
