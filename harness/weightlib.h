// Distance and weight objects from scenario operations.
#pragma once
#include "data.h"
#include "gwmodelpp/spatialweight/SpatialWeight.h"
#include <memory>
namespace vh {
using namespace gwm;

inline BandwidthWeight::KernelFunctionType kernel_of(const std::string& k)
{
    if (k == "gaussian") return BandwidthWeight::Gaussian;
    if (k == "exponential") return BandwidthWeight::Exponential;
    if (k == "bisquare") return BandwidthWeight::Bisquare;
    if (k == "tricube") return BandwidthWeight::Tricube;
    return BandwidthWeight::Boxcar;
}
inline std::string kernel_name(BandwidthWeight::KernelFunctionType k)
{
    switch (k) {
    case BandwidthWeight::Gaussian: return "gaussian";
    case BandwidthWeight::Exponential: return "exponential";
    case BandwidthWeight::Bisquare: return "bisquare";
    case BandwidthWeight::Tricube: return "tricube";
    case BandwidthWeight::Boxcar: return "boxcar";
    }
    return "unknown";
}
inline std::unique_ptr<Distance> make_distance(const Op& o)
{
    std::string kind = o.s("kind");
    bool geo = o.i("geo");
    if (kind == "crs") return std::make_unique<CRSDistance>(geo);
    if (kind == "mink") return std::make_unique<MinkwoskiDistance>(o.d("ord", 2), o.d("theta", 0));
    if (kind == "one") return std::make_unique<OneDimDistance>();
    if (kind == "st") {
        std::unique_ptr<Distance> sp;
        if (o.s("sp") == "mink") sp = std::make_unique<MinkwoskiDistance>(o.d("ord", 2), o.d("theta", 0));
        else sp = std::make_unique<CRSDistance>(geo);
        OneDimDistance tm;
        if (o.has("angle")) return std::make_unique<CRSSTDistance>(sp.get(), &tm, o.d("lambda"), o.d("angle"));
        return std::make_unique<CRSSTDistance>(sp.get(), &tm, o.d("lambda"));
    }
    return nullptr;
}
// the description of a freshly made distance object, for the trace
inline J& describe_distance(J& j, const Op& o)
{
    bool ob = o.has("angle") && std::fabs(o.d("angle") - 1.5707963267948966) > 1e-12;
    return j.t("kind", o.s("kind")).b("geo", o.i("geo")).d("ord", o.d("ord", 2)).d("theta", o.d("theta", 0)).t("sp", o.s("sp", "crs"))
        .d("lambda", o.d("lambda", 0)).d("angle", o.d("angle", 0)).b("oblique", ob);
}
struct Points { arma::mat fp, dp; arma::vec ft, dt; };
inline Points points_for(const std::string& kind, const Op& o)
{
    Points q;
    int n = o.i("n"), m = o.i("m"); uint64_t seed = o.i("seed", 1);
    std::string pk = o.s("pts", "uni");
    q.fp = make_points(pk, n, seed);
    if (m == 0) q.dp = q.fp; else q.dp = make_points(pk, kind == "st" ? n : std::max(1, n + m), seed + 50);
    q.ft = make_times(q.fp.n_rows, seed);
    q.dt = m == 0 ? q.ft : make_times(q.dp.n_rows, seed + 9);
    if (kind == "one") { q.ft = q.fp.col(0); q.dt = q.dp.col(0); q.fp.reset(); q.dp.reset(); }
    else if (kind != "st") { q.ft.reset(); q.dt.reset(); }
    return q;
}
inline void give_points(Distance& d, const std::string& kind, const Points& q)
{
    if (kind == "one") d.makeParameter({ q.ft, q.dt });
    else if (kind == "st") d.makeParameter({ q.fp, q.dp, q.ft, q.dt });
    else d.makeParameter({ q.fp, q.dp });
}
inline J& describe_points(J& j, const Points& q) { return j.m("fp", q.fp).m("dp", q.dp).v("ft", q.ft).v("dt", q.dt); }
}
