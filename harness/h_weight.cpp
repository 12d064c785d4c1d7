// Kernel weights and distance objects (C01, C02).
#include "weightlib.h"
using namespace vh; using namespace gwm; using namespace arma;

static bool bad_make(Distance& d, const std::string& kind, const std::string& how)
{
    mat p2 = make_points("uni", 4, 1), p3(4, 3, fill::ones), p1(4, 1, fill::ones), p2b = make_points("uni", 3, 2);
    vec t = make_times(4, 1), t3 = make_times(3, 1);
    try {
        if (how == "none") d.makeParameter({});
        else if (how == "one") { if (kind == "one") d.makeParameter({ t }); else d.makeParameter({ p2 }); }
        else if (how == "three") { if (kind == "one") d.makeParameter({ t, t, t }); else d.makeParameter({ p2, p2, t }); }
        else if (how == "five") d.makeParameter({ p2, p2, t, t, t });
        else if (how == "type") {
            if (kind == "one") d.makeParameter({ p2, p2 });
            else if (kind == "st") d.makeParameter({ t, t, p2, p2 });
            else d.makeParameter({ t, t });
        }
        else if (how == "cols3" || how == "cols1") {
            const mat& p = how == "cols3" ? p3 : p1;
            if (kind == "one") d.makeParameter({ p, p });
            else if (kind == "st") d.makeParameter({ p, p, t, t });
            else d.makeParameter({ p2, p });
        }
        else if (how == "rows") {
            if (kind == "st") d.makeParameter({ p2, p2, t, t3 });
            else if (kind == "one") d.makeParameter({ t, p2 });
            else d.makeParameter({ p3, p2b });
        }
    }
    catch (const std::exception&) { return true; }
    return false;
}

void vh::run_scenario(const std::vector<Op>& ops)
{
    std::unique_ptr<Distance> d; std::string kind; size_t nf = 0;
    for (auto& o : ops) {
        if (o.name == "new") {
            kind = o.s("kind"); d = make_distance(o); nf = 0;
            J j = ev("new"); describe_distance(j, o); emit(j);
        }
        else if (o.name == "make") {
            Points q = points_for(kind, o); bool threw = false;
            try { give_points(*d, kind, q); } catch (const std::exception&) { threw = true; }
            nf = kind == "one" ? q.ft.n_elem : q.fp.n_rows;
            J j = ev("make"); j.b("threw", threw); describe_points(j, q); emit(j);
        }
        else if (o.name == "badmake") {
            J j = ev("badmake"); j.b("threw", bad_make(*d, kind, o.s("how"))); emit(j);
        }
        else if (o.name == "set") {
            std::string w = o.s("what"); bool threw = false;
            try {
                if (w == "geo") static_cast<CRSDistance&>(*d).setGeographic(o.i("v"));
                else if (w == "ord") static_cast<MinkwoskiDistance&>(*d).setPoly(o.d("v"));
                else if (w == "theta") static_cast<MinkwoskiDistance&>(*d).setTheta(o.d("v"));
                else if (w == "lambda") static_cast<CRSSTDistance&>(*d).setLambda(o.d("v"));
            } catch (const std::exception&) { threw = true; }
            J j = ev("set"); j.t("what", w).d("v", o.d("v")).b("b", o.i("v")).b("threw", threw); emit(j);
        }
        else if (o.name == "clone") {
            std::unique_ptr<Distance> c(d->clone()); d = std::move(c);
            emit(ev("clone"));
        }
        else if (o.name == "dist") {
            bool threw = false; vec v;
            try { v = d->distance(o.i("f")); } catch (const std::exception&) { threw = true; }
            J j = ev("dist"); j.i("f", o.i("f")).b("threw", threw).v("v", v); emit(j);
        }
        else if (o.name == "max" || o.name == "min") {
            bool mx = o.name == "max", threw = false; double v = 0, own = 0;
            try { v = mx ? d->maxDistance() : d->minDistance(); } catch (const std::exception&) { threw = true; }
            if (!threw) {
                bool first = true;
                for (size_t f = 0; f < nf; f++) { vec x = d->distance(f); double e = mx ? x.max() : x.min(); if (first || (mx ? e > own : e < own)) own = e; first = false; }
            }
            J j = ev(o.name); j.b("threw", threw).d("v", v).d("own", own); emit(j);
        }
        else if (o.name == "w") {
            vec dv = o.v("d");
            if (o.has("n")) {
                Rng r(o.i("seed")); dv.set_size(o.i("n"));
                double sc = o.d("scale", 1);
                for (auto& x : dv) { int c = r.k(8); x = sc * (c == 0 ? 0.0 : c == 1 ? 1.0 : c == 2 ? r.k(4) : c == 3 ? std::pow(10, r.u(-6, 3)) : r.u(0, 10)); }
            }
            BandwidthWeight w(o.d("bw"), o.i("ad"), kernel_of(o.s("k")));
            vec x = w.weight(dv);
            J j = ev("w"); j.t("k", o.s("k")).b("ad", o.i("ad")).d("bw", o.d("bw")).v("d", dv).v("w", x); emit(j);
        }
        else if (o.name == "sw") {
            // weights of a whole configuration over recorded distances of its own distance object
            std::unique_ptr<Distance> dd = make_distance(o); Points q = points_for(o.s("kind"), o);
            give_points(*dd, o.s("kind"), q);
            BandwidthWeight w(o.d("bw"), o.i("ad"), kernel_of(o.s("k")));
            SpatialWeight sw(&w, dd.get());
            size_t n = o.s("kind") == "one" ? q.ft.n_elem : q.fp.n_rows;
            for (size_t f = 0; f < n; f++) {
                vec x = sw.weightVector(f);
                J j = ev("w"); j.t("k", o.s("k")).b("ad", o.i("ad")).d("bw", o.d("bw")).v("d", dd->distance(f)).v("w", x); emit(j);
            }
        }
    }
}
