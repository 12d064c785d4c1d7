#include "alg.h"
#include "gwmodelpp/GWRScalable.h"
using namespace vh; using namespace gwm;
using arma::mat; using arma::vec;
namespace {
struct ScalAdaptor : Adaptor {
    GWRScalable a;
    Op all_;
    Algorithm& alg() override { return a; }
    void set(const Op& c, const Op& all, const Data& d) override
    {
        all_ = all;
        if (data_changed(c)) { a.setCoords(d.coords); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); }
        if (any(c, { "icpt" }) || data_changed(c)) a.setHasIntercept(all.i("icpt", 1));
        if (weight_changed(c)) a.setSpatialWeight(weight_of(all));
        if (any(c, { "hat" })) a.setHasHatMatrix(all.i("hat", 1));
        if (any(c, { "poly" })) a.setPolynomial(all.i("poly", 4));
        if (any(c, { "crit" })) a.setParameterOptimizeCriterion(all.s("crit") == "AIC" ? GWRScalable::AIC : GWRScalable::CV);
    }
    void call(const std::string& what, const Op& o, const Data& d, Results& r) override
    {
        if (what == "fit") {
            mat b = a.fit(); r.add("ret", b); r.add("betas", a.betas()); r.diag(a.diagnostic());
            r.num("scale", a.scale()); r.num("penalty", a.penalty()); r.num("cv", a.cv());
            r.num("bw", a.spatialWeight().weight<BandwidthWeight>()->bandwidth());
        }
        else if (what == "predict") {
            mat loc = o.has("same") ? d.coords : make_points(all_.s("pts", "uni"), locations_of(o, d), o.i("ls", 1) + 1000);
            r.add("loc", loc);
            auto found = [&] { r.num("scale", a.scale()); r.num("penalty", a.penalty()); r.num("cv", a.cv()); };
            mat b;
            try { b = a.predict(loc); } catch (...) { found(); throw; }   // the parameters are found before the systems are solved
            r.add("ret", b); r.add("betas", a.betas()); found();
        }
        else if (what == "valid") r.num("valid", a.isValid());
    }
};
Register r1("scal", [] { return std::unique_ptr<Adaptor>(new ScalAdaptor()); });
}
