#include "alg.h"
#include "gwmodelpp/GTWR.h"
using namespace vh; using namespace gwm;
using arma::mat; using arma::vec;
namespace {
struct Gtwr : GTWR {
    void prepare() { createDistanceParameter(); mStdistance = mSpatialWeight.distance<CRSSTDistance>(); }
};
struct Mix : CRSSTDistance { static double of(const CRSSTDistance& d) { return d.*(&Mix::mLambda); } };
struct GtwrAdaptor : Adaptor {
    Gtwr a;
    Op all_;
    Algorithm& alg() override { return a; }
    void set(const Op& c, const Op& all, const Data& d) override
    {
        all_ = all;
        if (data_changed(c)) { a.setCoords(d.coords, d.t); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); }
        if (any(c, { "icpt" }) || data_changed(c)) a.setHasIntercept(all.i("icpt", 1));
        if (weight_changed(c)) { Op q = all; q.a["dk"] = "st"; a.setSpatialWeight(weight_of(q)); }
        if (any(c, { "hat" })) a.setHasHatMatrix(all.i("hat", 1));
        if (any(c, { "auto" })) a.setIsAutoselectBandwidth(all.i("auto"));
        if (any(c, { "alam" })) a.setIsAutoselectLambda(all.i("alam"));
        set_parallel(a, c, all);
        if (any(c, { "crit" })) a.setBandwidthSelectionCriterion(all.s("crit") == "AIC" ? GTWR::AIC : GTWR::CV);
    }
    void call(const std::string& what, const Op& o, const Data& d, Results& r) override
    {
        if (what == "fit") {
            mat b = a.fit(); r.add("ret", b); r.add("betas", a.betas()); r.add("se", a.betasSE()); r.add("shat", a.sHat()); r.add("q", a.qDiag());
            r.add("S", a.s()); r.diag(a.diagnostic());
            auto w = a.spatialWeight().weight<BandwidthWeight>(); r.num("bw", w->bandwidth()); r.num("bwad", w->adaptive());
            r.num("lambda", Mix::of(*a.spatialWeight().distance<CRSSTDistance>()));
            if (all_.i("auto")) r.add("bwlist", bw_list(a.bandwidthSelectionCriterionList()));
        }
        else if (what == "predict") {
            mat loc = o.has("same") ? d.coords : make_points(all_.s("pts", "uni"), locations_of(o, d), o.i("ls", 1) + 1000);
            r.add("loc", loc); mat b = a.predict(loc); r.add("ret", b); r.add("betas", a.betas());
        }
        else if (what == "crit") {
            BandwidthWeight w(o.d("cbw"), all_.i("ad", 1), kernel_of(all_.s("kern", "gaussian")));
            a.prepare();
            double v = 0; static_cast<IBandwidthSelectable&>(a).getCriterion(&w, v);
            r.num("score", v); r.num("bw", a.spatialWeight().weight<BandwidthWeight>()->bandwidth());
            r.num("nx", (double)a.independentVariables().n_cols);
        }
        else if (what == "valid") r.num("valid", a.isValid());
    }
};
Register r1("gtwr", [] { return std::unique_ptr<Adaptor>(new GtwrAdaptor()); });
}
