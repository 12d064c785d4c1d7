#include "alg.h"
#include "gwmodelpp/GWRLocalCollinearity.h"
using namespace vh; using namespace gwm;
using arma::mat; using arma::vec;
namespace {
struct LcrAdaptor : Adaptor {
    GWRLocalCollinearity a;
    Op all_;
    Algorithm& alg() override { return a; }
    void set(const Op& c, const Op& all, const Data& d) override
    {
        all_ = all;
        if (data_changed(c)) { a.setCoords(d.coords); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); }
        if (any(c, { "icpt" }) || data_changed(c)) a.setHasIntercept(all.i("icpt", 1));
        if (weight_changed(c)) a.setSpatialWeight(weight_of(all));
        if (any(c, { "hat" })) a.setHasHatMatrix(all.i("hat", 1));
        if (any(c, { "ridge" })) a.setLambda(all.d("ridge"));
        if (any(c, { "adj" })) a.setLambdaAdjust(all.i("adj"));
        if (any(c, { "cn" })) a.setCnThresh(all.d("cn"));
        if (any(c, { "auto" })) a.setIsAutoselectBandwidth(all.i("auto"));
        set_parallel(a, c, all);
        if (any(c, { "crit", "par" })) a.setBandwidthSelectionCriterion(GWRLocalCollinearity::CV);
    }
    void call(const std::string& what, const Op& o, const Data& d, Results& r) override
    {
        if (what == "fit") {
            mat b = a.fit(); r.add("ret", b); r.add("betas", a.betas()); r.diag(a.dialnostic());
            auto w = a.spatialWeight().weight<BandwidthWeight>(); r.num("bw", w->bandwidth()); r.num("bwad", w->adaptive());
            if (all_.i("auto")) r.add("bwlist", bw_list(a.bandwidthSelectionCriterionList()));
        }
        else if (what == "predict") {
            mat loc = o.has("same") ? d.coords : make_points(all_.s("pts", "uni"), locations_of(o, d), o.i("ls", 1) + 1000);
            r.add("loc", loc); mat b = a.predict(loc); r.add("ret", b); r.add("betas", a.betas());
        }
        else if (what == "crit") {
            BandwidthWeight w(o.d("cbw"), all_.i("ad", 1), kernel_of(all_.s("kern", "gaussian")));
            a.createDistanceParameter();
            double v = 0; static_cast<IBandwidthSelectable&>(a).getCriterion(&w, v);
            r.num("score", v); r.num("bw", a.spatialWeight().weight<BandwidthWeight>()->bandwidth());
            r.num("nx", (double)a.independentVariables().n_cols);
        }
        else if (what == "valid") r.num("valid", a.isValid());
    }
};
Register r1("lcr", [] { return std::unique_ptr<Adaptor>(new LcrAdaptor()); });
}
