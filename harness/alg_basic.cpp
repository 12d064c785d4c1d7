#include "alg.h"
#include "gwmodelpp/GWRBasic.h"
#include "gwmodelpp/GWRRobust.h"
using namespace vh; using namespace gwm;
using arma::mat; using arma::vec;

namespace {
template <class A> void set_basic(A& a, const Op& c, const Op& all, const Data& d)
{
    if (data_changed(c)) {
        if (knows(all, "coords")) a.setCoords(d.coords);
        if (knows(all, "x")) a.setIndependentVariables(d.x);
        if (knows(all, "y")) a.setDependentVariable(d.y);
    }
    if (any(c, { "icpt" }) || data_changed(c)) a.setHasIntercept(all.i("icpt", 1));
    if (weight_changed(c)) a.setSpatialWeight(weight_of(all));
    if (any(c, { "hat" })) a.setHasHatMatrix(all.i("hat", 1));
    if (any(c, { "storeS" })) a.setStoreS(all.i("storeS"));
    if (any(c, { "storeC" })) a.setStoreC(all.i("storeC"));
    if (any(c, { "auto" })) a.setIsAutoselectBandwidth(all.i("auto"));
    if (any(c, { "crit" })) a.setBandwidthSelectionCriterion(all.s("crit") == "AIC" ? GWRBasic::AIC : GWRBasic::CV);
    if (any(c, { "lo" })) a.setGoldenLowerBounds(all.d("lo"));
    if (any(c, { "up" })) a.setGoldenUpperBounds(all.d("up"));
    if (any(c, { "avar" })) a.setIsAutoselectIndepVars(all.i("avar"));
    if (any(c, { "vthr" })) a.setIndepVarSelectionThreshold(all.d("vthr"));
    set_distributed(a, c, all);
}
template <class A> void fit_results(A& a, const Op& all, Results& r)
{
    r.add("betas", a.betas()); r.add("se", a.betasSE()); r.add("shat", a.sHat()); r.add("q", a.qDiag()); r.add("S", a.s());
    if (all.i("storeC")) r.cube("C", a.c());
    r.diag(a.diagnostic());
    BandwidthWeight* w = a.spatialWeight().template weight<BandwidthWeight>();
    r.num("bw", w->bandwidth()); r.num("bwad", w->adaptive());
    if (all.i("auto")) r.add("bwlist", bw_list(a.bandwidthSelectionCriterionList()));
    if (all.i("avar")) { r.add("vars", uv(a.selectedVariables())); r.add("varlist", var_list(a.indepVarsSelectionCriterionList(), all.i("k", 2))); }
}
template <class A> struct BasicAdaptor : Adaptor {
    A a;
    Op all_;
    Algorithm& alg() override { return a; }
    void set(const Op& c, const Op& all, const Data& d) override { all_ = all; set_basic(a, c, all, d); more(c, all); }
    virtual void more(const Op&, const Op&) {}
    void call(const std::string& what, const Op& o, const Data& d, Results& r) override
    {
        if (what == "fit") { mat b = a.fit(); r.add("ret", b); fit_results(a, all_, r); }
        else if (what == "predict") {
            mat loc = o.has("same") ? d.coords : make_points(all_.s("pts", "uni"), locations_of(o, d), o.i("ls", 1) + 1000);
            r.add("loc", loc); mat b = a.predict(loc); r.add("ret", b); r.add("betas", a.betas());
        }
        else if (what == "crit") {   // score of one candidate bandwidth
            BandwidthWeight w(o.d("cbw"), all_.i("ad", 1), kernel_of(all_.s("kern", "gaussian")));
            a.createDistanceParameter();
            double v = 0; auto st = static_cast<IBandwidthSelectable&>(a).getCriterion(&w, v);
            r.num("score", v);
            r.num("bw", a.spatialWeight().template weight<BandwidthWeight>()->bandwidth());
            r.num("nx", (double)a.independentVariables().n_cols); (void)st;
        }
        else if (what == "vcrit") {  // score of one variable subset
            std::vector<size_t> vs; for (long q : o.il("vars")) vs.push_back(q);
            a.createDistanceParameter();
            r.add("vs", uv(vs)); double v = 0; static_cast<IVarialbeSelectable&>(a).getCriterion(vs, v);
            r.num("score", v);
            r.num("bw", a.spatialWeight().template weight<BandwidthWeight>()->bandwidth());
            r.num("nx", (double)a.independentVariables().n_cols);
        }
        else if (what == "valid") r.num("valid", a.isValid());
    }
};
struct RobustAdaptor : BasicAdaptor<GWRRobust> {
    void more(const Op& c, const Op& all) override { if (any(c, { "filt" })) a.setFiltered(all.i("filt")); }
};
Register r1("basic", [] { return std::unique_ptr<Adaptor>(new BasicAdaptor<GWRBasic>()); });
Register r2("robust", [] { return std::unique_ptr<Adaptor>(new RobustAdaptor()); });
}
