#include "alg.h"
#include "gwmodelpp/GWDR.h"
#include "gwmodelpp/spatialweight/OneDimDistance.h"
using namespace vh; using namespace gwm;
using arma::mat; using arma::vec;
namespace {
struct GwdrAdaptor : Adaptor {
    GWDR a;
    Op all_;
    Algorithm& alg() override { return a; }
    // one weight per dimension: lists bws, ads, kerns
    void set(const Op& c, const Op& all, const Data& d) override
    {
        all_ = all;
        if (data_changed(c) || c.has("dim")) { a.setCoords(d.coords); a.setIndependentVariables(d.x); a.setDependentVariable(d.y); }
        if (any(c, { "icpt" }) || data_changed(c)) a.setHasIntercept(all.i("icpt", 1));
        if (any(c, { "bws", "ads", "kerns", "kern" })) {
            std::vector<SpatialWeight> ws; auto b = all.dl("bws"); auto ad = all.il("ads"); auto ks = all.sl("kerns");
            for (size_t i = 0; i < b.size(); i++) { OneDimDistance od; BandwidthWeight w(b[i], ad.at(i % ad.size()), kernel_of(ks.at(i % ks.size()))); ws.push_back(SpatialWeight(&w, &od)); }
            a.setSpatialWeights(ws);
        }
        if (any(c, { "hat" })) a.setHasHatMatrix(all.i("hat", 1));
        if (any(c, { "auto" })) a.setEnableBandwidthOptimize(all.i("auto"));
        if (any(c, { "avar" })) a.setEnableIndepVarSelect(all.i("avar"));
        if (any(c, { "vthr" })) a.setIndepVarSelectThreshold(all.d("vthr"));
        if (any(c, { "oeps" })) a.setBandwidthOptimizeEps(all.d("oeps"));
        if (any(c, { "omax" })) a.setBandwidthOptimizeMaxIter(all.i("omax"));
        if (any(c, { "ostep" })) a.setBandwidthOptimizeStep(all.d("ostep"));
        set_parallel(a, c, all);
        if (any(c, { "crit" })) a.setBandwidthCriterionType(all.s("crit") == "AIC" ? GWDR::AIC : GWDR::CV);
    }
    mat bws() { mat q(1, a.spatialWeights().size()); for (size_t i = 0; i < a.spatialWeights().size(); i++) q(0, i) = SpatialWeight(a.spatialWeights()[i]).weight<BandwidthWeight>()->bandwidth(); return q; }
    void call(const std::string& what, const Op& o, const Data& d, Results& r) override
    {
        if (what == "fit") {
            mat b = a.fit(); r.add("ret", b); r.add("betas", a.betas()); r.add("se", a.betasSE()); r.add("shat", a.sHat()); r.add("q", a.qDiag());
            r.add("S", a.s()); r.diag(a.diagnostic()); r.add("bws", bws());
            if (all_.i("avar")) { r.add("vars", uv(a.selectedIndepVars())); r.add("varlist", var_list(a.indepVarCriterionList(), all_.i("k", 2))); }
        }
        else if (what == "predict") {
            mat loc = o.has("same") ? d.coords : make_points(all_.s("pts", "uni"), locations_of(o, d), o.i("ls", 1) + 1000);
            if (loc.n_cols != d.coords.n_cols) {
                Rng q(o.i("ls", 1)); mat l(loc.n_rows, d.coords.n_cols);
                for (arma::uword i = 0; i < l.n_rows; i++) for (arma::uword j = 0; j < l.n_cols; j++) l(i, j) = j < 2 ? loc(i, j) : q.u(0, 8);
                loc = l;
            }
            r.add("loc", loc); mat b = a.predict(loc); r.add("ret", b); r.add("betas", a.betas());
        }
        else if (what == "crit") {   // after a fit: score of one vector of bandwidths
            auto b = o.dl("cbws"); auto ad = all_.il("ads"); auto ks = all_.sl("kerns");
            std::vector<BandwidthWeight> ws; std::vector<BandwidthWeight*> ps;
            for (size_t i = 0; i < b.size(); i++) ws.push_back(BandwidthWeight(b[i], ad.at(i % ad.size()), kernel_of(ks.at(i % ks.size()))));
            for (auto& w : ws) ps.push_back(&w);
            r.num("score", a.bandwidthCriterion(ps)); r.add("bws", bws());
            r.num("nx", (double)a.independentVariables().n_cols);
        }
        else if (what == "vcrit") {
            std::vector<size_t> vs; for (long q : o.il("vars")) vs.push_back(q);
            r.add("vs", uv(vs)); double v = 0; static_cast<IVarialbeSelectable&>(a).getCriterion(vs, v);
            r.num("score", v); r.add("bws", bws()); r.num("nx", (double)a.independentVariables().n_cols);
        }
        else if (what == "valid") r.num("valid", a.isValid());
    }
};
Register r1("gwdr", [] { return std::unique_ptr<Adaptor>(new GwdrAdaptor()); });
}
