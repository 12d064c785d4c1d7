#include "alg.h"
#include "gwmodelpp/GWRMultiscale.h"
using namespace vh; using namespace gwm;
using arma::mat; using arma::vec;
namespace {
struct MgwrAdaptor : Adaptor {
    GWRMultiscale a;
    Op all_;
    Algorithm& alg() override { return a; }
    void set(const Op& c, const Op& all, const Data& d) override
    {
        all_ = all;
        if (data_changed(c)) {
            if (knows(all, "coords")) a.setCoords(d.coords);
            if (knows(all, "x")) a.setIndependentVariables(d.x);
            if (knows(all, "y")) a.setDependentVariable(d.y);
        }
        if (any(c, { "icpt" }) || data_changed(c)) a.setHasIntercept(all.i("icpt", 1));
        if (weight_changed(c) || any(c, { "bws", "ads", "kerns" })) {
            std::vector<SpatialWeight> ws; auto b = all.dl("bws"); auto ad = all.il("ads"); auto ks = all.sl("kerns");
            auto dist = distance_of(all);
            for (size_t i = 0; i < b.size(); i++) { BandwidthWeight w(b[i], ad.at(i % ad.size()), kernel_of(ks.at(i % ks.size()))); ws.push_back(SpatialWeight(&w, dist.get())); }
            a.setSpatialWeights(ws);
        }
        if (any(c, { "inits" })) { std::vector<GWRMultiscale::BandwidthInitilizeType> v; for (auto& s : all.sl("inits")) v.push_back(s == "spec" ? GWRMultiscale::Specified : s == "init" ? GWRMultiscale::Initial : GWRMultiscale::Null); a.setBandwidthInitilize(v); }
        if (any(c, { "apps" })) { std::vector<GWRMultiscale::BandwidthSelectionCriterionType> v; for (auto& s : all.sl("apps")) v.push_back(s == "AIC" ? GWRMultiscale::AIC : GWRMultiscale::CV); a.setBandwidthSelectionApproach(v); }
        if (any(c, { "cens" })) { std::vector<bool> v; for (long q : all.il("cens")) v.push_back(q); a.setPreditorCentered(v); }
        if (any(c, { "thrs" })) a.setBandwidthSelectThreshold(all.dl("thrs"));
        if (any(c, { "retry" })) a.setBandwidthSelectRetryTimes(all.i("retry"));
        if (any(c, { "maxit" })) a.setMaxIteration(all.i("maxit"));
        if (any(c, { "ctype" })) a.setCriterionType(all.s("ctype") == "CVR" ? GWRMultiscale::CVR : GWRMultiscale::dCVR);
        if (any(c, { "cthr" })) a.setCriterionThreshold(all.d("cthr"));
        if (any(c, { "alow" })) a.setAdaptiveLower(all.i("alow"));
        if (any(c, { "lo" })) a.setGoldenLowerBounds(all.d("lo"));
        if (any(c, { "up" })) a.setGoldenUpperBounds(all.d("up"));
        if (any(c, { "hat" })) a.setHasHatMatrix(all.i("hat", 1));
        set_distributed(a, c, all);
    }
    mat bws() { auto& w = a.spatialWeights(); mat q(1, w.size()); for (size_t i = 0; i < w.size(); i++) { SpatialWeight s(w[i]); q(0, i) = s.weight<BandwidthWeight>()->bandwidth(); } return q; }
    void call(const std::string& what, const Op& o, const Data& d, Results& r) override
    {
        if (what == "fit") { mat b = a.fit(); r.add("ret", b); r.add("betas", a.betas()); r.diag(a.diagnostic()); r.add("bws", bws()); }
        else if (what == "predict") { mat loc = make_points("uni", o.i("ln", 5), 7); r.add("loc", loc); mat b = a.predict(loc); r.add("ret", b); }
        else if (what == "valid") r.num("valid", a.isValid());
    }
};
Register r1("mgwr", [] { return std::unique_ptr<Adaptor>(new MgwrAdaptor()); });
}
