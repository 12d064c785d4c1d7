#include "alg.h"
#include "gwmodelpp/GWSS.h"
using namespace vh; using namespace gwm;
using arma::mat; using arma::vec;
namespace {
struct GwssAdaptor : Adaptor {
    GWSS a;
    Op all_;
    Algorithm& alg() override { return a; }
    void set(const Op& c, const Op& all, const Data& d) override
    {
        all_ = all;
        if (data_changed(c) || c.has("icpt")) { a.setCoords(d.coords); a.setVariables(d.x); }
        if (weight_changed(c)) a.setSpatialWeight(weight_of(all));
        if (any(c, { "quant" })) a.setQuantile(all.i("quant"));
        if (any(c, { "first" })) a.setIsCorrWithFirstOnly(all.i("first"));
        if (any(c, { "mode" })) a.setGWSSMode(all.s("mode") == "corr" ? GWSS::GWSSMode::Correlation : GWSS::GWSSMode::Average);
        set_parallel(a, c, all);
    }
    void call(const std::string& what, const Op& o, const Data& d, Results& r) override
    {
        if (what == "run") {
            a.run();
            if (all_.s("mode") == "corr") { r.add("cov", a.localCov()); r.add("corr", a.localCorr()); r.add("scorr", a.localSCorr()); }
            r.add("mean", a.localMean()); r.add("var", a.localVar());
            if (all_.s("mode") != "corr") {
                r.add("sd", a.localSDev()); r.add("skew", a.localSkewness()); r.add("cv", a.localCV());
                if (all_.i("quant")) { r.add("median", a.localMedian()); r.add("iqr", a.iqr()); r.add("qi", a.qi()); }
            }
        }
        else if (what == "valid") r.num("valid", a.isValid());
    }
};
Register r1("gwss", [] { return std::unique_ptr<Adaptor>(new GwssAdaptor()); });
}
