#include "alg.h"
#include "gwmodelpp/GWDA.h"
using namespace vh; using namespace gwm;
using arma::mat; using arma::vec;
namespace {
struct GwdaAdaptor : Adaptor {
    GWDA a;
    Op all_;
    Algorithm& alg() override { return a; }
    void set(const Op& c, const Op& all, const Data& d) override
    {
        all_ = all;
        if (data_changed(c) || c.has("icpt")) { a.setCoords(d.coords); a.setVariables(d.x); auto l = d.lab; a.setGroup(l); }
        if (weight_changed(c)) a.setSpatialWeight(weight_of(all));
        if (any(c, { "wqda" })) a.setIsWqda(all.i("wqda"));
        if (any(c, { "hcov" })) a.setHascov(all.i("hcov"));
        if (any(c, { "hmean" })) a.setHasmean(all.i("hmean"));
        if (any(c, { "hprior" })) a.setHasprior(all.i("hprior"));
        set_parallel(a, c, all);
    }
    void call(const std::string& what, const Op& o, const Data& d, Results& r) override
    {
        if (what == "run") {
            a.run(); r.add("res", a.res()); r.add("probs", a.probs()); r.add("pmax", a.pmax()); r.add("entropy", a.entropy()); r.num("rate", a.correctRate());
            // the assigned labels as positions in the list of levels, in the order of first appearance
            std::vector<std::string> lv; for (auto& l : d.lab) if (std::find(lv.begin(), lv.end(), l) == lv.end()) lv.push_back(l);
            mat g(a.group().size(), 1); for (size_t i = 0; i < a.group().size(); i++) { auto it = std::find(lv.begin(), lv.end(), a.group()[i]); g(i, 0) = it == lv.end() ? 0 : (double)(it - lv.begin()) + 1; }
            r.add("group", g);
        }
        else if (what == "valid") r.num("valid", a.isValid());
    }
};
Register r1("gwda", [] { return std::unique_ptr<Adaptor>(new GwdaAdaptor()); });
}
