#include "alg.h"
#include "gwmodelpp/GWPCA.h"
using namespace vh; using namespace gwm;
using arma::mat; using arma::vec;
namespace {
struct GwpcaAdaptor : Adaptor {
    GWPCA a;
    Op all_;
    Algorithm& alg() override { return a; }
    void set(const Op& c, const Op& all, const Data& d) override
    {
        all_ = all;
        if (data_changed(c) || c.has("icpt")) { a.setCoords(d.coords); a.setVariables(d.x); }
        if (weight_changed(c)) a.setSpatialWeight(weight_of(all));
        if (any(c, { "keep" })) a.setKeepComponents(all.i("keep"));
    }
    void call(const std::string& what, const Op& o, const Data& d, Results& r) override
    {
        if (what == "run") { a.run(); r.add("pv", a.localPV()); r.cube("load", a.loadings()); r.add("sdev", a.sdev()); r.num("slices", (double)a.loadings().n_slices); }
        else if (what == "valid") r.num("valid", a.isValid());
    }
};
Register r1("gwpca", [] { return std::unique_ptr<Adaptor>(new GwpcaAdaptor()); });
}
