// Bandwidth selection and forward variable selection on scripted objectives (C07, C08).
#include "weightlib.h"
#include <memory>
#include "gwmodelpp/BandwidthSelector.h"
#include "gwmodelpp/VariableForwardSelector.h"
using namespace vh; using namespace gwm; using arma::vec;

static uint64_t h64(uint64_t a, uint64_t b) { Rng r(a * 31 + b * 1000003 + 17); return r.next(); }

struct FakeBw : IBandwidthSelectable {
    const Op& o; int n = 0; std::map<double, double> table;
    explicit FakeBw(const Op& op) : o(op)
    {
        if (o.s("obj") == "table") { vec x = o.v("xs"), f = o.v("fs"); for (size_t i = 0; i < x.n_elem; i++) table[x(i)] = f(i); }
    }
    double f(double x)
    {
        std::string k = o.s("obj"); double lo = o.d("lo"), up = o.d("up"), w = up - lo + 1e-9, t = (x - lo) / w;
        uint64_t sd = o.i("seed"); double c = (h64(sd, 1) % 1000) / 1000.0;
        uint64_t bits; memcpy(&bits, &x, 8); double u = (h64(sd, bits) % 100000) / 100.0;
        if (k == "table") return table.count(x) ? table[x] : 1000 + x;
        if (k == "valley") return 1000 * (t - c) * (t - c) + 50;
        if (k == "noise") return u;
        if (k == "plateau") return std::fabs(t - c) < 0.2 ? 7 : 7 + 30 * std::fabs(t - c);
        if (k == "step") return t < c ? 10 : 20;
        if (k == "rise") return 100 * t;
        if (k == "fall") return -100 * t;
        if (k == "flat") return 5;
        if (k == "hugelow") return t < 0.3 + 0.4 * c ? DBL_MAX : 100 * (1 - t);
        if (k == "hugehigh") return t > 0.3 + 0.4 * c ? DBL_MAX : 100 * t;
        if (k == "hugenoise") return u < 300 ? DBL_MAX : u;
        if (k == "tiny") return 1e-3 * (t - c) * (t - c);
        if (k == "multi") return 100 * std::sin(20 * t + 6 * c) + 60 * t;
        return 0;
    }
    Status getCriterion(BandwidthWeight* w, double& criterion) override
    {
        n++; bool ok = o.i("stop") == 0 || n < o.i("stop"); double v = f(w->bandwidth());
        if (ok) criterion = v;
        J j = ev("geval"); j.d("x", w->bandwidth()).d("f", v).b("ok", ok).b("ad", w->adaptive()).t("k", kernel_name(w->kernel())); emit(j);
        return ok ? Status::Success : Status::Terminated;
    }
};
struct FakeVar : IVarialbeSelectable {
    const Op& o; int n = 0; std::map<std::vector<size_t>, double> table;
    explicit FakeVar(const Op& op) : o(op)
    {
        if (o.s("obj") == "table") {
            auto rows = Op::split(o.s("sets"), ';'); vec f = o.v("fs");
            for (size_t i = 0; i < rows.size(); i++) { std::vector<size_t> q; for (auto& x : Op::split(rows[i], ',')) q.push_back(std::stoul(x)); std::sort(q.begin(), q.end()); table[q] = f(i); }
        }
    }
    double f(std::vector<size_t> v)
    {
        std::sort(v.begin(), v.end()); std::string k = o.s("obj"); uint64_t sd = o.i("seed"), hh = 7; double s = 100;
        for (auto x : v) { hh = h64(hh, x); s -= (double)(h64(sd, x) % 1000) / 50.0 - 3; }
        double u = (h64(sd, hh) % 100000) / 1000.0;
        if (k == "table") return table.count(v) ? table[v] : 777;
        if (k == "additive") return s;
        if (k == "noise") return u;
        if (k == "ties") return std::floor(u / 25);
        if (k == "huge") return u < 30 ? DBL_MAX : s;
        if (k == "rise") return 10.0 * v.size() + u / 100;
        if (k == "neg") return s - 400;
        if (k == "cross") return u - 50;
        if (k == "hugebig") return v.size() > sd % 5 ? DBL_MAX : s;
        return 4;
    }
    Status getCriterion(const std::vector<std::size_t>& v, double& criterion) override
    {
        n++; bool ok = o.i("stop") == 0 || n < o.i("stop"); double x = f(v);
        if (ok) criterion = x;
        J j = ev("feval"); j.iv("vars", v).d("f", x).b("ok", ok); emit(j);
        return ok ? Status::Success : Status::Terminated;
    }
    std::vector<std::size_t> selectedVariables() override { return {}; }
};

void vh::run_scenario(const std::vector<Op>& ops)
{
    // a search on the selector of the search before (again=1), or on a new one
    std::unique_ptr<BandwidthSelector> bsel; std::unique_ptr<VariableForwardSelector> vsel;
    for (auto& o : ops) {
        if (o.name == "golden") {
            BandwidthWeight w(o.d("bw"), o.i("ad"), kernel_of(o.s("k")));
            J a = ev("gstart"); a.d("lo", o.d("lo")).d("up", o.d("up")).b("ad", o.i("ad")).t("k", o.s("k")).d("bw", o.d("bw")); emit(a);
            FakeBw inst(o);
            if (bsel && o.i("again")) { bsel->setBandwidth(&w); bsel->setLower(o.d("lo")); bsel->setUpper(o.d("up")); }
            else bsel.reset(new BandwidthSelector(&w, o.d("lo"), o.d("up")));
            BandwidthSelector& sel = *bsel;
            bool threw = false; BandwidthWeight* r = nullptr;
            try { r = sel.optimize(&inst); } catch (const std::exception&) { threw = true; }
            J j = ev("gend"); std::string ls = "["; bool first = true;
            for (auto& p : sel.bandwidthCriterion()) { if (!first) ls += ","; first = false; ls += "[" + J::num(p.first) + "," + J::num(p.second) + "]"; }
            j.b("threw", threw || !r).d("bw", r ? r->bandwidth() : -1).b("ad", r && r->adaptive()).t("k", r ? kernel_name(r->kernel()) : "none").raw("list", ls + "]");
            emit(j);
        }
        else if (o.name == "forward") {
            std::vector<size_t> c; for (auto x : o.il("cand")) c.push_back(x);
            J a = ev("fstart"); a.iv("cand", c).d("thr", o.d("thr")); emit(a);
            FakeVar inst(o);
            if (vsel && o.i("again")) { vsel->setIndepVars(c); vsel->setThreshold(o.d("thr")); }
            else vsel.reset(new VariableForwardSelector(c, o.d("thr")));
            VariableForwardSelector& sel = *vsel; bool threw = false; std::vector<size_t> r;
            try { r = sel.optimize(&inst); } catch (const std::exception&) { threw = true; }
            std::string ls = "["; bool first = true;
            for (auto& p : sel.indepVarsCriterion()) { J q; q.iv("vars", p.first).d("f", p.second); if (!first) ls += ","; first = false; ls += q.obj(); }
            J j = ev("fend"); j.b("threw", threw).iv("res", r).raw("list", ls + "]"); emit(j);
        }
    }
}
