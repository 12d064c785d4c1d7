// Configurations set piece by piece, in any order and of any size, and the question whether they are complete.
//   obj alg=A            a new object            set what=W ...    one setting           ask    the question
// Every event carries what the object can be seen to hold.
#include "common.h"
#include "weightlib.h"
#include "gwmodelpp/GWRBasic.h"
#include "gwmodelpp/GWRRobust.h"
#include "gwmodelpp/GWRLocalCollinearity.h"
#include "gwmodelpp/GWRGeneralized.h"
#include "gwmodelpp/GWRScalable.h"
#include "gwmodelpp/GWRMultiscale.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/GWDR.h"
#include "gwmodelpp/GWSS.h"
#include "gwmodelpp/GWPCA.h"
#include "gwmodelpp/GWDA.h"
#include <stdexcept>
using namespace vh; using namespace gwm;
using arma::mat; using arma::vec;
namespace {
mat numbers(arma::uword r, arma::uword c, uint64_t seed) { Rng q(seed); mat m(r, c); for (arma::uword j = 0; j < c; j++) for (arma::uword i = 0; i < r; i++) m(i, j) = q.u(0, 9); return m; }

// a spatial weight: none, only a weight, only a distance, or both
SpatialWeight weight(const std::string& kind, double bw, bool ad, const std::string& kern, bool st)
{
    BandwidthWeight w(bw, ad, kernel_of(kern));
    CRSDistance d(false); CRSDistance d1(false); OneDimDistance t; CRSSTDistance s(&d1, &t, 0.05);
    Distance* dist = st ? (Distance*)&s : (Distance*)&d;
    if (kind == "both") return SpatialWeight(&w, dist);
    SpatialWeight q;
    if (kind == "weight") q.setWeight(w);
    if (kind == "dist") q.setDistance(*dist);
    return q;
}
struct Subject {
    virtual ~Subject() {}
    virtual Algorithm& alg() = 0;
    virtual void set(const Op& o) = 0;
    virtual void go() {}
    virtual mat seen() = 0;
};
mat digest(std::initializer_list<mat> ms)
{
    mat q(1, 0);
    for (auto& m : ms) { mat r = { { (double)m.n_rows, (double)m.n_cols, m.is_empty() ? 0.0 : arma::accu(m) } }; q = arma::join_rows(q, r); }
    return q;
}
mat digest(const SpatialWeight& s)
{
    BandwidthWeight* b = s.weight<BandwidthWeight>();
    mat q = { { b ? 1.0 : 0.0, b ? b->bandwidth() : 0, b ? (double)b->adaptive() : 0, b ? (double)b->kernel() : 0, s.distance() ? 1.0 : 0.0 } };
    return q;
}
template <class A> struct Regression : Subject {
    A a; bool st = std::is_same<A, GTWR>::value;
    Algorithm& alg() override { return a; }
    void coords(const mat& c, const vec& t)
    {
        if constexpr (std::is_same<A, GTWR>::value) a.setCoords(c, t); else a.SpatialAlgorithm::setCoords(c);
    }
    void set(const Op& o) override
    {
        std::string w = o.s("what");
        if (w == "coords") coords(numbers(o.i("n"), 2, 5), numbers(o.i("nt", o.i("n")), 1, 6));
        else if (w == "x") { mat x = numbers(o.i("n"), o.i("k"), 7); if (!x.is_empty()) x.col(0).ones(); a.setIndependentVariables(x); }
        else if (w == "y") a.setDependentVariable(numbers(o.i("n"), 1, 8));
        else if (w == "w") a.setSpatialWeight(weight(o.s("kind"), o.d("bw"), o.i("ad"), o.s("kern", "gaussian"), st));
    }
    void go() override { a.fit(); }
    mat seen() override { return arma::join_rows(digest({ a.coords(), a.independentVariables(), mat(a.dependentVariable()), a.betas() }), digest(a.spatialWeight())); }
};
struct Multi : Subject {
    GWRMultiscale a;
    Algorithm& alg() override { return a; }
    void set(const Op& o) override
    {
        std::string w = o.s("what"); size_t m = o.i("m");
        if (w == "coords") a.setCoords(numbers(o.i("n"), 2, 5));
        else if (w == "x") { mat x = numbers(o.i("n"), o.i("k"), 7); if (!x.is_empty()) x.col(0).ones(); a.setIndependentVariables(x); }
        else if (w == "y") a.setDependentVariable(numbers(o.i("n"), 1, 8));
        else if (w == "ws") { std::vector<SpatialWeight> v; auto k = o.sl("kinds"); auto b = o.dl("bws"); for (size_t i = 0; i < k.size(); i++) v.push_back(weight(k[i], b[i], o.i("ad"), "gaussian", false)); a.setSpatialWeights(v); }
        else if (w == "inits") a.setBandwidthInitilize(std::vector<GWRMultiscale::BandwidthInitilizeType>(m, o.s("v") == "spec" ? GWRMultiscale::Specified : o.s("v") == "init" ? GWRMultiscale::Initial : GWRMultiscale::Null));
        else if (w == "apps") a.setBandwidthSelectionApproach(std::vector<GWRMultiscale::BandwidthSelectionCriterionType>(m, GWRMultiscale::CV));
        else if (w == "cens") a.setPreditorCentered(std::vector<bool>(m, false));
        else if (w == "thrs") a.setBandwidthSelectThreshold(std::vector<double>(m, 1e-5));
    }
    mat seen() override
    {
        mat q = digest({ a.coords(), a.independentVariables(), mat(a.dependentVariable()), a.betas() });
        for (auto& s : a.spatialWeights()) q = arma::join_rows(q, digest(s));
        return q;
    }
};
struct Density : Subject {
    GWDR a;
    Algorithm& alg() override { return a; }
    void set(const Op& o) override
    {
        std::string w = o.s("what");
        if (w == "coords") a.setCoords(numbers(o.i("n"), o.i("dim", 2), 5));
        else if (w == "x") { mat x = numbers(o.i("n"), o.i("k"), 7); if (!x.is_empty()) x.col(0).ones(); a.setIndependentVariables(x); }
        else if (w == "y") a.setDependentVariable(numbers(o.i("n"), 1, 8));
        else if (w == "ws") {
            std::vector<SpatialWeight> v; auto k = o.sl("kinds"); auto b = o.dl("bws");
            for (size_t i = 0; i < k.size(); i++) {
                BandwidthWeight bw(b[i], o.i("ad"), kernel_of("gaussian")); OneDimDistance d; SpatialWeight q;
                if (k[i] == "both") q = SpatialWeight(&bw, &d);
                else if (k[i] == "weight") q.setWeight(bw);
                else if (k[i] == "dist") q.setDistance(d);
                v.push_back(q);
            }
            a.setSpatialWeights(v);
        }
        else if (w == "auto") a.setEnableBandwidthOptimize(o.i("v"));
    }
    void go() override { a.fit(); }
    mat seen() override
    {
        mat q = digest({ a.coords(), a.independentVariables(), mat(a.dependentVariable()), a.betas() });
        for (auto& s : a.spatialWeights()) q = arma::join_rows(q, digest(s));
        return q;
    }
};
template <class A> struct Multivariate : Subject {
    A a;
    Algorithm& alg() override { return a; }
    void set(const Op& o) override
    {
        std::string w = o.s("what");
        if (w == "coords") a.setCoords(numbers(o.i("n"), 2, 5));
        else if (w == "x") a.setVariables(numbers(o.i("n"), o.i("k"), 7));
        else if (w == "w") a.setSpatialWeight(weight(o.s("kind"), o.d("bw"), o.i("ad"), o.s("kern", "gaussian"), false));
        else if (w == "y") { if constexpr (std::is_same<A, GWDA>::value) { std::vector<std::string> l; for (long i = 0; i < o.i("n"); i++) l.push_back(i % 2 ? "a" : "b"); a.setGroup(l); } }
        else if (w == "keep") { if constexpr (std::is_same<A, GWPCA>::value) a.setKeepComponents(o.i("k")); }
    }
    void go() override { a.run(); }
    mat seen() override { return arma::join_rows(digest({ a.coords(), a.variables() }), digest(a.spatialWeight())); }
};
std::unique_ptr<Subject> make(const std::string& n)
{
    Subject* s = n == "basic" ? (Subject*)new Regression<GWRBasic>() : n == "robust" ? new Regression<GWRRobust>() : n == "lcr" ? (Subject*)new Regression<GWRLocalCollinearity>()
        : n == "ggwr" ? (Subject*)new Regression<GWRGeneralized>() : n == "scal" ? (Subject*)new Regression<GWRScalable>() : n == "gtwr" ? (Subject*)new Regression<GTWR>()
        : n == "mgwr" ? (Subject*)new Multi() : n == "gwdr" ? (Subject*)new Density() : n == "gwss" ? (Subject*)new Multivariate<GWSS>()
        : n == "gwpca" ? (Subject*)new Multivariate<GWPCA>() : n == "gwda" ? (Subject*)new Multivariate<GWDA>() : nullptr;
    if (!s) throw std::runtime_error("no such algorithm " + n);
    return std::unique_ptr<Subject>(s);
}
}
void vh::run_scenario(const std::vector<Op>& ops)
{
    std::unique_ptr<Subject> s;
    for (auto& o : ops) {
        J j = ev(o.name);
        for (auto& p : o.a) j.t(p.first, p.second);
        if (o.name == "obj") s = make(o.s("alg"));
        else if (o.name == "set") { bool threw = false; try { s->set(o); } catch (const std::exception&) { threw = true; } j.b("threw", threw); }
        else if (o.name == "go") { bool threw = false; try { s->go(); } catch (const std::exception&) { threw = true; } j.b("threw", threw); }
        else if (o.name == "ask") {
            mat before = s->seen();
            bool threw = false, one = false, two = false;
            try { one = s->alg().isValid(); two = s->alg().isValid(); } catch (const std::exception&) { threw = true; }
            j.b("threw", threw).b("valid", one).b("again", two).m("before", before).m("after", s->seen());
        }
        emit(j);
    }
}
