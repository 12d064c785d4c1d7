// Weighting configurations as values (C03).
#include "weightlib.h"
#include "gwmodelpp/SpatialMonoscaleAlgorithm.h"
#include "gwmodelpp/GWRBasic.h"
#include "gwmodelpp/GWRMultiscale.h"
using namespace vh; using namespace gwm; using namespace arma;

static SpatialWeight* slot[3];
static GWRBasic* mono; static GWRMultiscale* multi;
static const SpatialWeight* at(int i)
{
    if (i <= 3) return slot[i - 1];
    if (i == 4) return &mono->spatialWeight();
    return &multi->spatialWeights()[i - 5];
}
static std::string kind_of(const SpatialWeight* s)
{
    if (!s->distance()) return "none";
    switch (s->distance()->type()) {
    case Distance::CRSDistance: return "crs";
    case Distance::MinkwoskiDistance: return "mink";
    case Distance::OneDimDistance: return "one";
    case Distance::CRSSTDistance: return "st";
    default: return "other";
    }
}
static std::string observe(const SpatialWeight* s)
{
    J j; bool valid = const_cast<SpatialWeight*>(s)->isValid();
    auto* w = s->weight<BandwidthWeight>();
    j.b("valid", valid).b("hasw", w != nullptr).t("kind", kind_of(s));
    j.t("k", w ? kernel_name(w->kernel()) : "none").b("ad", w && w->adaptive()).d("bw", w ? w->bandwidth() : 0);
    bool threw = false; std::string wv = "[", dv = "["; double mx = 0, mn = 0;
    if (valid) {
        try {
            mx = s->distance()->maxDistance(); mn = s->distance()->minDistance();
            for (int f = 0; f < 2; f++) {
                vec d = s->distance()->distance(f), x = s->weightVector(f);
                wv += (f ? "," : "") + J::vec(x); dv += (f ? "," : "") + J::vec(d);
            }
        } catch (const std::exception&) { threw = true; wv = "["; dv = "["; }
    }
    j.b("threw", threw).d("mx", mx).d("mn", mn).raw("wv", wv + "]").raw("dv", dv + "]");
    return j.obj();
}
static void observe_all()
{
    J j = ev("obs"); std::string r = "[";
    for (int i = 1; i <= 6; i++) r += (i > 1 ? "," : "") + observe(at(i));
    j.raw("slots", r + "]"); emit(j);
}

void vh::run_scenario(const std::vector<Op>& ops)
{
    for (auto& s : slot) s = new SpatialWeight();
    mono = new GWRBasic(); multi = new GWRMultiscale();
    multi->setSpatialWeights(std::vector<SpatialWeight>(2));
    for (auto& o : ops) {
        int h = o.i("h"), g = o.i("g"); std::string n = o.name, how = o.s("how", "ptr");
        J j = ev("op"); j.t("op", n).i("h", h).i("g", g);
        SpatialWeight*& me = slot[h >= 1 && h <= 3 ? h - 1 : 0];
        BandwidthWeight w(o.d("bw"), o.i("ad"), kernel_of(o.s("k")));
        if (n == "new" || n == "setw" || n.substr(0, 3) == "mut") j.t("k", o.s("k")).b("ad", o.i("ad")).d("bw", o.d("bw"));
        if (n == "new" || n == "setd") describe_distance(j, o);
        if (n == "new") {
            auto d = make_distance(o); delete me;
            me = how == "ref" ? new SpatialWeight(w, *d) : new SpatialWeight(&w, d.get());
            w.setBandwidth(99); w.setKernel(BandwidthWeight::Boxcar);  // the originals belong to the caller
        }
        else if (n == "new0") { delete me; me = new SpatialWeight(); }
        else if (n == "copy") *me = *at(g);
        else if (n == "cctor") { SpatialWeight* c = new SpatialWeight(*at(g)); delete me; me = c; }
        else if (n == "move") *me = std::move(*slot[g - 1]);
        else if (n == "mctor") { if (h != g) { SpatialWeight* c = new SpatialWeight(std::move(*slot[g - 1])); delete me; me = c; } }
        else if (n == "give") mono->setSpatialWeight(*at(g));
        else if (n == "take") *me = *at(g);
        else if (n == "giveall") { std::vector<SpatialWeight> v; v.push_back(*at(h)); v.push_back(*at(g)); multi->setSpatialWeights(v); v[0] = SpatialWeight(); }
        else if (n == "setw") {
            if (how == "ptr") me->setWeight(&w); else if (how == "ref") me->setWeight(w); else me->setWeight(BandwidthWeight(w));
            w.setBandwidth(99);
        }
        else if (n == "setd") {
            auto d = make_distance(o);
            if (how == "ptr") me->setDistance(d.get()); else if (how == "ref") me->setDistance(*d); else me->setDistance(std::move(*d));
        }
        else if (n == "setwfrom") { Weight* p = at(g)->weight(); if (how == "ptr") me->setWeight(p); else if (p) me->setWeight(*p); }
        else if (n == "setdfrom") { Distance* p = at(g)->distance(); if (how == "ptr") me->setDistance(p); else if (p) me->setDistance(*p); }
        else if (n == "mutbw") { if (auto* p = me->weight<BandwidthWeight>()) p->setBandwidth(o.d("bw")); }
        else if (n == "mutk") { if (auto* p = me->weight<BandwidthWeight>()) p->setKernel(kernel_of(o.s("k"))); }
        else if (n == "mutad") { if (auto* p = me->weight<BandwidthWeight>()) p->setAdaptive(o.i("ad")); }
        else if (n == "mutgeo") { if (kind_of(me) == "crs") me->distance<CRSDistance>()->setGeographic(o.i("geo")); j.b("geo", o.i("geo")); }
        else if (n == "mutord") {
            if (kind_of(me) == "mink") { me->distance<MinkwoskiDistance>()->setPoly(o.d("ord")); me->distance<MinkwoskiDistance>()->setTheta(o.d("theta")); }
            j.d("ord", o.d("ord")).d("theta", o.d("theta"));
        }
        else if (n == "make") {
            std::string k = kind_of(me); Points q;
            if (k != "none") { q = points_for(k, o); give_points(*me->distance(), k, q); }
            describe_points(j, q);
        }
        emit(j);
        observe_all();
    }
    for (auto& s : slot) delete s;
    delete mono; delete multi;
}
