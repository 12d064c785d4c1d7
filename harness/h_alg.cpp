// Scenario driver for the algorithms: configure, run, predict, cancel; every call becomes one trace event.
#include "alg.h"
#include <omp.h>
#include <set>
using namespace vh;

int vh::g_rank = 0, vh::g_procs = 1;
std::map<std::string, Factory>& vh::registry() { static std::map<std::string, Factory> r; return r; }

Data vh::make_data(const Op& o)
{
    Data d;
    int n = o.i("n", 20), k = o.i("k", 2);
    uint64_t seed = o.i("seed", 1);
    std::string xk = o.s("xk", "uni"), yk = o.s("yk", "smooth"), pk = o.s("pts", "uni");
    d.coords = make_points(pk, n, seed);
    if (o.i("dim", 2) != 2) {
        Rng q(seed * 77ull + 3); int dim = o.i("dim");
        arma::mat c(n, dim);
        for (int i = 0; i < n; i++) for (int j = 0; j < dim; j++) c(i, j) = j < 2 ? d.coords(i, j) : q.u(0, 8);
        d.coords = c;
    }
    d.t = make_times(n, seed, o.s("tk", "mix"));
    Rng r(seed * 131071ull + 17 * n + k);
    d.x.set_size(n, k); d.y.set_size(n);
    for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) {
        double v = r.u(-2, 3);
        if (xk == "int") v = r.k(5) - 1;
        else if (xk == "scale") v = j % 2 ? v * 1000 : v;
        else if (xk == "coll" && j >= 2) v = d.x(i, 1) * 2 + 0.001 * r.n();
        else if (xk == "same" && j >= 2) v = d.x(i, 1);
        else if (xk == "const" && j == 1) v = 4;
        else if (xk == "pos") v = r.u(0.5, 4);
        d.x(i, j) = (j == 0 && o.i("icpt", 1)) ? 1.0 : v;
    }
    for (int i = 0; i < n; i++) {
        double cx = d.coords(i, 0) - d.coords(0, 0), s = 0;
        double sc = pk == "big" ? 0.01 : 1;
        for (int j = 0; j < k; j++) s += d.x(i, j) * (xk == "scale" && j % 2 ? 0.001 : 1) * (1 + 0.5 * j - 0.15 * (j + 1) * cx * sc);
        double noise = r.n();
        double v = s + 0.4 * noise;
        if (yk == "noise") v = noise;
        else if (yk == "out") v = s + 0.4 * noise + (i % 9 == 4 ? 12 : 0);
        else if (yk == "out1") v = s + 0.3 * noise + (i == n / 2 ? -25 : 0);
        else if (yk == "tame") v = s + 0.2 * (2 * (i % 2) - 1) * (1 + 0.1 * r.u());
        else if (yk == "shift") v = 1000 + s + noise;
        else if (yk == "zero") v = 0;
        else if (yk == "huge") v = 1e180 * v;
        else if (yk == "count") v = std::floor(std::exp(std::min(3.0, std::max(-1.0, 0.3 * s + 0.8))) * r.u(0.5, 1.6));
        else if (yk == "zcount") v = r.k(3) == 0 ? r.k(6) : 0;
        else if (yk == "binary") v = (s * 0.4 + 1.2 * noise > 0.3) ? 1 : 0;
        else if (yk == "rare") v = (noise > 0.9) ? 1 : 0;
        d.y(i) = v;
    }
    int ng = o.i("ng", 3);
    static const char* names[] = { "beta", "alpha", "10", "9", "Zed" };
    for (int i = 0; i < n; i++) {
        int g = (d.x(i, k > 1 ? 1 : 0) + 0.4 * r.n() > 0.5) ? 1 : 0;
        if (ng > 2) g = r.k(3) == 0 ? 2 : g;
        if (ng > 3) g = r.k(4) == 0 ? 3 : g;
        if (i < ng) g = i;
        d.lab.push_back(names[g % 5]);
        // classes far away from one another, or one sample far away from everything
        if (xk == "apart") for (int j = 0; j < k; j++) d.x(i, j) += 60.0 * g * (j % 2 ? -1 : 1);
        if (xk == "lone" && i == n / 2) for (int j = 0; j < k; j++) d.x(i, j) += 100.0;
    }
    return d;
}

struct Obj {
    std::unique_ptr<Adaptor> a;
    Op all; Data d; std::string alg;
    std::set<std::string> told;   // keys set since the last call
    std::shared_ptr<Recorder> rec;
    bool heard = false;           // somebody has listened to it
};

static void emit_cfg(J& j, const Op& all)
{
    J c;
    for (auto& p : all.a) c.t(p.first, p.second);
    j.raw("cfg", c.obj());
}

// the criterion reports with a tag, as one row of numbers each (headers have no numbers and are left out)
static arma::mat reports(const std::vector<Step>& log, const std::string& tag)
{
    std::vector<std::vector<double>> rows; size_t w = 0;
    for (auto& e : log) {
        if (e.kind != 'm' || e.text.compare(0, tag.size(), tag) != 0) continue;
        std::vector<double> r; bool ok = true;
        for (auto& f : Op::split(e.text.substr(tag.size()), ',')) {
            char* end = nullptr; double v = std::strtod(f.c_str(), &end);
            if (end == f.c_str() || *end) ok = false;
            r.push_back(v);
        }
        if (ok) { rows.push_back(r); w = std::max(w, r.size()); }
    }
    arma::mat q(rows.size(), w, arma::fill::zeros);
    for (size_t i = 0; i < rows.size(); i++) for (size_t k = 0; k < rows[i].size(); k++) q(i, k) = rows[i][k];
    return q;
}

// the reports on subsets of variables: one row each, the score and then the indices padded with -1
static arma::mat var_reports(const std::vector<Step>& log, size_t k)
{
    std::vector<std::pair<std::vector<size_t>, double>> l;
    const std::string tag = "#variable-criterion ";
    for (auto& e : log) {
        if (e.kind != 'm' || e.text.compare(0, tag.size(), tag)) continue;
        auto f = Op::split(e.text.substr(tag.size()), ',');
        if (f.size() != 2) continue;
        char* end = nullptr; double v = std::strtod(f[1].c_str(), &end);
        if (end == f[1].c_str() || *end) continue;
        std::vector<size_t> q;
        for (auto& g : Op::split(f[0], '+')) q.push_back(std::strtoul(g.c_str(), nullptr, 10));
        l.push_back({ q, v });
    }
    return var_list(l, k);
}

// back-fitting reports in order, one row each: 1 score, 2/3 initial bandwidth begun/found, 4 sweep, 5/6 selection begun/done, 7 criterion, 8 finished
static arma::mat backfitting(const std::vector<Step>& log)
{
    std::vector<std::vector<double>> rows;
    auto nums = [](const std::string& t) {
        std::vector<double> r;
        for (auto& f : Op::split(t, ',')) { char* end = nullptr; double v = std::strtod(f.c_str(), &end); if (end == f.c_str() || *end) break; r.push_back(v); }
        return r;
    };
    auto tagged = [](const std::string& t, const std::string& tag, std::string& rest) { if (t.compare(0, tag.size(), tag)) return false; rest = t.substr(tag.size()); return true; };
    auto push = [&](double k, std::vector<double> r) { r.insert(r.begin(), k); r.resize(5, 0); rows.push_back(r); };
    for (auto& e : log) {
        if (e.kind != 'm') continue;
        std::string r;
        if (tagged(e.text, "#bandwidth-criterion ", r)) { auto v = nums(r); if (v.size() == 2) push(1, v); }
        else if (tagged(e.text, "#initial-bandwidth ", r)) { auto v = nums(r); push(v.size() > 1 ? 3 : 2, v); }
        else if (tagged(e.text, "#back-fitting ", r)) {
            std::string q;
            if (tagged(r, "#iteration ", q)) push(4, nums(q));
            else if (tagged(r, "#variable-bandwidth-selection ", q)) { auto v = nums(q); push(v.size() > 1 ? 6 : 5, v); }
            else if (tagged(r, "#backfitting-criterion ", q)) push(7, nums(q));
            else if (r == "Finished") push(8, {});
        }
    }
    arma::mat q(rows.size(), 5);
    for (size_t i = 0; i < rows.size(); i++) for (size_t k = 0; k < 5; k++) q(i, k) = rows[i][k];
    return q;
}

void vh::run_scenario(const std::vector<Op>& ops)
{
    std::map<long, Obj> objs;
    for (auto& o : ops) {
        long id = o.i("id", 1);
        if (o.name == "obj") {
            auto f = registry().find(o.s("alg"));
            if (f == registry().end()) throw std::runtime_error("no such algorithm " + o.s("alg"));
            Obj b; b.a = f->second(); b.alg = o.s("alg"); objs[id] = std::move(b);
            continue;
        }
        if (o.name == "fresh") {    // a new object configured at once with everything another one was told
            Obj& f = objs.at(o.i("from", 1));
            Obj b; b.a = registry().at(f.alg)(); b.alg = f.alg; b.all = f.all; b.d = f.d;
            b.a->set(b.all, b.all, b.d);
            for (auto& p : b.all.a) b.told.insert(p.first);
            objs[id] = std::move(b);
            continue;
        }
        Obj& b = objs.at(id);
        if (o.name == "cfg") {
            Op delta = o; delta.a.erase("id");
            bool fresh = b.all.a.empty();
            for (auto& p : delta.a) b.all.a[p.first] = p.second;
            if (fresh || data_changed(delta) || delta.has("icpt") || delta.has("dim")) {
                b.d = make_data(b.all);
                if (!o.i("nodata")) {
                    J j = ev("data"); j.i("id", id).m("coords", b.d.coords).m("x", b.d.x).v("y", b.d.y).v("t", b.d.t);
                    std::string l = "["; for (size_t i = 0; i < b.d.lab.size(); i++) l += (i ? "," : "") + J::str(b.d.lab[i]);
                    j.raw("lab", l + "]");
                    emit(j);
                }
                delta.a["n"] = b.all.s("n");
            }
            if (fresh) { Op q = b.all; for (auto k : { "n", "kern", "par" }) if (!q.has(k)) q.a[k] = k == std::string("n") ? "20" : k == std::string("kern") ? "gaussian" : "serial"; delta = q; }
            for (auto& p : delta.a) b.told.insert(p.first);
            std::string err;
            try { b.a->set(delta, b.all, b.d); }
            catch (const std::exception& e) { err = e.what(); }
            if (!err.empty()) { J j = ev("cfgerr"); j.i("id", id).t("what", err); emit(j); }
            continue;
        }
        if (g_rank > 0 && b.all.s("par").compare(0, 3, "mpi")) continue;   // the root's own business
        // a call: fit, run, predict, criterion, ...
        // sweep=N: the call undisturbed, then stopped at (at most N of) the places it listens at, then undisturbed again
        std::vector<long> stops = { o.i("stop", -1) };
        for (size_t turn = 0; turn < stops.size(); turn++) {
        if (turn > 0 && b.all.i("avar")) {   // a selection of variables is final for the data: start from the data again
            b.a->set(b.all, b.all, b.d);
            for (auto& p : b.all.a) b.told.insert(p.first);
        }
        auto rec = std::make_shared<Recorder>();
        rec->stop_at = stops[turn];
        rec->sticky = o.i("sticky", 1);
        rec->jitter = o.i("jitter", 0);
        if (o.has("stage")) { rec->stop_stage = o.s("stage"); for (auto& c : rec->stop_stage) if (c == '_') c = ' '; }
        bool listen = !o.i("deaf");
        if (listen || b.heard) b.a->alg().setTelegram(listen ? std::unique_ptr<gwm::ITelegram>(new Listener(rec)) : std::unique_ptr<gwm::ITelegram>(new gwm::Logger()));
        b.heard = b.heard || listen;
        Results res; std::string err; bool threw = false;
        try { b.a->call(o.name, o, b.d, res); }
        catch (const std::exception& e) { threw = true; err = e.what(); }
        catch (...) { threw = true; err = "not a std::exception"; }
        if (o.has("sweep") && turn == 0) {
            long p = rec->polls, m = o.i("sweep");
            for (long k = 0; k < p; k++) if (p <= m || k < m / 3 || k >= p - m / 3 || (k * m) / (3 * p) != ((k - 1) * m) / (3 * p)) stops.push_back(k);
            stops.push_back(-1);
        }
        J j = ev("run");
        j.i("id", id).t("alg", b.alg).t("call", o.name).b("threw", threw).t("what", err);
        auto st = b.a->alg().status();
        if (!b.all.s("par").compare(0, 3, "mpi")) j.b("dist", true);
        j.t("status", st == gwm::Status::Success ? "success" : st == gwm::Status::Terminated ? "terminated" : "other");
        j.i("polls", rec->polls).i("stopped", rec->stopped_polls).i("stop", rec->stop_at);
        emit_cfg(j, b.all);
        { std::string l = "["; bool first = true; for (auto& k : b.told) { l += (first ? "" : ",") + J::str(k); first = false; } j.raw("told", l + "]"); }
        b.told.clear();
        J arg; for (auto& p : o.a) arg.t(p.first, p.second);
        j.raw("arg", arg.obj());
        J rr; for (auto& p : res.m) rr.m(p.first, p.second);
        j.raw("res", rr.obj());
        {   // the announced stages in order, and whether they came after the request to stop
            std::string l = "["; bool first = true, stopped = false;
            for (auto& q : rec->log) {
                if (q.kind == 's') stopped = true;
                if (q.kind != 'm' || q.text.compare(0, 7, "#stage ")) continue;
                J e; e.t("name", q.text.substr(7)).b("late", stopped); l += (first ? "" : ",") + e.obj(); first = false;
            }
            j.raw("stages", l + "]");
        }
        j.m("evals", reports(rec->log, "#bandwidth-criterion "));
        if (o.i("log")) j.m("vevals", var_reports(rec->log, b.all.i("k", 2))).m("levals", reports(rec->log, "#lambda-optimization "));
        if (b.alg == "mgwr") j.m("steps", backfitting(rec->log));
        if (o.i("log")) {
            std::string l = "["; bool first = true;
            for (auto& s : rec->log) {
                J e; std::string kk(1, s.kind);
                // a message "#tag rest": its tag, whether the rest is all numbers, and the rest
                size_t sp = s.text.find(' '); bool tagged = !s.text.empty() && s.text[0] == '#' && sp != std::string::npos;
                std::string tag = tagged ? s.text.substr(0, sp) : "", rest = tagged ? s.text.substr(sp + 1) : s.text;
                e.t("k", kk).t("tag", tag).t("rest", rest).i("lv", s.level).i("a", (long long)s.a).i("b", (long long)s.b).d("p", s.p);
                l += (first ? "" : ",") + e.obj(); first = false;
            }
            j.raw("log", l + "]");
        }
        emit(j);
        }
    }
}
