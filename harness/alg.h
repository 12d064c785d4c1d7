// Adaptors: every algorithm of the library behind one interface for the scenario driver h_alg.cpp.
#pragma once
#include "weightlib.h"
#include "gwmodelpp/Algorithm.h"
#include "gwmodelpp/IParallelizable.h"
#include "gwmodelpp/RegressionDiagnostic.h"
#include <mutex>
#include <thread>
#include <chrono>

namespace vh {

// A data set: coordinates, times, design matrix, response, labels.
struct Data {
    arma::mat coords, x;
    arma::vec y, t;
    std::vector<std::string> lab;
};
Data make_data(const Op& o);

// The caller's side of a run: records what it is told, and asks to stop at the given poll.
struct Message { std::string text; int level; };
struct Step { char kind; size_t a, b; double p; std::string text; int level; };   // 'm'essage, 'p'rogress, 'q' percent, 's'topped
struct Recorder {
    std::mutex mu;
    std::vector<Step> log;
    long polls = 0, stop_at = -1;   // stop from this poll on (0-based)
    bool sticky = true;             // keep asking to stop afterwards
    long stopped_polls = 0;
    std::string stop_stage;         // or: stop from the announcement of this stage on
    bool stage_seen = false;
    bool quiet = false;             // do not record
    unsigned jitter = 0;            // delay the threads that ask, each by its own few microseconds
    void delay(long k) const
    {
        if (!jitter) return;
        unsigned long h = (k + 1) * 0x9E3779B97F4A7C15ul ^ jitter * 0xBF58476D1CE4E5B9ul; h ^= h >> 29; h *= 0x94D049BB133111EBul; h ^= h >> 32;
        if (h % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds((h >> 8) % 40));
        else if (h % 3 == 1) std::this_thread::yield();
    }
};
struct Listener : gwm::ITelegram {
    std::shared_ptr<Recorder> r;
    explicit Listener(std::shared_ptr<Recorder> q) : r(q) {}
    void print(std::string message, LogLevel level, std::string, std::string) override
    {
        std::lock_guard<std::mutex> g(r->mu);
        if (!r->stop_stage.empty() && message == "#stage " + r->stop_stage) r->stage_seen = true;
        if (!r->quiet) r->log.push_back({ 'm', 0, 0, 0, message, (int)level });
    }
    void progress(std::size_t c, std::size_t t, std::string, std::string) override
    {
        std::lock_guard<std::mutex> g(r->mu);
        if (!r->quiet) r->log.push_back({ 'p', c, t, 0, "", 0 });
    }
    void progress(double p, std::string, std::string) override
    {
        std::lock_guard<std::mutex> g(r->mu);
        if (!r->quiet) r->log.push_back({ 'q', 0, 0, p, "", 0 });
    }
    bool stop() override
    {
        std::unique_lock<std::mutex> g(r->mu);
        long k = r->polls++;
        if (r->jitter) { g.unlock(); r->delay(k); g.lock(); }
        bool yes = r->stage_seen || (r->stop_at >= 0 && (r->sticky ? k >= r->stop_at : k == r->stop_at));
        if (yes && r->stopped_polls++ == 0 && !r->quiet) r->log.push_back({ 's', 0, 0, 0, "", 0 });
        return yes;
    }
};

struct Results {
    std::vector<std::pair<std::string, arma::mat>> m;
    void add(const std::string& k, const arma::mat& v) { m.push_back({ k, v }); }
    void num(const std::string& k, double v) { arma::mat q(1, 1); q(0, 0) = v; add(k, q); }
    void cube(const std::string& k, const arma::cube& c)
    {
        arma::mat q(c.n_rows * c.n_slices, c.n_cols);
        for (arma::uword s = 0; s < c.n_slices; s++) if (c.n_rows && c.n_cols) q.rows(s * c.n_rows, (s + 1) * c.n_rows - 1) = c.slice(s);
        add(k, q);
    }
    void diag(const gwm::RegressionDiagnostic& d)
    {
        arma::mat q = { { d.RSS, d.AIC, d.AICc, d.ENP, d.EDF, d.RSquare, d.RSquareAdjust } };
        add("diag", q);
    }
};

struct Adaptor {
    virtual ~Adaptor() {}
    virtual gwm::Algorithm& alg() = 0;
    // apply the settings named in `delta`; `all` is the whole configuration including them
    virtual void set(const Op& delta, const Op& all, const Data& d) = 0;
    // call an operation and collect everything observable afterwards
    virtual void call(const std::string& what, const Op& o, const Data& d, Results& r) = 0;
};
using Factory = std::function<std::unique_ptr<Adaptor>()>;
std::map<std::string, Factory>& registry();
struct Register { Register(const std::string& n, Factory f) { registry()[n] = f; } };

inline bool any(const Op& o, std::initializer_list<const char*> ks) { for (auto k : ks) if (o.has(k)) return true; return false; }
// keys that determine the data set, and the weighting
// how many places a prediction is asked for: a number, or as many as there are samples
inline int locations_of(const Op& o, const Data& d) { return o.s("ln") == "n" ? (int)d.coords.n_rows : o.i("ln", 5); }
inline bool data_changed(const Op& o) { return any(o, { "n", "k", "seed", "pts", "xk", "yk", "tk", "ng" }); }
inline bool weight_changed(const Op& o) { return any(o, { "kern", "ad", "bw", "dk", "geo", "ord", "theta", "sp", "lambda", "angle" }); }

inline std::unique_ptr<Distance> distance_of(const Op& all)
{
    Op q = all; q.a["kind"] = all.s("dk", "crs");
    return make_distance(q);
}
inline SpatialWeight weight_of(const Op& all)
{
    BandwidthWeight bw(all.d("bw", 10), all.i("ad", 1), kernel_of(all.s("kern", "gaussian")));
    auto d = distance_of(all);
    return SpatialWeight(&bw, d.get());
}
template <class A> void set_parallel(A& a, const Op& delta, const Op& all)
{
    if (any(delta, { "par", "thr" })) {
        a.setParallelType(all.s("par", "serial") == "omp" ? ParallelType::OpenMP : ParallelType::SerialOnly);
        a.setOmpThreadNum(all.i("thr", 4));
    }
}
extern int g_rank, g_procs;   // this process among those of a distributed run
// what a worker is told of the data: wd=0 nothing, wd=1 everything, wd=2 the predictors only
inline bool knows(const Op& all, const char* what) { return g_rank == 0 || all.i("wd", 1) == 1 || (all.i("wd", 1) == 2 && *what == 'x'); }
// the models that can also run distributed: par=mpi, par=mpimp
template <class A> void set_distributed(A& a, const Op& delta, const Op& all)
{
    std::string p = all.s("par", "serial");
    if (any(delta, { "par", "thr" }) && p.compare(0, 3, "mpi") == 0) {
        a.setParallelType(p == "mpimp" ? ParallelType::MPI_MP : ParallelType::MPI_Serial);
        a.setOmpThreadNum(all.i("thr", 2)); a.setWorkerId(g_rank); a.setWorkerNum(g_procs);
    }
    else set_parallel(a, delta, all);
}
template <class L> arma::mat bw_list(const L& l)
{
    arma::mat q(l.size(), 2); size_t i = 0;
    for (auto& p : l) { q(i, 0) = p.first; q(i, 1) = p.second; i++; }
    return q;
}
// the recorded variable subsets: one row each, the score and then the indices padded with -1
template <class L> arma::mat var_list(const L& l, size_t k)
{
    arma::mat q(l.size(), k + 1); q.fill(-1); size_t i = 0;
    for (auto& p : l) { q(i, 0) = p.second; for (size_t j = 0; j < p.first.size() && j < k; j++) q(i, j + 1) = (double)p.first[j]; i++; }
    return q;
}
inline arma::mat uv(const std::vector<size_t>& v) { arma::mat q(1, v.size()); for (size_t i = 0; i < v.size(); i++) q(0, i) = (double)v[i]; return q; }
}
