// Distributed runs: every scenario is started under mpirun with the number of processes it asks for; the root's
// events are the trace, followed by how the same call ended on every other process.
#define run_scenario run_local
#include "h_alg.cpp"
#undef run_scenario
#include <mpi.h>
#include <fstream>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
void mat_mul_mpi(arma::mat& a, arma::mat& b, arma::mat& c, const int ip, const int np, const size_t range);

static std::string self_path() { char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); return std::string(b, k > 0 ? k : 0); }
static std::vector<std::string> lines_of(const std::string& f)
{
    std::ifstream in(f); std::vector<std::string> r; std::string l;
    while (std::getline(in, l)) if (!l.empty() && l.back() == '}') r.push_back(l);
    return r;
}

namespace vh {
void run_scenario(const std::vector<Op>& ops)
{
    long np = ops.at(0).i("np", 2);
    std::string dir = self_path(); dir = dir.substr(0, dir.rfind('/')) + "/mpi-XXXXXX";
    std::vector<char> t(dir.begin(), dir.end()); t.push_back(0);
    if (!mkdtemp(t.data())) throw std::runtime_error("mkdtemp");
    dir = t.data();
    {
        std::ofstream f(dir + "/scn");
        for (auto& o : ops) { f << o.name; for (auto& p : o.a) f << " " << p.first << "=" << p.second; f << "\n"; }
    }
    std::string cmd = "exec timeout -k 3 20 mpirun -np " + std::to_string(np) + " " + self_path() + " --rank " + dir + "/scn " + dir + " >" + dir + "/log 2>&1";
    int st = std::system(cmd.c_str());
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st);
    std::vector<std::vector<std::string>> other;
    for (long r = 1; r < np; r++) {
        std::vector<std::string> q;
        for (auto& l : lines_of(dir + "/out." + std::to_string(r))) if (l.find("\"dist\":true") != std::string::npos || l.find("\"ev\":\"block\"") != std::string::npos) q.push_back(l);
        other.push_back(q);
    }
    size_t k = 0;
    for (auto& l : lines_of(dir + "/out.0")) {
        emit_line(l);
        bool call = l.find("\"dist\":true") != std::string::npos, block = l.find("\"ev\":\"block\"") != std::string::npos;
        if (!call && !block) continue;
        for (long r = 1; r < np; r++) {
            bool has = k < other[r - 1].size();
            if (block) { if (has) emit_line(other[r - 1][k]); }
            else {
                J j = ev("rank"); j.i("rank", r).b("ended", has).b("threw", has && other[r - 1][k].find("\"threw\":true") != std::string::npos);
                emit(j);
            }
        }
        k++;
    }
    if (rc == 124 || rc == 137) { J j = ev("hang"); emit(j); }
    else if (rc) { J j = ev("crash"); j.i("sig", rc); emit(j); }
    std::string rm = "rm -rf " + dir;
    if (dir.find("/mpi-") != std::string::npos && std::system(rm.c_str())) {}
}

int rank_main(int argc, char** argv)
{
    MPI_Init(&argc, &argv);
    MPI_Comm_rank(MPI_COMM_WORLD, &g_rank); MPI_Comm_size(MPI_COMM_WORLD, &g_procs);
    int fd = open((std::string(argv[3]) + "/out." + std::to_string(g_rank)).c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    emit_to(fd);
    std::ifstream in(argv[2]); std::string line; std::vector<Op> ops;
    while (std::getline(in, line)) {
        std::istringstream is(line); std::string w; is >> w; if (w.empty()) continue;
        Op o; o.name = w;
        while (is >> w) { auto e = w.find('='); if (e == std::string::npos) o.a[w] = "1"; else o.a[w.substr(0, e)] = w.substr(e + 1); }
        ops.push_back(o);
    }
    Op head = ops.at(0); ops.erase(ops.begin());
    if (head.name == "mul") {   // a product of matrices whose rows are spread over the processes
        std::vector<long> rows = head.il("rows"); long m = 0, from = 0, cols = head.i("cols", 3);
        for (size_t i = 0; i < rows.size(); i++) { if ((int)i < g_rank) from += rows[i]; m += rows[i]; }
        Rng q(head.i("seed", 1) * 977ull + 5);
        arma::mat A(m, m), B(m, cols);
        for (auto& v : A) v = q.u(-3, 3);
        for (auto& v : B) v = q.u(-3, 3);
        long k = rows.at(g_rank);
        arma::mat a(k, m), b(k, cols), c;
        for (long i = 0; i < k; i++) { a.row(i) = A.row(from + i); b.row(i) = B.row(from + i); }
        if (g_rank == 0) { J j = ev("mul"); j.m("a", A).m("b", B).m("rows", arma::mat(arma::conv_to<arma::rowvec>::from(rows))); emit(j); }
        std::string err; bool threw = false;
        try { mat_mul_mpi(a, b, c, g_rank, g_procs, k); } catch (const std::exception& e) { threw = true; err = e.what(); }
        J j = ev("block"); j.i("rank", g_rank).b("threw", threw).t("what", err).i("nr", c.n_rows).i("nc", c.n_cols).m("c", c);
        emit(j);
    }
    else run_local(ops);
    MPI_Finalize();
    return 0;
}
}
