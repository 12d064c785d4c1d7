// Scenario driver: every scenario runs in its own child process, so that crashes and hangs are trace events.
#include "common.h"
#include <csignal>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>

namespace vh {
int g_timeout = 60;
static int g_fd = -1;

J ev(const std::string& name) { J j; j.t("ev", name); return j; }
void emit(const J& j) { emit_line(j.obj()); }
void emit_line(const std::string& text)
{
    std::string l = text + "\n";
    size_t o = 0;
    while (o < l.size()) { ssize_t w = write(g_fd, l.data() + o, l.size() - o); if (w <= 0) _exit(97); o += w; }
}
void emit_to(int fd) { g_fd = fd; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static bool one(const std::string& id, const std::vector<Op>& ops)
{
    int p[2];
    if (pipe(p)) { perror("pipe"); exit(3); }
    std::cout.flush();
    pid_t c = fork();
    if (c < 0) { perror("fork"); exit(3); }
    if (c == 0) {
        close(p[0]); g_fd = p[1];
        int dn = open("/dev/null", 1);
        if (!getenv("VH_VERBOSE")) { dup2(dn, 1); dup2(dn, 2); }
        try { run_scenario(ops); }
        catch (const std::exception& e) { J j = ev("uncaught"); j.t("what", e.what()); emit(j); }
        catch (...) { J j = ev("uncaught"); j.t("what", "unknown"); emit(j); }
        _exit(0);
    }
    close(p[1]);
    std::string buf; char tmp[65536]; bool hang = false;
    double t0 = now();
    for (;;) {
        pollfd f{ p[0], POLLIN, 0 };
        double left = g_timeout - (now() - t0);
        if (left <= 0) { hang = true; break; }
        int r = poll(&f, 1, (int)(left * 1000) + 1);
        if (r == 0) { hang = true; break; }
        ssize_t k = read(p[0], tmp, sizeof tmp);
        if (k <= 0) break;
        buf.append(tmp, k);
    }
    if (hang) kill(c, SIGKILL);
    int st = 0; waitpid(c, &st, 0);
    close(p[0]);
    std::string out = "{\"id\":" + J::str(id) + ",\"tr\":[";
    std::istringstream is(buf); std::string line; bool first = true;
    while (std::getline(is, line)) {
        if (line.empty() || line.back() != '}') continue;
        if (!first) out += ",";
        first = false; out += line;
    }
    std::string tail;
    if (hang) tail = "{\"ev\":\"hang\"}";
    else if (WIFSIGNALED(st)) tail = "{\"ev\":\"crash\",\"sig\":" + std::to_string(WTERMSIG(st)) + "}";
    else if (WEXITSTATUS(st)) tail = "{\"ev\":\"crash\",\"sig\":" + std::to_string(1000 + WEXITSTATUS(st)) + "}";
    else tail = "{\"ev\":\"done\"}";
    if (!first) out += ",";
    out += tail + "]}";
    std::cout << out << "\n";
    return hang || buf.find("{\"ev\":\"hang\"") != std::string::npos;
}
}

int main(int argc, char** argv)
{
    using namespace vh;
    if (argc < 2) return 2;
    if (argc > 2 && std::string(argv[1]) == "--rank") return rank_main ? rank_main(argc, argv) : 2;
    std::ifstream in(argv[1]);
    std::string line, id; std::vector<Op> ops;
    int hangs = 0;   // enough of them are evidence enough
    while (std::getline(in, line)) {
        std::istringstream is(line); std::string w; is >> w;
        if (w.empty() || w[0] == '#') continue;
        if (w == "scn") { is >> id; ops.clear(); }
        else if (w == "end") { if (one(id, ops) && ++hangs >= 4) return 0; }
        else {
            Op o; o.name = w;
            while (is >> w) { auto e = w.find('='); if (e == std::string::npos) o.a[w] = "1"; else o.a[w.substr(0, e)] = w.substr(e + 1); }
            ops.push_back(o);
        }
    }
    return 0;
}
