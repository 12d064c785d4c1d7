// Shared parts of the harnesses: scenario scripts in, one JSON trace line per scenario out.
#pragma once
#include <armadillo>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace vh {

// ---- JSON output. Doubles are written as the two 32-bit halves of their bit pattern.
struct J {
    std::string s;
    bool first = true;
    J() {}
    static std::string num(double x)
    {
        if (x != x) { x = std::numeric_limits<double>::quiet_NaN(); uint64_t q = 0x7ff8000000000000ull; std::memcpy(&x, &q, 8); }
        int64_t b; std::memcpy(&b, &x, 8);
        return "[" + std::to_string((int32_t)(b >> 32)) + "," + std::to_string((int32_t)(b & 0xffffffffll)) + "]";
    }
    static std::string str(const std::string& x)
    {
        std::string r = "\"";
        for (char c : x) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if ((unsigned char)c < 32 || (unsigned char)c > 126) r += '?';
            else r += c;
        }
        return r + "\"";
    }
    static std::string vec(const arma::vec& v)
    {
        std::string r = "[";
        for (arma::uword i = 0; i < v.n_elem; i++) { if (i) r += ","; r += num(v(i)); }
        return r + "]";
    }
    static std::string mat(const arma::mat& m)
    {
        std::string r = "[";
        for (arma::uword i = 0; i < m.n_rows; i++) {
            if (i) r += ",";
            r += "[";
            for (arma::uword j = 0; j < m.n_cols; j++) { if (j) r += ","; r += num(m(i, j)); }
            r += "]";
        }
        return r + "]";
    }
    J& raw(const std::string& k, const std::string& v) { if (!first) s += ","; first = false; s += "\"" + k + "\":" + v; return *this; }
    J& d(const std::string& k, double v) { return raw(k, num(v)); }
    J& i(const std::string& k, long long v) { return raw(k, std::to_string(v)); }
    J& b(const std::string& k, bool v) { return raw(k, v ? "true" : "false"); }
    J& t(const std::string& k, const std::string& v) { return raw(k, str(v)); }
    J& v(const std::string& k, const arma::vec& x) { return raw(k, vec(x)); }
    J& m(const std::string& k, const arma::mat& x) { return raw(k, mat(x)); }
    J& iv(const std::string& k, const std::vector<size_t>& x)
    {
        std::string r = "[";
        for (size_t i = 0; i < x.size(); i++) { if (i) r += ","; r += std::to_string(x[i]); }
        return raw(k, r + "]");
    }
    std::string obj() const { return "{" + s + "}"; }
};

// ---- one operation of a scenario
struct Op {
    std::string name;
    std::map<std::string, std::string> a;
    bool has(const std::string& k) const { return a.count(k) > 0; }
    std::string s(const std::string& k, const std::string& def = "") const { auto i = a.find(k); return i == a.end() ? def : i->second; }
    double d(const std::string& k, double def = 0) const { auto i = a.find(k); return i == a.end() ? def : std::strtod(i->second.c_str(), nullptr); }
    long i(const std::string& k, long def = 0) const { auto it = a.find(k); return it == a.end() ? def : std::strtol(it->second.c_str(), nullptr, 10); }
    static std::vector<std::string> split(const std::string& x, char c)
    {
        std::vector<std::string> r; std::string cur;
        if (x.empty()) return r;
        for (char ch : x) { if (ch == c) { r.push_back(cur); cur.clear(); } else cur += ch; }
        r.push_back(cur);
        return r;
    }
    std::vector<std::string> list(const std::string& k) const { return split(s(k), ','); }
    arma::vec v(const std::string& k) const
    {
        auto l = list(k); arma::vec r(l.size());
        for (size_t j = 0; j < l.size(); j++) r(j) = std::strtod(l[j].c_str(), nullptr);
        return r;
    }
    std::vector<long> il(const std::string& k) const
    {
        std::vector<long> r; for (auto& x : list(k)) r.push_back(std::strtol(x.c_str(), nullptr, 10)); return r;
    }
    std::vector<double> dl(const std::string& k) const { std::vector<double> r; for (auto& x : list(k)) r.push_back(std::strtod(x.c_str(), nullptr)); return r; }
    std::vector<std::string> sl(const std::string& k) const { return list(k); }
    arma::mat m(const std::string& k) const
    {
        auto rows = split(s(k), ';');
        if (rows.empty()) return arma::mat();
        size_t nc = split(rows[0], ',').size();
        arma::mat r(rows.size(), nc);
        for (size_t i = 0; i < rows.size(); i++) { auto c = split(rows[i], ','); for (size_t j = 0; j < nc; j++) r(i, j) = std::strtod(c[j].c_str(), nullptr); }
        return r;
    }
};

void emit(const J& j);
void emit_line(const std::string& text);
void emit_to(int fd);
int rank_main(int argc, char** argv) __attribute__((weak));   // one process of a distributed run          // append one event to the trace of the running scenario
J ev(const std::string& name);  // start an event

// ---- deterministic pseudo random numbers
struct Rng {
    uint64_t x;
    explicit Rng(uint64_t seed) : x(seed * 0x9e3779b97f4a7c15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    double u() { return (next() >> 11) * 0x1.0p-53; }
    double u(double a, double b) { return a + (b - a) * u(); }
    double n() { double a = u(), b = u(); return std::sqrt(-2 * std::log(a + 1e-300)) * std::cos(6.283185307179586 * b); }
    int k(int m) { return (int)(next() % (uint64_t)m); }
};

// provided by each harness: execute one scenario
void run_scenario(const std::vector<Op>& ops);
extern int g_timeout;  // seconds per scenario

}
