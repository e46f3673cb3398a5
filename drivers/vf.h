// Common to all drivers: JSON event records, seeded random choices, error classification.
#ifndef VF_H
#define VF_H
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <string>
#include <vector>
#include <random>
#include <sstream>
#include <fstream>
#include <iostream>
#include <mutex>
#include <functional>
#include <utils/except.h>
#include <utils/log.h>

namespace ts { class Tensor; }
namespace vf {
    std::string js(const ts::Tensor &t);      // tensorio.h
    inline FILE *&out() { static FILE *f = nullptr; return f; }
    inline std::mutex &mtx() { static std::mutex m; return m; }

    inline std::string q(const std::string &s) {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += char(c);
        }
        return r + "\"";
    }
    inline std::string js(const std::string &s) { return q(s); }
    inline std::string js(const char *s) { return q(s); }
    inline std::string js(bool b) { return b ? "true" : "false"; }
    inline std::string js(int v) { return std::to_string(v); }
    inline std::string js(long v) { return std::to_string(v); }
    inline std::string js(long long v) { return std::to_string(v); }
    inline std::string js(unsigned v) { return std::to_string(v); }
    inline std::string js(unsigned long v) { return std::to_string(v); }
    template<typename T> std::string js(const std::vector<T> &v) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += js(v[i]); }
        return r + "]";
    }
    template<> inline std::string js(const std::vector<bool> &v) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += js(bool(v[i])); }
        return r + "]";
    }
    struct Raw { std::string s; };
    inline std::string js(const Raw &r) { return r.s; }

    class J {
        std::string s;
    public:
        J() : s("{") {}
        explicit J(const std::string &ev) : s("{") { f("ev", ev); }
        template<typename T> J &f(const char *k, const T &v) {
            if (s.size() > 1) s += ",";
            s += q(k) + ":" + js(v);
            return *this;
        }
        std::string str() const { return s + "}"; }
        Raw raw() const { return Raw{str()}; }
        void emit() const {
            std::lock_guard<std::mutex> g(mtx());
            std::string t = str() + "\n";
            fwrite(t.data(), 1, t.size(), out());
            fflush(out());
        }
    };
    inline std::string js(const J &j) { return j.str(); }

    inline void open(const char *path) {
        out() = fopen(path, "w");
        if (!out()) { fprintf(stderr, "cannot write %s\n", path); exit(77); }
        // TenniS logs to std::cout / std::cerr
        std::cout.setstate(std::ios::failbit);
    }
    [[noreturn]] inline void internal(const std::string &m) { fprintf(stderr, "DRIVER: %s\n", m.c_str()); fflush(stderr); _Exit(77); }

    struct Rng {
        std::mt19937_64 g;
        explicit Rng(uint64_t s) : g(s) {}
        int operator()(int n) { return n <= 1 ? 0 : int(g() % uint64_t(n)); }      // 0..n-1
        int in(int a, int b) { return a + (*this)(b - a + 1); }                     // a..b
        bool p(int percent) { return (*this)(100) < percent; }
        template<typename T> const T &pick(const std::vector<T> &v) { return v[(*this)(int(v.size()))]; }
    };

    // "" when fn returned, otherwise the kind of the exception
    template<typename F> std::string guard(F fn, std::string *what = nullptr) {
        try { fn(); return ""; }
        catch (const ts::Exception &e) { if (what) *what = e.what(); return "ts"; }
        catch (const std::exception &e) { if (what) *what = e.what(); return "std"; }
        catch (...) { return "other"; }
    }
}
#endif
