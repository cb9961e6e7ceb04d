// Shared helpers of the conformance drivers: token input, JSON output.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <cmath>
#include <complex>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

typedef std::vector<double> vd;

// one command per line, so that a call that fails half-way does not upset the next one
struct In {
    std::ifstream file;
    std::istringstream f;
    explicit In(const char* path) : file(path) {}
    bool word(std::string& w) {
        std::string line;
        while (std::getline(file, line)) {
            f.clear();
            f.str(line);
            if (f >> w) return true;
        }
        return false;
    }
    std::string str() { std::string w; if (!(f >> w)) { std::cerr << "driver: incomplete command\n"; std::exit(3); } return w; }
    double num() {
        std::string w = str();
        return std::strtod(w.c_str(), nullptr);
    }
    int integer() { return std::stoi(str()); }
    vd vec(int n) { vd v(n); for (int i = 0; i < n; i++) v[i] = num(); return v; }
    vd lvec() { int n = integer(); return vec(n); }
};

// one JSON object per line, written to its own file (the library prints to stdout)
struct Out {
    FILE* f;
    bool first;
    explicit Out(const char* path) : f(std::fopen(path, "w")), first(true) {}
    ~Out() { std::fclose(f); }
    void sep() { if (!first) std::fputs(", ", f); first = false; }
    void begin() { first = true; std::fputs("{", f); }
    void end() { std::fputs("}\n", f); std::fflush(f); }
    void raw(double x) {
        if (std::isnan(x)) std::fputs("\"nan\"", f);
        else if (std::isinf(x)) std::fputs(x > 0 ? "\"inf\"" : "\"-inf\"", f);
        else std::fprintf(f, "%.17g", x);
    }
    void kv(const char* k, double x) { sep(); std::fprintf(f, "\"%s\": ", k); raw(x); }
    void ki(const char* k, long x) { sep(); std::fprintf(f, "\"%s\": %ld", k, x); }
    void ks(const char* k, const std::string& s) { sep(); std::fprintf(f, "\"%s\": \"%s\"", k, s.c_str()); }
    template <class V> void kl(const char* k, const V& v) {
        sep(); std::fprintf(f, "\"%s\": [", k);
        for (size_t i = 0; i < v.size(); i++) { if (i) std::fputs(", ", f); raw(v[i]); }
        std::fputs("]", f);
    }
};
#endif
