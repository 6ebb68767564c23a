// Common runtime of all C++ monitors: deterministic RNG, case loop, verdict and coverage events.
#pragma once
#include <cstdint>
#include <cmath>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vp
{
    inline uint64_t mix(uint64_t x)
    {
        x += 0x9E3779B97F4A7C15ULL;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
        return x ^ (x >> 31);
    }
    inline uint64_t hstr(const std::string& s)
    {
        uint64_t h = 1469598103934665603ULL;
        for (unsigned char c : s) {
            h = (h ^ c) * 1099511628211ULL;
        }
        return h;
    }
    struct Hash {
        uint64_t h = 1469598103934665603ULL;
        void u(uint64_t v) { h = mix(h ^ v); }
        void d(double v)
        {
            uint64_t b;
            if (v == 0.0) v = 0.0;
            __builtin_memcpy(&b, &v, 8);
            u(b);
        }
        void s(const std::string& v) { u(hstr(v)); }
        template <class M> void m(const M& x)
        {
            u((uint64_t)x.rows());
            u((uint64_t)x.cols());
            for (int j = 0; j < x.cols(); j++)
                for (int i = 0; i < x.rows(); i++)
                    d((double)x(i, j));
        }
    };

    struct Rng {
        uint64_t s;
        explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
        uint64_t u64() { return s = mix(s); }
        double u() { return (double)(u64() >> 11) * (1.0 / 9007199254740992.0); } // [0,1)
        double uni(double a, double b) { return a + (b - a) * u(); }
        int range(int a, int b) { return a + (int)(u64() % (uint64_t)(b - a + 1)); } // inclusive
        bool p(double pr) { return u() < pr; }
        double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
        double n()
        {
            double a = u(), b = u();
            if (a < 1e-300) a = 1e-300;
            return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
        }
        template <class T> const T& pick(const std::vector<T>& v) { return v[u64() % v.size()]; }
        template <class T> void shuffle(std::vector<T>& v)
        {
            for (size_t i = v.size(); i > 1; i--)
                std::swap(v[i - 1], v[u64() % i]);
        }
    };

    struct Skip {};                        // the case turned out not to be in the property's domain
    struct Ctx {
        uint64_t seed = 1;
        long idx = 0;
        bool thorough = false;
        bool replay = false;
        Rng rng;
        long evals = 0;
        std::map<std::string, long> counts;
        std::set<uint64_t> cov;
        std::vector<std::string> samples;
        long viols_in_case = 0;
        void viol(const std::string& key, const std::string& msg);
        void eval(long k = 1) { evals += k; }
        void count(const std::string& k, long n = 1) { counts[k] += n; }
        void cover(uint64_t h) { cov.insert(h); }
        void sample(const std::string& s)
        {
            if (samples.size() < 3) samples.push_back(s);
        }
        bool want_sample() const { return samples.size() < 3; }
        // monitor: condition must hold
        bool check(bool ok, const std::string& key, const std::string& msg)
        {
            if (!ok) viol(key, msg);
            return ok;
        }
    };

    // implemented by every property's translation unit
    extern const char *kProperty;
    long n_cases(bool thorough);
    void run_case(Ctx& c);

    template <class... A> std::string str(const A&...a)
    {
        std::ostringstream o;
        o.precision(17);
        (o << ... << a);
        return o.str();
    }
    template <class M> std::string mstr(const M& m)
    {
        std::ostringstream o;
        o.precision(10);
        if (m.size() > 600) { // (too long to read, and to print for every check)
            o << m.rows() << "x" << m.cols() << " matrix";
            return o.str();
        }
        o << "[";
        for (int i = 0; i < m.rows(); i++) {
            if (i) o << "; ";
            for (int j = 0; j < m.cols(); j++)
                o << (j ? " " : "") << (double)m(i, j);
        }
        o << "]";
        return o.str();
    }
} // namespace vp
