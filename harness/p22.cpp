// P22: the stopwatch reports exactly the time spent running. The clocks are replaced by a simulated one (interposed
// clock_gettime/gettimeofday/time), so the expected value is known exactly; a few cases use the real clock and brackets.
#include "vp.hpp"
#include "factorama/stopwatch.hpp"
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <memory>

namespace
{
    bool g_fake = false;
    long long g_mono = 0, g_real = 0; // ns
    long g_calls = 0;
} // namespace

extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
    if (!g_fake) return (int)syscall(SYS_clock_gettime, id, ts);
    g_calls++;
    bool real = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
    bool cpu = id == CLOCK_PROCESS_CPUTIME_ID || id == CLOCK_THREAD_CPUTIME_ID;
    long long t = cpu ? 1000000 : real ? g_real : g_mono; // simulated time passes without any computing
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
}
extern "C" int gettimeofday(struct timeval *tv, void *) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
extern "C" time_t time(time_t *out) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out) *out = ts.tv_sec;
    return ts.tv_sec;
}

namespace vp
{
    using factorama::Stopwatch;
    const char *kProperty = "P22";
    long n_cases(bool t) { return t ? 3000000 : 120000; }

    static void simulated(Ctx& c)
    {
        Rng& r = c.rng;
        struct W {
            Stopwatch s;
            bool run = false;
            long long acc = 0, since = 0; // ns
            int intervals = 0;
        };
        std::vector<W> ws;
        g_mono = (long long)(r.logu(1, 1e8) * 1e9);
        g_real = 1700000000000000000LL + (long long)(r.u() * 1e17);
        g_calls = 0;
        g_fake = true;
        ws.emplace_back();
        bool jumps = r.p(0.3); // somebody sets the wall clock meanwhile
        bool jumped = false;
        std::string log;
        Hash h;
        auto bad = [&](const std::string& key, const std::string& m) {
            g_fake = false;
            c.viol(key, m);
            g_fake = true;
        };
        int n = r.range(1, 40);
        int starts = 0, stops = 0;
        for (int i = 0; i < n; i++) {
            size_t wi = r.u64() % ws.size();
            W& w = ws[wi];
            // time passes
            if (r.p(0.75)) {
                long long dt = r.p(0.3) ? r.range(1, 2000) : (long long)(r.p(0.9) ? r.logu(1e2, 1e11) : r.logu(1e11, 1e17));
                g_mono += dt;
                g_real += dt;
                log += str(" +", dt, "ns");
            }
            if (jumps && r.p(0.15)) {
                long long j = (long long)((r.p(0.5) ? 1 : -1) * r.logu(1e6, 1e13));
                g_real += j;
                jumped = true;
                log += str(" wallclock", j > 0 ? "+" : "", j, "ns");
            }
            int op = r.range(0, 9);
            if (op <= 2) {
                w.s.start();
                if (w.run) c.count("redundant-start");
                if (!w.run) w.run = true, w.since = g_mono;
                starts++;
                log += str(" start", wi);
            } else if (op <= 4) {
                w.s.stop();
                if (!w.run) c.count("redundant-stop");
                if (w.run) w.acc += g_mono - w.since, w.run = false, w.intervals++;
                stops++;
                log += str(" stop", wi);
            } else if (op == 5 && r.p(0.5)) {
                if (w.run) c.count("reset-while-running");
                w.s.reset();
                w.run = false;
                w.acc = 0;
                w.intervals = 0;
                log += str(" reset", wi);
            } else if (op == 6 && ws.size() < 3 && r.p(0.3)) {
                if (r.p(0.5)) ws.push_back(ws[wi]); // a copy goes on by itself
                else ws.emplace_back();
                c.count("another");
                log += str(" copy", wi);
            }
            for (int k = r.range(0, 2); k >= 0 && r.p(0.7); k--) {
                W& v = ws[r.u64() % ws.size()];
                const Stopwatch& cs = v.s;
                double got = cs.elapsed();
                long long e = v.acc + (v.run ? g_mono - v.since : 0);
                double want = (double)((long double)e * 1e-9L);
                c.evals++;
                double tol = 1e-9 * (v.intervals + 1) + 1e-12 * want;
                c.count(v.run ? "read-running" : "read-stopped");
                if (!(std::fabs(got - want) <= tol))
                    bad(jumped ? "elapsed-after-clock-change" : v.run ? "elapsed-running" : "elapsed-stopped",
                        str("elapsed() = ", got, " instead of ", want, " after", log));
                h.d(got);
            }
        }
        g_fake = false;
        if (!g_calls && starts) throw std::runtime_error("the stopwatch does not use the simulated clock");
        if (jumped) c.count("wall-clock-changed");
        c.count("histories");
        c.cover(h.h);
        if (c.want_sample()) c.sample(log);
    }
    static double now()
    {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
        return (double)ts.tv_sec + ts.tv_nsec * 1e-9;
    }
    static void real(Ctx& c)
    {
        Rng& r = c.rng;
        Stopwatch s;
        double lo = 0, hi = 0, in = 0, out = 0;
        bool run = false;
        for (int i = r.range(2, 10); i > 0; i--) {
            int op = r.range(0, 3);
            double a = now();
            if (op == 0) {
                s.start();
                double b = now();
                if (!run) run = true, out = a, in = b;
            } else if (op == 1) {
                s.stop();
                double b = now();
                if (run) lo += a - in, hi += b - out, run = false;
            } else if (op == 2 && r.p(0.3)) {
                s.reset();
                run = false;
                lo = hi = 0;
            }
            if (r.p(0.6)) usleep((useconds_t)r.range(10, 2000));
            double x = now(), e = s.elapsed(), y = now();
            c.eval();
            c.count("real-clock-read");
            double l = lo + (run ? x - in : 0), u = hi + (run ? y - out : 0);
            c.check(e >= l - 1e-6 && e <= u + 1e-6, "elapsed-real", str("elapsed() = ", e, " outside [", l, ", ", u, "]"));
        }
    }
    void run_case(Ctx& c)
    {
        if (c.idx % 100 == 99) real(c);
        else simulated(c);
    }
} // namespace vp
