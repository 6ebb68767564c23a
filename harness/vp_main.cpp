#include "vp.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>

extern "C" void vp_eigen_fail(const char *expr, const char *file, int line)
{
    const char *b = strrchr(file, '/');
    fprintf(stderr, "VP-EIGEN-ASSERT: %s (%s:%d)\n", expr, b ? b + 1 : file, line);
    fflush(stderr);
    abort();
}

namespace vp
{
    static FILE *g_out = nullptr;
    static std::string esc(const std::string& s)
    {
        std::string o;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                o += '\\';
                o += (char)c;
            } else if (c < 32) {
                char b[8];
                snprintf(b, 8, "\\u%04x", c);
                o += b;
            } else
                o += (char)c;
        }
        return o;
    }
    static std::map<std::string, long>& per_key()
    {
        static std::map<std::string, long> m;
        return m;
    }
    void Ctx::viol(const std::string& key, const std::string& msg)
    {
        viols_in_case++;
        long& n = per_key()[key];
        if (++n <= 6) {
            fprintf(g_out, "{\"t\":\"viol\",\"case\":%ld,\"key\":\"%s\",\"msg\":\"%s\"}\n", idx, esc(key).c_str(),
                    esc(msg).c_str());
            fflush(g_out);
        }
    }
} // namespace vp

struct NullBuf : std::streambuf {
    int overflow(int c) override { return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};

int main(int argc, char **argv)
{
    using namespace vp;
    uint64_t seed = 1;
    long shard = 0, nsh = 1, from = 0, only = -1, cases = -1;
    bool thorough = false;
    std::string out = "/dev/stdout", cur;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if (a == "--shard") shard = atol(v.c_str());
        else if (a == "--nshards") nsh = atol(v.c_str());
        else if (a == "--from") from = atol(v.c_str());
        else if (a == "--case") only = atol(v.c_str());
        else if (a == "--cases") cases = atol(v.c_str());
        else if (a == "--tier") thorough = v == "thorough";
        else if (a == "--out") out = v;
        else if (a == "--cur") cur = v;
        else {
            fprintf(stderr, "bad arg %s\n", a.c_str());
            return 2;
        }
    }
    g_out = fopen(out.c_str(), "a");
    if (!g_out) return 2;
    volatile long *curp = nullptr;
    if (!cur.empty()) {
        int fd = open(cur.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, 8)) return 2;
        curp = (volatile long *)mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if ((void *)curp == MAP_FAILED) return 2;
        *curp = -1;
        close(fd);
    }
    static NullBuf *nb = new NullBuf; // outlives the streams
    std::cout.rdbuf(nb);
    std::cerr.rdbuf(nb);
    Ctx c;
    c.seed = seed;
    c.thorough = thorough;
    if (cases < 0) cases = n_cases(thorough);
    long lo = only >= 0 ? only : 0, hi = only >= 0 ? only + 1 : cases;
    long badcases = 0, skipped = 0;
    for (long i = lo; i < hi; i++) {
        if (only < 0 && (i % nsh != shard || i < from)) continue;
        if (curp) *curp = i;
        c.idx = i;
        c.replay = only >= 0;
        c.viols_in_case = 0;
        c.rng = Rng(mix(seed * 1000003ULL + hstr(kProperty)) ^ mix((uint64_t)i + 77));
        try {
            run_case(c);
        } catch (const Skip&) {
            skipped++;
        } catch (const std::exception& e) {
            // every exception a property allows is caught where it is allowed
            c.viol("unexpected-exception", std::string("exception escaped: ") + e.what());
        }
        if (c.viols_in_case && ++badcases >= 4000) break; // plenty of witnesses
    }
    fprintf(g_out, "{\"t\":\"sum\",\"evals\":%ld,\"skipped\":%ld,\"counts\":{", c.evals, skipped);
    bool first = true;
    for (auto& kv : c.counts) {
        fprintf(g_out, "%s\"%s\":%ld", first ? "" : ",", esc(kv.first).c_str(), kv.second);
        first = false;
    }
    fprintf(g_out, "},\"cov\":[");
    first = true;
    for (auto h : c.cov) {
        fprintf(g_out, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
        first = false;
    }
    fprintf(g_out, "],\"samples\":[");
    first = true;
    for (auto& s : c.samples) {
        fprintf(g_out, "%s\"%s\"", first ? "" : ",", esc(s).c_str());
        first = false;
    }
    fprintf(g_out, "]}\n");
    fclose(g_out);
    if (curp) *curp = -2; // finished
    return 0;
}
