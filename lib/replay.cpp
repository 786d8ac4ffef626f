// Replays recorded API programs (record.py): once alone, then in several threads at once, and compares results and files.
// replay OUTDIR THREADS ROUNDS SEED OPTIONS program...
#include <capypdf.h>
#include <atomic>
#include <clocale>
#include <cfenv>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iterator>
#include <memory>
#include <mutex>
#include <signal.h>
#include <string>
#include <thread>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

struct Arg {
    int64_t i = 0;
    double d = 0;
    void *p = nullptr;
};
#include "replay_dispatch.inc"

enum { T_NULL, T_INT, T_DBL, T_HANDLE, T_OUTHANDLE, T_BUF, T_HARRAY, T_IDV, T_STR, T_OUTFILE };

struct Program {
    std::string data;
    uint32_t ncalls, nslots;
    explicit Program(const char *f) {
        std::ifstream i(f, std::ios::binary);
        data.assign(std::istreambuf_iterator<char>(i), {});
        memcpy(&ncalls, data.data(), 4);
        memcpy(&nslots, data.data() + 4, 4);
    }
};

static std::atomic<uint64_t> ticket{0};
static std::atomic<int> inside{0};

struct Result {
    std::string problem;
    uint64_t calls = 0, overlapped = 0;
    std::vector<uint32_t> order; // tickets
};

static uint64_t rnd(uint64_t &s) {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return s;
}

static void thread_state(std::string &s) {
    char b[200];
    sigset_t m;
    pthread_sigmask(SIG_BLOCK, nullptr, &m);
    uint64_t mm;
    memcpy(&mm, &m, 8);
    snprintf(b, sizeof b, "round %d locale %p signals %lx", fegetround(), (void *)uselocale((locale_t)0), (long)mm);
    s = b;
}

static void run(const Program &P, const std::string &outfile, uint64_t seed, int jitter, Result &R) {
    std::vector<void *> slot(P.nslots, nullptr);
    const char *p = P.data.data() + 8;
    uint64_t s = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
    std::string st0, st1;
    thread_state(st0);
    auto u32 = [&] { uint32_t v; memcpy(&v, p, 4); p += 4; return v; };
    for(uint32_t c = 0; c < P.ncalls; ++c) {
        uint16_t fn;
        int32_t rc;
        memcpy(&fn, p, 2);
        memcpy(&rc, p + 2, 4);
        int na = (uint8_t)p[6];
        p += 7;
        Arg a[32];
        std::vector<std::unique_ptr<char[]>> bufs;
        std::vector<std::pair<void **, uint32_t>> outs;
        struct Chk { int arg; char *have; const char *want; uint32_t n; };
        std::vector<Chk> chk;
        std::vector<std::unique_ptr<void *[]>> arrs;
        for(int k = 0; k < na; ++k) {
            int t = (uint8_t)*p++;
            switch(t) {
            case T_NULL: break;
            case T_INT: memcpy(&a[k].i, p, 8); p += 8; break;
            case T_DBL: memcpy(&a[k].d, p, 8); p += 8; break;
            case T_IDV: { int32_t v; memcpy(&v, p, 4); p += 4; a[k].i = v; break; }
            case T_HANDLE: a[k].p = slot[u32()]; break;
            case T_OUTHANDLE: {
                uint32_t n = u32();
                a[k].p = &slot[n];
                break;
            }
            case T_STR: {
                uint32_t n = u32();
                bufs.emplace_back(new char[n ? n : 1]);
                memcpy(bufs.back().get(), p, n);
                p += n;
                a[k].p = bufs.back().get();
                break;
            }
            case T_BUF: {
                uint32_t n = u32();
                bufs.emplace_back(new char[n ? n : 1]);
                memcpy(bufs.back().get(), p, n);
                chk.push_back({k, bufs.back().get(), p + n, n});
                p += 2 * n;
                a[k].p = bufs.back().get();
                break;
            }
            case T_HARRAY: {
                uint32_t n = u32();
                arrs.emplace_back(new void *[n ? n : 1]);
                for(uint32_t j = 0; j < n; ++j)
                    arrs.back()[j] = slot[u32()];
                a[k].p = arrs.back().get();
                break;
            }
            case T_OUTFILE: a[k].p = (void *)outfile.c_str(); break;
            default: R.problem = "harness: bad program"; return;
            }
        }
        if(jitter) {
            auto x = rnd(s) % 100;
            if(x < 3)
                std::this_thread::yield();
            else if(x == 3)
                usleep(rnd(s) % 300);
        }
        int others = inside.fetch_add(1, std::memory_order_relaxed);
        if(jitter)
            R.order.push_back((uint32_t)ticket.fetch_add(1, std::memory_order_relaxed));
        auto got = dispatch(fn, a);
        others = std::max(others, inside.fetch_sub(1, std::memory_order_relaxed) - 1);
        ++R.calls;
        if(others > 0)
            ++R.overlapped;
        if(got != rc) {
            char b[300];
            snprintf(b, sizeof b, "call %u %s returned %d, alone %d", c, fnames[fn], (int)got, (int)rc);
            if(R.problem.empty())
                R.problem = b;
        } else {
            for(auto &x : chk)
                if(memcmp(x.have, x.want, x.n) != 0 && R.problem.empty())
                    R.problem = std::string("call ") + std::to_string(c) + " " + fnames[fn] + " gave another result through argument " + std::to_string(x.arg);
        }
        if((c & 15) == 0 || c + 1 == P.ncalls) {
            thread_state(st1);
            if(st0 != st1 && R.problem.empty())
                R.problem = std::string("state of the thread changed by ") + fnames[fn] + ": " + st0 + " -> " + st1;
        }
    }
}

static std::string readfile(const std::string &f) {
    std::ifstream i(f, std::ios::binary);
    std::string s{std::istreambuf_iterator<char>(i), {}};
    // the random file identifier
    size_t pos = 0;
    while((pos = s.find("/ID", pos)) != std::string::npos) {
        size_t a = s.find('[', pos), b = s.find(']', pos);
        if(a != std::string::npos && a < pos + 8 && b != std::string::npos && b < a + 200)
            for(size_t k = a + 1; k < b; ++k)
                if(s[k] != ' ' && s[k] != '\n')
                    s[k] = '-';
        pos += 3;
    }
    return s;
}

static std::string process_state() {
    std::string s = setlocale(LC_ALL, nullptr);
    char b[4096];
    s += getcwd(b, sizeof b) ? b : "?";
    extern char **environ;
    for(char **e = environ; *e; ++e)
        s += *e;
    return s;
}

static std::string umask_and_signals() {
    std::string s;
    for(int i = 1; i < 32; ++i) {
        struct sigaction sa;
        if(sigaction(i, nullptr, &sa) == 0)
            s += std::to_string((long)sa.sa_handler) + ",";
    }
    auto m = umask(0);
    umask(m);
    return s + std::to_string(m);
}


int main(int argc, char **argv) {
    std::string out = argv[1];
    int T = atoi(argv[2]), rounds = atoi(argv[3]);
    uint64_t seed = strtoull(argv[4], nullptr, 10);
    std::string opt = argv[5];
    if(opt.find("locale") != std::string::npos && !setlocale(LC_ALL, ""))
        return 7;
    bool watch = opt.find("watch") != std::string::npos;
    std::vector<Program> P;
    for(int i = 6; i < argc; ++i)
        P.emplace_back(argv[i]);
    auto um0 = umask_and_signals();
    std::vector<std::string> ref;
    uint64_t calls = 0, overlapped = 0, files = 0, alone = 0;
    auto reference = [&] {
        for(size_t j = 0; j < P.size(); ++j) {
            Result R;
            std::string f = out + "/ref.pdf";
            unlink(f.c_str());
            run(P[j], f, 1, 0, R);
            alone += R.calls;
            auto d = readfile(f);
            if(ref.size() <= j)
                ref.push_back(d);
            else if(ref[j] != d)
                printf("PROBLEM alone-again program %zu: the file is another one when the program runs alone after the threads (%zu, %zu bytes)\n", j, ref[j].size(), d.size());
            if(!R.problem.empty())
                printf("PROBLEM alone program %zu: %s\n", j, R.problem.c_str());
        }
    };
    // half of the runs start cold: threads first, so that lazily initialised state is first touched concurrently
    bool cold = opt.find("cold") != std::string::npos;
    if(!cold)
        reference();
    std::vector<std::vector<std::pair<int, std::string>>> later;
    std::vector<uint64_t> inter;
    std::string ps0 = process_state();
    for(int r = 0; r < rounds; ++r) {
        std::atomic<int> go{0};
        std::vector<Result> R(T);
        std::vector<int> which(T);
        std::vector<std::thread> th;
        bool same = (seed + r) % 3 == 0; // all threads run the same program
        uint64_t s = seed * 77 + r * 13 + 5;
        for(int t = 0; t < 3; ++t)
            rnd(s);
        int one = rnd(s) % P.size();
        for(int t = 0; t < T; ++t) {
            which[t] = same ? one : rnd(s) % P.size();
            std::string f = out + "/t" + std::to_string(t) + ".pdf";
            unlink(f.c_str());
        }
        for(int t = 0; t < T; ++t)
            th.emplace_back([&, t, f = out + "/t" + std::to_string(t) + ".pdf"] {
                while(!go.load(std::memory_order_relaxed))
                    std::this_thread::yield();
                run(P[which[t]], f, seed * 1000 + r * 50 + t, 1, R[t]);
            });
        std::atomic<bool> stop{false};
        std::thread w;
        std::string changed;
        if(watch)
            w = std::thread([&] {
                while(!stop.load(std::memory_order_relaxed)) {
                    auto x = process_state();
                    if(x != ps0 && changed.empty())
                        changed = x;
                    usleep(50);
                }
            });
        go.store(1, std::memory_order_relaxed);
        for(auto &x : th)
            x.join();
        if(watch) {
            stop = true;
            w.join();
        }
        if(!changed.empty())
            printf("PROBLEM process-state was changed: %.200s -> %.200s\n", ps0.c_str(), changed.c_str());
        // signature of the interleaving: which thread made each call
        std::vector<uint8_t> ord;
        for(int t = 0; t < T; ++t) {
            calls += R[t].calls;
            overlapped += R[t].overlapped;
            for(auto o : R[t].order) {
                if(ord.size() <= o)
                    ord.resize(o + 1);
                ord[o] = t + 1;
            }
            if(!R[t].problem.empty())
                printf("PROBLEM thread program %d: %s\n", which[t], R[t].problem.c_str());
        }
        uint64_t hsh = 1469598103934665603ull;
        for(auto o : ord)
            hsh = (hsh ^ o) * 1099511628211ull;
        ticket = 0;
        inter.push_back(hsh);
        std::vector<std::pair<int, std::string>> got;
        for(int t = 0; t < T; ++t)
            got.emplace_back(which[t], readfile(out + "/t" + std::to_string(t) + ".pdf"));
        if(cold)
            later.push_back(std::move(got));
        else {
            for(auto &[j, d] : got) {
                ++files;
                if(d != ref[j])
                    printf("PROBLEM file program %d: written with other threads around the file is %zu bytes, alone %zu, and they differ\n", j, d.size(), ref[j].size());
            }
        }
    }
    reference();
    for(auto &got : later)
        for(auto &[j, d] : got) {
            ++files;
            if(d != ref[j])
                printf("PROBLEM file program %d: written with other threads around the file is %zu bytes, alone %zu, and they differ\n", j, d.size(), ref[j].size());
        }
    if(process_state() != ps0)
        printf("PROBLEM process-state was changed\n");
    if(umask_and_signals() != um0)
        printf("PROBLEM process-state: umask or signal handlers were changed\n");
    printf("DONE calls=%lu overlapped=%lu files=%lu alone=%lu", calls, overlapped, files, alone);
    for(auto x : inter)
        printf(" i%lx", x);
    printf("\n");
    return 0;
}
