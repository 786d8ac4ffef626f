// Performs a recorded API program (record.py) through the C++ wrapper classes and reports every call whose outcome is not the recorded one.
// wrap PROGRAM OUTFILE SEED
#include <algorithm>
#include <cmath>
#include <concepts>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iterator>
#include <map>
#include <memory>
#include <optional>
#include <span>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#define protected public // only to hand objects to calls that have no wrapper
#include <capypdf.hpp>
#undef protected

struct Slot {
    void *obj = nullptr; // the wrapper object
    int cls = 0;
    void *raw = nullptr; // a handle from a call without wrapper
};

struct Arg {
    int64_t i = 0;
    double d = 0;
    void *p = nullptr;
    Slot *slot = nullptr;
    std::vector<Slot *> arr;
};

struct Outcome {
    bool wrapped = false, threw = false;
    int rc = 0;
    std::string msg;
};

static uint64_t rng = 1;
static bool flip() {
    rng ^= rng << 13;
    rng ^= rng >> 7;
    rng ^= rng << 17;
    return rng >> 20 & 1;
}

template<typename T> constexpr int cls_of = 0;
template<typename T> static bool is(const Arg &a) { return a.slot && a.slot->obj && a.slot->cls == cls_of<T>; }
template<typename T> static T &w(const Arg &a) { return *(T *)a.slot->obj; }
template<typename T> static T *pw(const Arg &a) { return a.slot ? (T *)a.slot->obj : nullptr; }
template<typename T> static std::optional<T> opt(const Arg &a) { return a.p ? std::optional<T>(*(T *)a.p) : std::nullopt; }
static void *handle_of(Slot *s) {
    // every wrapper consists of one unique_ptr
    if(!s)
        return nullptr;
    return s->obj ? (void *)((capypdf::Color *)s->obj)->_d.get() : s->raw;
}
static std::vector<std::unique_ptr<void *[]>> arrays;
static void *rawarray(const Arg &a) {
    arrays.emplace_back(new void *[a.arr.size() + 1]);
    for(size_t i = 0; i < a.arr.size(); ++i)
        arrays.back()[i] = handle_of(a.arr[i]);
    return arrays.back().get();
}
static void *rawp(const Arg &a) { return a.arr.empty() ? handle_of(a.slot) : rawarray(a); }
static void *outp(const Arg &a) { return a.slot ? &a.slot->raw : nullptr; }

// three kinds of byte sequences
struct View {
    const char *d;
    size_t n;
    const char *data() const { return d; }
    size_t size() const { return n; }
};
static View seq(const char *p, int64_t n) { return View{p, (size_t)n}; }

static std::vector<capypdf::Color> *moved;
static std::vector<Slot *> from;
static bool can_colors(const Arg &a, int n) {
    if((int)a.arr.size() != n)
        return false;
    for(int i = 0; i < n; ++i) {
        if(!a.arr[i] || !a.arr[i]->obj)
            return false;
        for(int j = 0; j < i; ++j)
            if(a.arr[i] == a.arr[j])
                return false;
    }
    return true;
}
static capypdf::Color *colors(const Arg &a, int n) {
    static std::vector<capypdf::Color> v;
    v.clear();
    from.clear();
    for(int i = 0; i < n; ++i) {
        v.emplace_back(std::move(*(capypdf::Color *)a.arr[i]->obj));
        from.push_back(a.arr[i]);
    }
    moved = &v;
    return v.data();
}
static void colors_back() {
    if(moved) {
        for(size_t i = 0; i < moved->size(); ++i)
            *(capypdf::Color *)from[i]->obj = std::move((*moved)[i]);
        moved->clear();
        moved = nullptr;
    }
}

static bool is_rotation(Arg *a, double &angle) {
    if(a[5].d != 0 || a[6].d != 0 || a[2].d != -a[3].d || a[1].d != a[4].d)
        return false;
    // the recorder only makes rotations by multiples of 1/16
    angle = std::round(std::atan2(a[2].d, a[1].d) * 16) / 16;
    return std::cos(angle) == a[1].d && std::sin(angle) == a[2].d;
}

template<typename F> static void guard(Outcome &R, F f) {
    try {
        f();
    } catch(const capypdf::PdfException &e) {
        R.threw = true;
        R.msg = e.what();
    } catch(...) {
        R.threw = true;
        R.msg = "(an exception of another type)";
    }
    colors_back();
}

#include "wrap_dispatch.inc"

enum { T_NULL, T_INT, T_DBL, T_HANDLE, T_OUTHANDLE, T_BUF, T_HARRAY, T_IDV, T_STR, T_OUTFILE };

int main(int argc, char **argv) {
    std::ifstream in(argv[1], std::ios::binary);
    std::string data{std::istreambuf_iterator<char>(in), {}};
    std::string outfile = argv[2];
    rng = strtoull(argv[3], nullptr, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
    uint32_t ncalls, nslots;
    memcpy(&ncalls, data.data(), 4);
    memcpy(&nslots, data.data() + 4, 4);
    std::vector<Slot> slot(nslots);
    const char *p = data.data() + 8;
    auto u32 = [&] { uint32_t v; memcpy(&v, p, 4); p += 4; return v; };
    uint64_t nwrapped = 0, nthrown = 0;
    std::map<std::string, int> used;
    for(uint32_t c = 0; c < ncalls; ++c) {
        uint16_t fn;
        int32_t rc;
        memcpy(&fn, p, 2);
        memcpy(&rc, p + 2, 4);
        int na = (uint8_t)p[6];
        p += 7;
        std::vector<Arg> a(na + 1);
        std::vector<std::unique_ptr<char[]>> bufs;
        struct Chk { int arg; char *have; const char *want; uint32_t n; };
        std::vector<Chk> chk;
        for(int k = 0; k < na; ++k) {
            int t = (uint8_t)*p++;
            switch(t) {
            case T_NULL: break;
            case T_INT: memcpy(&a[k].i, p, 8); p += 8; break;
            case T_DBL: memcpy(&a[k].d, p, 8); p += 8; break;
            case T_IDV: { int32_t v; memcpy(&v, p, 4); p += 4; a[k].i = v; break; }
            case T_HANDLE: case T_OUTHANDLE: a[k].slot = &slot[u32()]; break;
            case T_STR: {
                uint32_t n = u32();
                bufs.emplace_back(new char[n ? n : 1]);
                memcpy(bufs.back().get(), p, n);
                p += n;
                a[k].p = bufs.back().get();
                break;
            }
            case T_BUF: {
                uint32_t n = u32();
                bufs.emplace_back(new char[n ? n : 1]);
                memcpy(bufs.back().get(), p, n);
                chk.push_back({k, bufs.back().get(), p + n, n});
                p += 2 * n;
                a[k].p = bufs.back().get();
                break;
            }
            case T_HARRAY: {
                uint32_t n = u32();
                for(uint32_t j = 0; j < n; ++j)
                    a[k].arr.push_back(&slot[u32()]);
                break;
            }
            case T_OUTFILE: a[k].p = (void *)outfile.c_str(); break;
            default: printf("BAD\n"); return 3;
            }
        }
        Outcome R = dispatch(fn, a.data());
        arrays.clear();
        bool same;
        if(R.wrapped) {
            ++nwrapped;
            ++used[fnames[fn]];
            if(R.threw) {
                ++nthrown;
                same = rc != 0 && R.msg == capy_error_message(rc);
            } else
                same = rc == 0;
        } else
            same = R.rc == rc;
        if(!same) {
            printf("PROBLEM outcome %s call %u: the C call returned %d (%s), %s\n", fnames[fn], c, rc, capy_error_message(rc),
                   !R.wrapped ? ("here " + std::to_string(R.rc)).c_str() : R.threw ? ("the wrapper threw: " + R.msg).c_str() : "the wrapper did not throw");
            if(rc == 0 || R.wrapped)
                break; // what follows depends on it
        } else if(rc == 0) {
            for(auto &x : chk)
                if(memcmp(x.have, x.want, x.n) != 0)
                    printf("PROBLEM result %s call %u: another result in argument %d\n", fnames[fn], c, x.arg);
        }
    }
    printf("DONE calls=%u wrapped=%lu thrown=%lu", ncalls, nwrapped, nthrown);
    for(auto &[k, v] : used)
        printf(" %s:%d", k.c_str(), v);
    printf("\n");
    // the program is over: objects it did not destroy go away with their wrappers
    for(auto &s : slot)
        if(s.obj)
            destroy_wrapper(s);
    return 0;
}
