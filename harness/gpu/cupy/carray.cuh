// Stand-in for cupy's header: CUDA C on a CPU.
//
// The threads of a block are fibers.  A fiber runs until it ends or waits for
// other threads (a barrier or an exchange between the lanes of a warp); which
// one runs next is chosen from a seed, so a seed is a schedule.  Shared
// memory is filled with garbage before each block, accesses outside an array
// and uses of the primitives that CUDA leaves undefined are recorded.
#pragma once
#include <ucontext.h>
#include <cmath>
#include <math.h>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __restrict__
#define __noinline__
#define __constant__ static
#define __launch_bounds__(...)
#define __align__(n) __attribute__((aligned(n)))
#define __shared__ static __attribute__((section("cudashared")))
extern "C" char __start_cudashared[], __stop_cudashared[];
static char emu_anchor __attribute__((section("cudashared"), used));

struct emu_dim { unsigned x, y, z; };
using dim3 = emu_dim;
#define VEC(T) \
  struct __align__(2*sizeof(T)) T##2 { T x, y; }; \
  struct T##3 { T x, y, z; }; \
  struct T##4 { T x, y, z, w; }; \
  static inline T##2 make_##T##2(T x, T y) { return T##2{x, y}; } \
  static inline T##3 make_##T##3(T x, T y, T z) { return T##3{x, y, z}; } \
  static inline T##4 make_##T##4(T x, T y, T z, T w) { return T##4{x, y, z, w}; }
VEC(float) VEC(double) VEC(int) VEC(short) VEC(char) VEC(long)
using uint = unsigned int;
using uchar = unsigned char;
using ushort = unsigned short;

namespace emu {
enum { RUN, BLOCKBAR, WARPBAR, DONE };
struct Fiber {
    ucontext_t ctx;
    std::vector<char> stack;
    int state = RUN;
    emu_dim tid;
    int lin = 0;
    uint64_t slot = 0;
    unsigned mask = 0;
    unsigned result = 0;
    long stage = 0;
};
static std::vector<Fiber> fs;
static std::vector<std::string> *errors;
static ucontext_t home;
static int cur, ahead;
static uint64_t rng;
static emu_dim gdim, bdim, bid;
static void (*body)(void *);
static void *body_arg;

static inline uint64_t rnd() {
    rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng;
}
static inline void error(const char *s) {
    for (auto &e : *errors) if (e == s) return;
    errors->push_back(s);
}
static inline Fiber &me() { return fs[cur]; }
static inline void yield(int st) {
    Fiber &f = me();
    f.state = st;
    swapcontext(&f.ctx, &home);
}
static inline int warp(int l) { return l/32; }
static inline unsigned alive() {
    unsigned m = 0;
    int w = warp(cur);
    for (int l = 0; l < 32 && w*32 + l < (int)fs.size(); ++l)
        if (fs[w*32 + l].state != DONE) m |= 1u << l;
    return m;
}
// all lanes of the mask meet; exchange one word each
static inline void meet(unsigned mask, uint64_t v) {
    Fiber &f = me();
    if (!(mask >> (f.lin % 32) & 1)) error("lane outside its own mask");
    f.slot = v;
    f.mask = mask | 1u << (f.lin % 32);
    yield(WARPBAR);
}
static void entry() {
    body(body_arg);
    me().state = DONE;
    swapcontext(&me().ctx, &home);
}
static int policy = 0;
static uint64_t salt = 1;
static uint64_t prio(uint64_t i) {
    uint64_t x = (i + 1)*0x9e3779b97f4a7c15ull ^ salt;
    x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32;
    return x;
}
static bool step() {
    // release a warp all of whose lanes have met
    int n = fs.size();
    for (int w = 0; w*32 < n; ++w) {
        bool any = false, all = true;
        for (int l = w*32; l < std::min(n, w*32 + 32); ++l) {
            if (fs[l].state == WARPBAR) {
                any = true;
                for (int k = 0; k < 32; ++k)
                    if (fs[l].mask >> k & 1) {
                        int o = w*32 + k;
                        if (o >= n || fs[o].state == DONE) continue;
                        if (fs[o].state != WARPBAR) all = false;
                    }
            }
        }
        if (any && all)
            for (int l = w*32; l < std::min(n, w*32 + 32); ++l)
                if (fs[l].state == WARPBAR) fs[l].state = RUN;
    }
    std::vector<int> ready;
    bool waiting = false;
    for (int i = 0; i < n; ++i) {
        if (fs[i].state == RUN) ready.push_back(i);
        else if (fs[i].state != DONE) waiting = true;
    }
    if (ready.empty()) {
        if (!waiting) return false;
        bool all = true;
        for (auto &f : fs) if (f.state == WARPBAR) all = false;
        if (!all) { error("deadlock"); return false; }
        for (auto &f : fs) if (f.state == BLOCKBAR) f.state = RUN;
        return true;
    }
    // policies: everything that is ready runs once, in a random or reversed
    // order; or one warp, or one thread, runs ahead of all others
    if (policy >= 3) {
        int unit = policy == 3 ? 32 : 1, best = ready[0]/unit;
        for (int i : ready)
            if (prio(i/unit) > prio(best)) best = i/unit;
        std::vector<int> keep;
        for (int i : ready) if (i/unit == best) keep.push_back(i);
        ready.swap(keep);
    }
    int how = policy < 3 ? policy : (int)(rnd() % 3);
    if (how == 0)
        for (int i = (int)ready.size() - 1; i > 0; --i)
            std::swap(ready[i], ready[rnd() % (i + 1)]);
    else if (how == 1)
        std::reverse(ready.begin(), ready.end());
    for (int i : ready) {
        cur = i;
        swapcontext(&home, &fs[i].ctx);
    }
    return true;
}
static void block() {
    policy = rnd() % 8;
    policy = policy < 3 ? policy : policy < 7 ? 3 : 4;
    salt = rnd() | 1;
    for (char *p = __start_cudashared; p < __stop_cudashared; ++p)
        *p = (char)(rnd() >> 20) | 0x41;
    int n = bdim.x*bdim.y*bdim.z;
    if ((int)fs.size() != n) { fs.clear(); fs.resize(n); }
    for (int i = 0; i < n; ++i) {
        Fiber &f = fs[i];
        f.lin = i;
        f.tid = emu_dim{i % bdim.x, i/bdim.x % bdim.y, i/(bdim.x*bdim.y)};
        f.state = RUN;
        if (f.stack.empty()) f.stack.resize(1 << 15);
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = f.stack.data();
        f.ctx.uc_stack.ss_size = f.stack.size();
        f.ctx.uc_link = nullptr;
        makecontext(&f.ctx, entry, 0);
    }
    while (step()) {}
}
struct Arg { char *data; int64_t ndim, itemsize, shape[8], strides[8], value; };
}

#define threadIdx (emu::me().tid)
#define blockIdx (emu::bid)
#define blockDim (emu::bdim)
#define gridDim (emu::gdim)
#define warpSize 32

static inline void __syncthreads() { emu::yield(emu::BLOCKBAR); }
static inline unsigned __activemask() { return emu::alive(); }
static inline void __syncwarp(unsigned m = 0xffffffffu) { emu::meet(m & emu::alive(), 0); }
static inline void __threadfence() {}
static inline void __threadfence_block() {}
static inline unsigned __ballot_sync(unsigned m, int pred) {
    emu::meet(m, pred != 0);
    unsigned r = 0;
    int w = emu::warp(emu::cur);
    for (int l = 0; l < 32 && w*32 + l < (int)emu::fs.size(); ++l)
        if ((m >> l & 1) && emu::fs[w*32 + l].state != emu::DONE &&
            emu::fs[w*32 + l].slot) r |= 1u << l;
    int c = emu::cur;
    emu::meet(m | 1u << (emu::fs[c].lin % 32), emu::fs[c].slot);
    return r;
}
template <class T> static inline T __shfl_sync(unsigned m, T v, int src, int width = 32) {
    static_assert(sizeof(T) <= 8, "shuffle of at most eight bytes");
    uint64_t s = 0;
    std::memcpy(&s, &v, sizeof(T));
    emu::meet(m, s);
    emu::Fiber &f = emu::me();
    int lane = f.lin % 32;
    int o = lane - lane % width + ((src % width) + width) % width;
    int g = emu::warp(emu::cur)*32 + o;
    T r = v;
    bool ok = g < (int)emu::fs.size() && (m >> o & 1) &&
              emu::fs[g].state != emu::DONE;
    if (ok) s = emu::fs[g].slot; else s = 0x4141414141414141ull;
    std::memcpy(&r, &s, sizeof(T));
    emu::meet(m | 1u << lane, f.slot);
    return r;
}
template <class T> static inline T __shfl_xor_sync(unsigned m, T v, int k, int width = 32)
{ return __shfl_sync(m, v, (emu::me().lin % 32) ^ k, width); }
template <class T> static inline T __shfl_down_sync(unsigned m, T v, int k, int width = 32)
{ int l = emu::me().lin % 32; return __shfl_sync(m, v, l % width + k < width ? l + k : l, width); }
template <class T> static inline T __shfl_up_sync(unsigned m, T v, int k, int width = 32)
{ int l = emu::me().lin % 32; return __shfl_sync(m, v, l % width - k >= 0 ? l - k : l, width); }
static inline int __any_sync(unsigned m, int p) { return __ballot_sync(m, p) != 0; }
static inline int __all_sync(unsigned m, int p) { return __ballot_sync(m, !p) == 0; }
static inline int __popc(unsigned x) { return __builtin_popcount(x); }
static inline int __ffs(int x) { return __builtin_ffs(x); }
static inline int __clz(int x) { return x ? __builtin_clz(x) : 32; }
static inline int __mul24(int a, int b) { return a*b; }
static inline float __fmaf_rn(float a, float b, float c) { return fmaf(a, b, c); }
static inline double __fma_rn(double a, double b, double c) { return fma(a, b, c); }
#define __sincosf sincosf
#define __sinf sinf
#define __cosf cosf
static inline double sinpi(double x) { return sin(M_PI*x); }
static inline double cospi(double x) { return cos(M_PI*x); }
static inline float sinpif(float x) { return sinf((float)M_PI*x); }
static inline float cospif(float x) { return cosf((float)M_PI*x); }
template <class T> static inline T __ldg(const T *p) { return *p; }
template <class T> static inline T atomicAdd(T *p, T v) { T o = *p; *p += v; return o; }
static inline double rsqrt(double x) { return 1.0/sqrt(x); }
static inline float rsqrtf(float x) { return 1.0f/sqrtf(x); }
static inline void sincospi(double x, double *s, double *c) { sincos(M_PI*x, s, c); }
static inline void sincospif(float x, float *s, float *c) { sincosf((float)M_PI*x, s, c); }
#define EMU_MM(T) \
  static inline T min(T a, T b) { return a < b ? a : b; } \
  static inline T max(T a, T b) { return a > b ? a : b; }
EMU_MM(int) EMU_MM(long) EMU_MM(unsigned) EMU_MM(float) EMU_MM(double)

template <class T, int N> class CArray {
public:
    T *data_;
    ptrdiff_t size_;
    ptrdiff_t shape_[N], strides_[N];
    const ptrdiff_t *shape() const { return shape_; }
    const ptrdiff_t *strides() const { return strides_; }
    ptrdiff_t size() const { return size_; }
    T *at(char *p, bool ok) const {
        if (!ok) {
            emu::error("access outside an array");
            static char dump[64];
            std::memset(dump, 0x41, sizeof dump);
            return reinterpret_cast<T *>(dump);
        }
        return reinterpret_cast<T *>(p);
    }
    T *linear(ptrdiff_t i) const {
        char *p = reinterpret_cast<char *>(data_);
        bool ok = (i >= 0 && i < size_) || (i == 0 && size_ == 0);
        for (int d = N; --d >= 0 && ok && size_;) {
            p += strides_[d]*(i % shape_[d]);
            i /= shape_[d];
        }
        return at(p, ok);
    }
    template <class I> T *indexed(const I *idx) const {
        char *p = reinterpret_cast<char *>(data_);
        bool ok = true;
        for (int d = 0; d < N; ++d) {
            ok = ok && idx[d] >= 0 && idx[d] < shape_[d];
            p += strides_[d]*idx[d];
        }
        return at(p, ok);
    }
    T &operator[](ptrdiff_t i) { return *linear(i); }
    const T &operator[](ptrdiff_t i) const { return *linear(i); }
    template <class I> T &operator[](const I (&idx)[N]) { return *indexed(idx); }
    template <class I> const T &operator[](const I (&idx)[N]) const { return *indexed(idx); }
};

namespace emu {
template <class A> struct From {
    static A get(const Arg &a) {
        if (a.data) error("array passed for a number");
        return (A)a.value;
    }
};
template <class T, int N> struct From<CArray<T, N>> {
    static CArray<T, N> get(const Arg &a) {
        CArray<T, N> c;
        if (!a.data || a.ndim != N || a.itemsize != (int64_t)sizeof(T)) {
            error("argument does not match the kernel's parameter");
            std::memset((void *)&c, 0, sizeof c);
            return c;
        }
        c.data_ = reinterpret_cast<T *>(a.data);
        c.size_ = 1;
        for (int i = 0; i < N; ++i) {
            c.shape_[i] = a.shape[i];
            c.strides_[i] = a.strides[i];
            c.size_ *= a.shape[i];
        }
        return c;
    }
};
template <class... A> struct Call {
    void (*f)(A...);
    std::tuple<typename std::remove_const<A>::type...> args;
    template <size_t... I> void go(std::index_sequence<I...>) { f(std::get<I>(args)...); }
    static void run(void *p) {
        static_cast<Call *>(p)->go(std::index_sequence_for<A...>());
    }
};
template <class... A, size_t... I>
static void launch(void (*f)(A...), int nargs, const Arg *a, std::index_sequence<I...>) {
    if (nargs != (int)sizeof...(A)) { error("wrong number of arguments"); return; }
    Call<A...> c{f, std::make_tuple(From<typename std::remove_const<A>::type>::get(a[I])...)};
    if (!errors->empty()) return;
    body = &Call<A...>::run;
    body_arg = &c;
    std::vector<emu_dim> bs;
    for (unsigned z = 0; z < gdim.z; ++z)
        for (unsigned y = 0; y < gdim.y; ++y)
            for (unsigned x = 0; x < gdim.x; ++x) bs.push_back(emu_dim{x, y, z});
    for (int i = (int)bs.size() - 1; i > 0; --i) std::swap(bs[i], bs[rnd() % (i + 1)]);
    for (auto &b : bs) { bid = b; block(); }
}
template <class... A> static void launch(void (*f)(A...), int nargs, const Arg *a) {
    launch(f, nargs, a, std::index_sequence_for<A...>());
}
}
#define EMU_ENTRY(kernel) \
extern "C" int emu_launch(const unsigned *g, const unsigned *b, int nargs, \
                          const emu::Arg *args, uint64_t seed, char *msg, int len) { \
    std::vector<std::string> errs; \
    emu::errors = &errs; \
    emu::gdim = emu_dim{g[0], g[1], g[2]}; \
    emu::bdim = emu_dim{b[0], b[1], b[2]}; \
    emu::rng = seed*2654435761ull + 88172645463325252ull; \
    for (int i = 0; i < 8; ++i) emu::rnd(); \
    if ((long)b[0]*b[1]*b[2] > 1024) emu::error("block of more than 1024 threads"); \
    else emu::launch(&kernel, nargs, args); \
    std::string s; \
    for (auto &e : errs) s += e + ";"; \
    snprintf(msg, len, "%s", s.c_str()); \
    return (int)errs.size(); \
}
