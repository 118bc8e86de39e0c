// Instrumented element, allocator, comparator and iterator types.  They record what a
// container *does* to its elements and memory; they decide nothing: every verdict is
// taken by the TLA+ trace specification from the recorded events.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <map>
#include <new>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <sys/mman.h>

// READONLY: every block and every container on pages of its own, so that they can be made unwritable while a const call runs
#ifdef READONLY
#define PAGED 1
#else
#define PAGED 0
#endif
// SANITIZED: compiled with the address and undefined behaviour sanitizers, which also know the blocks
#ifdef SANITIZED
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" inline const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:use_sigaltstack=0:detect_stack_use_after_return=0"; }
extern "C" inline const char* __ubsan_default_options() { return "halt_on_error=1:abort_on_error=1"; }
#define POISON(p, n) ASAN_POISON_MEMORY_REGION((const void*)(p), (n))
#define UNPOISON(p, n) ASAN_UNPOISON_MEMORY_REGION((const void*)(p), (n))
#define FENCES 0
#else
#define POISON(p, n) (void)0
#define UNPOISON(p, n) (void)0
#define FENCES !PAGED
#endif

namespace hx {

struct Injected {};          // the injected failure

// bytes around every block and container that nobody may write
enum : std::size_t { FENCE = 32 };
inline void fence(void* p, std::size_t n) { std::memset((char*)p - FENCE, 0xC7, FENCE); std::memset((char*)p + n, 0xC7, FENCE); }
inline bool fenced(std::uintptr_t a, std::size_t n) {
    auto f = [](const unsigned char* p) { for (std::size_t i = 0; i < FENCE; ++i) if (p[i] != 0xC7) return false; return true; };
    return f((const unsigned char*)a - FENCE) && f((const unsigned char*)a + n);
}

enum : int { F_ALLOC = 1, F_COPY = 2, F_MOVE = 4, F_CMP = 8, F_PRED = 16, F_ITER = 32, F_ALL = 63 };

struct Cnt { long cc=0, mc=0, ca=0, ma=0, vc=0, dt=0, cmp=0, al=0, de=0, kc=0, der=0, ec=0; };

struct Blk { std::size_t n, esz, bytes; int id; bool elem; };

// EALIGN: elements with a stricter alignment than anything else around them
#ifndef EALIGN
#define EALIGN alignof(int)
#endif
struct World {
    // fault injection
    long arm_k = 0; int arm_mask = 0; bool fired = false; bool armed = false;
    long points = 0;                        // throwing points met in the window
    Cnt n;
    std::vector<const char*> errs;
    std::unordered_map<std::uintptr_t, int> reg;   // live elements
    std::map<std::uintptr_t, Blk> blks;
    std::vector<std::pair<std::uintptr_t, std::size_t>> freed;
    unsigned char* arena = nullptr; std::size_t asz = 0, aoff = 0;
    unsigned char* slotmem = nullptr; std::size_t slotsz = 0, slotobj[2] = {0,0}; std::size_t objsz = 0;
    std::size_t maxsz = (std::size_t)1 << 28;
    int in_construct = 0;
    bool check_construct = false;
    long runner_live = 0;
    std::size_t value_size = 0;

    // how often each element of the range passed to the current call has been taken
    const void* rbase = nullptr; std::vector<int> taken;
    void took(std::ptrdiff_t i) { if (i >= 0 && (std::size_t)i < taken.size() && ++taken[i] > 1) err("taken_twice"); }

    void err(const char* e) { for (auto x : errs) if (!std::strcmp(x, e)) return; errs.push_back(e); }

    void point(int cls) {
#ifndef SFL_NO_EXCEPTIONS
        if (armed && (arm_mask & cls)) {
            ++points;
            if (arm_k > 0 && --arm_k == 0) { fired = true; throw Injected(); }
        }
#else
        (void)cls;
#endif
    }
    bool in_arena(std::uintptr_t a) const { return a >= (std::uintptr_t)arena && a < (std::uintptr_t)arena + asz; }
    bool in_slots(std::uintptr_t a) const { return a >= (std::uintptr_t)slotmem && a < (std::uintptr_t)slotmem + slotsz; }
    // is [a, a+sz) inside storage a container may use?
    bool place_ok(std::uintptr_t a, std::size_t sz) {
        if (in_arena(a)) {
            auto it = blks.upper_bound(a);
            if (it == blks.begin()) return false;
            --it;
            return a + sz <= it->first + it->second.bytes;
        }
        if (in_slots(a)) {
            for (int i = 0; i < 2; ++i) {
                std::uintptr_t o = (std::uintptr_t)slotmem + slotobj[i];
                if (a >= o && a + sz <= o + objsz) return true;
            }
            return false;
        }
        return true;
    }
    void born(const void* p, std::size_t sz) {
        auto a = (std::uintptr_t)p;
        if (!place_ok(a, sz)) err("oob_ctor");
        if (a % EALIGN) err("misaligned");
        if (check_construct && !in_construct && (in_arena(a) || in_slots(a))) err("raw_ctor");
        if (!reg.emplace(a, 1).second) err("dbl_ctor");
    }
    void gone(const void* p) {
        auto a = (std::uintptr_t)p;
        if (check_construct && !in_construct && (in_arena(a) || in_slots(a))) err("raw_dtor");
        if (!reg.erase(a)) err("bad_dtor");
    }
    bool alive(const void* p) const { return reg.count((std::uintptr_t)p) != 0; }
};

inline World& W() { static World* w = new World; return *w; }

#ifdef SFL_NO_EXCEPTIONS
#define HX_NOTHROW noexcept
#endif

struct HK { int k; };        // heterogeneous key; a key object must never be built from it by a lookup

// ELEM 1: noexcept move.  ELEM 2: move may throw, copy available.
#ifndef ELEM
#define ELEM 1
#endif
#if ELEM == 1
#define HX_MNOEX noexcept
#else
#define HX_MNOEX
#endif

struct alignas(EALIGN) E {
    int v;
    static void rd(const E& o, const char* w) { if (!W().alive(&o)) W().err(w); }
    E() { W().point(F_COPY); v = 0; W().n.vc++; W().born(this, sizeof(E)); }
    explicit E(int x) { W().point(F_COPY); v = x; W().n.vc++; W().born(this, sizeof(E)); }
    explicit E(HK x) { W().point(F_COPY); v = x.k * 10000; W().n.vc++; W().n.kc++; W().born(this, sizeof(E)); }
#ifdef MOVEONLY
    E(const E&) = delete;
    E& operator=(const E&) = delete;
#else
    E(const E& o) { W().point(F_COPY); rd(o, "dead_read"); v = o.v; W().n.cc++; W().born(this, sizeof(E)); }
    E& operator=(const E& o) { W().point(F_COPY); rd(o, "dead_read"); rd(*this, "dead_write");
        v = o.v; W().n.ca++; return *this; }
#endif
    E(E&& o) HX_MNOEX {
#if ELEM != 1
        W().point(F_MOVE);
#endif
        rd(o, "dead_read"); v = o.v; o.v = -1; W().n.mc++; W().born(this, sizeof(E)); }
    E& operator=(E&& o) HX_MNOEX {
#if ELEM != 1
        W().point(F_MOVE);
#endif
        rd(o, "dead_read"); rd(*this, "dead_write");
        int t = o.v; o.v = -1; v = t; if (this == &o) { v = -1; } W().n.ma++; return *this; }
    ~E() { W().gone(this); W().n.dt++; v = -77; }
    friend bool operator==(const E& a, const E& b) { W().point(F_CMP); rd(a, "dead_read"); rd(b, "dead_read"); W().n.ec++; return a.v == b.v; }
    friend bool operator<(const E& a, const E& b) { W().point(F_CMP); rd(a, "dead_read"); rd(b, "dead_read"); W().n.ec++; return a.v < b.v; }
};

inline int K(int v) { return v < 0 ? -1 : v / 10000; }

// ordered comparator, stateful: mode 0 ascending, mode 1 descending
struct Cmp {
    using is_transparent = void;
    int mode;
    explicit Cmp(int m = 0) : mode(m) {}
#ifdef THROWCMP
    Cmp(const Cmp& o) : mode((W().point(F_CMP), o.mode)) {}
    Cmp& operator=(const Cmp& o) { W().point(F_CMP); mode = o.mode; return *this; }
#endif
    bool lt(int a, int b) const { W().point(F_CMP); W().n.cmp++; return mode == 0 ? a < b : b < a; }
    bool operator()(const E& a, const E& b) const { E::rd(a, "dead_read"); E::rd(b, "dead_read"); return lt(K(a.v), K(b.v)); }
    bool operator()(const E& a, const HK& b) const { E::rd(a, "dead_read"); return lt(K(a.v), b.k); }
    bool operator()(const HK& a, const E& b) const { E::rd(b, "dead_read"); return lt(a.k, K(b.v)); }
};
// key equality, stateful: mode 0 same key, mode 1 same key div 2
struct Eq {
    using is_transparent = void;
    int mode;
    explicit Eq(int m = 0) : mode(m) {}
#ifdef THROWCMP
    Eq(const Eq& o) : mode((W().point(F_CMP), o.mode)) {}
    Eq& operator=(const Eq& o) { W().point(F_CMP); mode = o.mode; return *this; }
#endif
    bool eq(int a, int b) const { W().point(F_CMP); W().n.cmp++; return mode == 0 ? a == b : a / 2 == b / 2; }
    bool operator()(const E& a, const E& b) const { E::rd(a, "dead_read"); E::rd(b, "dead_read"); return eq(K(a.v), K(b.v)); }
    bool operator()(const E& a, const HK& b) const { E::rd(a, "dead_read"); return eq(K(a.v), b.k); }
    bool operator()(const HK& a, const E& b) const { E::rd(b, "dead_read"); return eq(a.k, K(b.v)); }
};

// allocator propagation: 0 never, 1 always, 2 copy assignment only, 3 move assignment only, 4 swap only
#ifndef APROP
#define APROP 1
#endif

template <class T> struct is_elem_block : std::false_type {};

template <class T>
struct A {
    using value_type = T;
    using propagate_on_container_copy_assignment = std::integral_constant<bool, APROP == 1 || APROP == 2>;
    using propagate_on_container_move_assignment = std::integral_constant<bool, APROP == 1 || APROP == 3>;
    using propagate_on_container_swap = std::integral_constant<bool, APROP == 1 || APROP == 4>;
    using is_always_equal = std::false_type;
    int id;
    explicit A(int i = 1) noexcept : id(i) {}
    A(const A& o) noexcept : id(o.id) {}
    template <class U> A(const A<U>& o) noexcept : id(o.id) {}
    A& operator=(const A& o) noexcept { id = o.id; return *this; }
    T* allocate(std::size_t n) {
        auto& w = W();
        w.point(F_ALLOC);
        std::size_t bytes = n * sizeof(T);
        constexpr std::size_t G = alignof(T) > 32 ? alignof(T) : 32;
        std::size_t need = (bytes + G - 1) / G * G + 2 * G;
        if (n > w.maxsz * 4 || w.aoff + need + 8192 * PAGED > w.asz) {
#ifndef SFL_NO_EXCEPTIONS
            throw std::bad_alloc();
#else
            std::abort();
#endif
        }
        unsigned char* p = w.arena + w.aoff + G;
        w.aoff += need;
        if (PAGED) { std::size_t o = (w.aoff - need + 4095) & ~(std::size_t)4095; p = w.arena + o; w.aoff = (o + bytes + 4096) & ~(std::size_t)4095; }
        std::memset(p, 0xA5, bytes);
        if (FENCES) fence(p, bytes);
        POISON((char*)p - G, G); POISON((char*)p + bytes, need - G - bytes);
        w.blks[(std::uintptr_t)p] = Blk{n, sizeof(T), bytes, id, is_elem_block<T>::value};
        w.n.al++;
        return (T*)p;
    }
    void deallocate(T* p, std::size_t n) noexcept {
        auto& w = W();
        w.n.de++;
        auto it = w.blks.find((std::uintptr_t)p);
        if (it == w.blks.end()) { w.err("bad_dealloc"); return; }
        if (it->second.n != n || it->second.esz != sizeof(T)) w.err("dealloc_size");
        if (it->second.id != id) w.err("dealloc_alloc");
        if (it->second.elem) {
            bool live = false;
            for (std::uintptr_t a = it->first; a < it->first + it->second.bytes; a += alignof(E))
                if (w.reg.erase(a)) live = true;
            if (live) w.err("dealloc_live");
        }
        if (FENCES && !fenced(it->first, it->second.bytes)) w.err("oob_write");
        std::memset(p, 0xDD, it->second.bytes);
        POISON(p, it->second.bytes);
        w.freed.emplace_back(it->first, it->second.bytes);
        w.blks.erase(it);
    }
    template <class U, class... Args> void construct(U* p, Args&&... args) {
        struct G { G() { W().in_construct++; } ~G() { W().in_construct--; } } g;
        ::new ((void*)p) U(std::forward<Args>(args)...);
    }
    template <class U> void destroy(U* p) {
        struct G { G() { W().in_construct++; } ~G() { W().in_construct--; } } g;
        p->~U();
    }
    std::size_t max_size() const noexcept { return W().maxsz; }
    A select_on_container_copy_construction() const { return A(id < 10 ? id + 10 : id); }
    friend bool operator==(const A& a, const A& b) noexcept { return a.id == b.id; }
    friend bool operator!=(const A& a, const A& b) noexcept { return a.id != b.id; }
};

// single-pass input iterator over ints producing V; detects second passes and stale reads
template <class V, class Make>
struct InIt {
    using iterator_category = std::input_iterator_tag;
    using value_type = V; using difference_type = std::ptrdiff_t;
    using pointer = const V*; using reference = V;
    struct Src { const int* p; const int* e; const int* cur; };
    Src* s; const int* at;           // at==nullptr: end
    InIt() : s(nullptr), at(nullptr) {}
    explicit InIt(Src* src) : s(src), at(src->cur == src->e ? nullptr : src->cur) {}
    V operator*() const { W().point(F_ITER); if (!at || at != s->cur) W().err("stale_input"); else W().took(at - s->p); return Make::make(*at); }
    InIt& operator++() { if (!at || at != s->cur) { W().err("stale_input"); }
        s->cur++; at = (s->cur == s->e) ? nullptr : s->cur; return *this; }
    struct Px { V v; V& operator*() { return v; } };
    Px operator++(int) { Px x{**this}; ++*this; return x; }
    friend bool operator==(const InIt& a, const InIt& b) { return a.at == b.at; }
    friend bool operator!=(const InIt& a, const InIt& b) { return !(a == b); }
};

// multi-pass iterator over an array of V with a chosen category
template <class V, class Cat, class Q = const V>
struct MuIt {
    using iterator_category = Cat;
    using value_type = V; using difference_type = std::ptrdiff_t;
    using pointer = Q*; using reference = Q&;
    Q* p;
    MuIt() : p(nullptr) {}
    explicit MuIt(Q* q) : p(q) {}
    reference operator*() const { W().point(F_ITER); W().took(p - static_cast<const V*>(W().rbase)); return *p; }
    pointer operator->() const { return p; }
    MuIt& operator++() { ++p; return *this; }
    MuIt operator++(int) { MuIt t(*this); ++p; return t; }
    MuIt& operator--() { --p; return *this; }
    MuIt operator--(int) { MuIt t(*this); --p; return t; }
    friend bool operator==(const MuIt& a, const MuIt& b) { return a.p == b.p; }
    friend bool operator!=(const MuIt& a, const MuIt& b) { return a.p != b.p; }
};

} // namespace hx
