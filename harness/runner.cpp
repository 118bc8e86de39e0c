// Conformance runner: executes scripts of operations against one real container type
// (compiled from /repo/include) and records one event per public call.
//
//   runner SCRIPT OUT
//
// Script lines:   H <id> [maxsize]      start a history (both slots default constructed)
//                 <slot> <op> <ints..>  one call (arguments are normalised to be valid)
//                 F<mask> <slot> <op> . the same, and additionally re-run the history with the
//                                       k-th failure point inside the call failing, k = 1,2,..
//                 A <slot> <op> <ints>  raw arguments: the call violates a precondition
//                 M                     recording starts with the next call (what is before is set-up)
#ifdef COVER
extern "C" void __gcov_dump(void);
#define FLUSH_COVER __gcov_dump()
#else
#define FLUSH_COVER (void)0
#endif
#include "elem.hpp"
#include CT_HDR
#include "sfl/segmented_vector.hpp"
#include <algorithm>
#include <csignal>
#include <fcntl.h>
#include <functional>
#include <fstream>
#include <initializer_list>
#include <sstream>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#define STR_(x) #x
#define STR(x) STR_(x)
#define CT_NAME STR(CT)
#ifdef SFL_NO_EXCEPTIONS
#define NOEXC 1
#else
#define NOEXC 0
#endif
using namespace hx;
using Ints = std::vector<long>;

#ifndef NN
#define NN 3
#endif

// ------------------------------------------------------------------ container under test
#if defined(MAPLIKE)
using V = std::pair<E, E>;
#else
using V = E;
#endif
namespace hx { template <> struct is_elem_block<V> : std::true_type {}; }

#if defined(SEQ)
  #if defined(FIXEDN) && defined(STATICC)
    using C = sfl::CT<E, NN>;
  #elif defined(FIXEDN)
    using C = sfl::CT<E, NN, A<E>>;
  #else
    using C = sfl::CT<E, A<E>>;
  #endif
#else
  #if defined(ORDERED)
    using P2 = Cmp;
  #else
    using P2 = Eq;
  #endif
  #if defined(MAPLIKE)
    #if defined(STATICC)
      using C = sfl::CT<E, E, NN, P2>;
    #else
      using C = sfl::CT<E, E, NN, P2, A<V>>;
    #endif
  #else
    #if defined(STATICC)
      using C = sfl::CT<E, NN, P2>;
    #else
      using C = sfl::CT<E, NN, P2, A<V>>;
    #endif
  #endif
#endif
using It = C::iterator;
using CIt = C::const_iterator;
#if defined(SEGV) || defined(SEGDEV)
  #define NO_DATA
#endif

#if defined(STATICC)
  #define HAS_ALLOC 0
#else
  #define HAS_ALLOC 1
#endif

// data() is documented for every container but the segmented ones
template <class CC, class = void> struct DataOf { static const V* get(CC&) { return nullptr; } enum { has = 0 }; };
template <class CC> struct DataOf<CC, decltype((void)std::declval<CC&>().data())> { static const V* get(CC& c) { return c.data(); } enum { has = 1 }; };
// ------------------------------------------------------------------ values
static V mk(long v) {
#if defined(MAPLIKE)
    return V(std::piecewise_construct, std::forward_as_tuple(int(v / 100 * 100)), std::forward_as_tuple(int(v % 100)));
#else
    return E((int)v);
#endif
}
struct MkV { static V make(int v) { return mk(v); } };
static int rawv(const E& e) { if (!W().alive(&e)) { W().err("dead_elem"); return -2; } return e.v; }
static int code(const E& e) { return rawv(e); }
static int code(const std::pair<E, E>& p) {
    int a = rawv(p.first), b = rawv(p.second);
    if (a < 0) return a;
    return a + (b < 0 ? 99 : b);
}

// ------------------------------------------------------------------ script
struct Op { char pre; int mask; int slot; std::string name; Ints a; };
struct Hist { long id; long maxsz; std::vector<Op> ops; size_t mark; };
static std::vector<Hist> hists;

// ------------------------------------------------------------------ slots
static C* S[2];
static bool made[2];
static const char* g_exc;

// ------------------------------------------------------------------ output
static std::string out;           // current history
static int out_fd;
static struct Shared { long i, k, opi; long crashes; long events; long sig; } *sh;
static std::string pend;          // event being executed
static bool in_call = false;
static bool emit_on = true;
static int g_k = 0;                // failure number of the current run, 0: none
static bool first_ev;
static bool log_ad = false, log_n = true, log_quiet = false;

static void num(std::string& s, long v) { char b[24]; int n = std::snprintf(b, 24, "%ld", v); s.append(b, n); }
template <class L> static void arr(std::string& s, const L& l) {
    s += '['; bool f = true; for (auto x : l) { if (!f) s += ','; f = false; num(s, (long)x); } s += ']';
}

static void slot_json(std::string& s, int i) {
    C& c = *S[i];
    s += "{\"v\":";
    long z = (long)c.size(), n = 0;
    if (log_quiet) s += "[]";
    else {
        s += '[';
        const C& cc = c;
        for (auto it = cc.begin(); it != cc.end() && n < 3000; ++it, ++n) { if (n) s += ','; num(s, code(*it)); }
        s += ']';
    }
    s += ",\"z\":"; num(s, z);
    long cap = 0, af = 0, ab = 0;
#if defined(STATICC)
    cap = (long)c.capacity(); ab = (long)c.available();
#elif defined(DEV) || defined(SEGDEV)
    cap = (long)c.capacity(); af = (long)c.available_front(); ab = (long)c.available_back();
#else
    cap = (long)c.capacity(); ab = (long)c.available();
#endif
    s += ",\"c\":"; num(s, cap); s += ",\"f\":"; num(s, af); s += ",\"b\":"; num(s, ab);
    long al = 0, cm = 0, st = 0;
#if HAS_ALLOC
    al = c.get_allocator().id;
#endif
#if defined(ASSOC) && defined(ORDERED)
    cm = c.key_comp().mode;
#elif defined(ASSOC)
    cm = c.key_eq().mode;
#endif
#if !defined(NO_DATA)
    {
        auto p = (std::uintptr_t)DataOf<C>::get(c);
        auto o = (std::uintptr_t)&c;
        if (p == 0) st = 0; else if (p >= o && p < o + sizeof(C)) st = 1; else st = 2;
    }
#else
    st = 2;
#endif
    if (!DataOf<C>::has) st = HAS_ALLOC ? 2 : 1;
    s += ",\"al\":"; num(s, al); s += ",\"cm\":"; num(s, cm); s += ",\"st\":"; num(s, st);
    s += '}';
}

// ------------------------------------------------------------------ call window
#define ARG(i) (a.size() > (size_t)(i) ? a[i] : 0)
static Ints R;                 // result of the call
static Ints AM;                // argument objects after the call
static std::vector<Ints> RV;   // views
static bool skip_op;
static int  cur_k, cur_mask; static bool want_fault;
static bool raw_mode = false;

// memory a const call may only read: 0 none, 1 all of it (calls on const containers), 2 the other container and every block
// (construction from a const container), 3 the other container and its blocks (assignment from a const container)
static volatile int g_ro = 0, g_locked = 0;
static void lock(int s, bool on) {
#ifdef READONLY
    auto& w = W();
    const int prot = on ? PROT_READ : PROT_READ | PROT_WRITE;
    for (int i = 0; i < 2; ++i) if (made[i] && (g_ro == 1 || i != s)) mprotect(w.slotmem + w.slotobj[i] / 4096 * 4096, (sizeof(C) + 8191) & ~(std::size_t)4095, prot);
    for (auto& b : w.blks) {
#if HAS_ALLOC
        if (g_ro == 3 && (b.second.id == S[s]->get_allocator().id || b.second.id != S[1 - s]->get_allocator().id)) continue;
#endif
        mprotect((void*)b.first, (b.second.bytes + 4095) & ~(std::size_t)4095, prot);
    }
    if (!on) mprotect(w.arena, w.aoff, prot);
    g_locked = on;
#else
    (void)s; (void)on;
#endif
}
static int ro_mode(const std::string& o, const Ints& a) {
    static const char* reads[] = {"views", "iter", "cmp", "cmp_eq", "idx", "front", "back", "nth", "iof", "lookup", "look1", "comp"};
    for (auto r : reads) if (o == r) return 1;
#if defined(SEQ)
    if (o == "at") return 1;
#else
    if (o == "at" && ARG(2) <= 0) return 1;
#endif
    if (o == "ctor_copy" || o == "ctor_copya") return 2;
    if (o == "copy") return 3;
    return 0;
}
static int g_slot = 0;

template <class F> static void call(F f) {
    auto& w = W();
    if (g_ro) lock(g_slot, true);
    w.n = Cnt();
    w.arm_mask = want_fault ? cur_mask : 0; w.arm_k = cur_k; w.fired = false; w.points = 0; w.armed = true;
    in_call = true;
#ifndef SFL_NO_EXCEPTIONS
    try { f(); }
    catch (const Injected&) { g_exc = "T"; }
    catch (const std::length_error&) { g_exc = "len"; }
    catch (const std::out_of_range&) { g_exc = "oor"; }
    catch (const std::bad_alloc&) { g_exc = "bad"; }
    catch (...) { g_exc = "other"; }
#else
    f();
#endif
    w.armed = false;
    in_call = false;
    if (g_locked) lock(g_slot, false);
}

template <class... X> static void make(int s, X&&... x) {
    ::new ((void*)(W().slotmem + W().slotobj[s])) C(std::forward<X>(x)...);
    made[s] = true;
}
static void kill(int s) { if (made[s]) { made[s] = false; S[s]->~C(); } }

// ------------------------------------------------------------------ ranges
// MOVEONLY: elements that cannot be copied; calls that hand over something to copy do not exist for them
#ifdef MOVEONLY
#define COPYING(...) { skip_op = true; }
#define COPYCASE(n, ...)
#define GIVEN(x) std::move(const_cast<E&>(x))
#define MOVED_KEY if (a[1] == 0 || a[1] == 3) a[1] = 1;
#else
#define COPYING(...) __VA_ARGS__
#define COPYCASE(n, ...) case n: __VA_ARGS__
#define GIVEN(x) (x)
#define MOVED_KEY
#endif
// elements of the range: untouched, or moved from where the caller asked for that
template <class T> static void source_after(bool moved, const T& t, const std::vector<int>& vals) {
    std::size_t i = 0;
    for (const V& v : t) {
        const int c = code(v);
        if (!moved && c != vals[i]) W().err("source_changed");
#if defined(SEQ)
        if (moved && !*g_exc && c != -1) W().err("not_moved");
#endif
        ++i;
    }
}
template <class F> static void with_range(int cat, const std::vector<int>& vals, F f) {
    // elements taken from the range by the call are counted where the iterators are ours
    struct Count { bool on; Count(bool o, std::size_t n, const void* b) : on(o) { W().rbase = b; W().taken.assign(o ? n : 0, 0); }
        ~Count() { if (on && !*g_exc) for (int k : W().taken) if (k == 0) W().err("not_taken"); W().taken.clear(); } };
#ifdef MOVEONLY
    cat = cat >= 1 && cat <= 3 ? 4 : cat == 5 ? 6 : cat;
#endif
    if (cat == 0) {
        Count cnt(true, vals.size(), nullptr);
        InIt<V, MkV>::Src src{vals.data(), vals.data() + vals.size(), vals.data()};
        f(InIt<V, MkV>(&src), InIt<V, MkV>());
    } else if (cat < 5) {
        std::vector<V> t; t.reserve(vals.size());
        for (int v : vals) t.push_back(mk(v));
        {
            Count cnt(cat == 1 || cat == 2, vals.size(), t.data());
            V* a = t.data(); V* z = a + t.size();
#ifndef MOVEONLY
            if (cat == 1) f(MuIt<V, std::forward_iterator_tag, V>(a), MuIt<V, std::forward_iterator_tag, V>(z));
            else if (cat == 2) f(MuIt<V, std::bidirectional_iterator_tag>(a), MuIt<V, std::bidirectional_iterator_tag>(z));
            else if (cat == 3) f((const V*)a, (const V*)z);
            else
#endif
            f(std::make_move_iterator(a), std::make_move_iterator(z));
        }
        source_after(cat == 4, t, vals);
    } else {
        // the library's own iterators over segments
        sfl::segmented_vector<V, 3, std::allocator<V>> t;
        for (int v : vals) t.push_back(mk(v));
#ifndef MOVEONLY
        if (cat == 5) f(t.begin(), t.end());
        else
#endif
        f(std::make_move_iterator(t.begin()), std::make_move_iterator(t.end()));
        source_after(cat == 6, t, vals);
    }
}
template <class F> static void with_il(const std::vector<int>& vals, F f) {
    switch (vals.size()) {
    case 0: { std::initializer_list<V> l = {}; f(l); break; }
    case 1: { std::initializer_list<V> l = {mk(vals[0])}; f(l); break; }
    case 2: { std::initializer_list<V> l = {mk(vals[0]), mk(vals[1])}; f(l); break; }
    case 3: { std::initializer_list<V> l = {mk(vals[0]), mk(vals[1]), mk(vals[2])}; f(l); break; }
    case 4: { std::initializer_list<V> l = {mk(vals[0]), mk(vals[1]), mk(vals[2]), mk(vals[3])}; f(l); break; }
    case 5: { std::initializer_list<V> l = {mk(vals[0]), mk(vals[1]), mk(vals[2]), mk(vals[3]), mk(vals[4])}; f(l); break; }
    default: { std::initializer_list<V> l = {mk(vals[0]), mk(vals[1]), mk(vals[2]), mk(vals[3]), mk(vals[4]), mk(vals[5])}; f(l); break; }
    }
}

static long idx(const C& c, CIt it) { return (long)(it - c.cbegin()); }

#include "ops_common.hpp"
#if defined(SEQ)
#include "ops_seq.hpp"
#else
#include "ops_assoc.hpp"
#endif

// ------------------------------------------------------------------ driver
static void handler(int sig, siginfo_t* si, void*) {
    sh->sig = sig;
    const bool ro = g_locked && si && sig == SIGSEGV && (W().in_arena((std::uintptr_t)si->si_addr) || W().in_slots((std::uintptr_t)si->si_addr));
    // flush what we have: the history so far, then the event that died
    if (emit_on || g_k == 0) {
        static char b[64];
        std::string s = out;
        if (!first_ev) s += ',';
        s += pend;
        std::snprintf(b, 64, ",\"x\":\"SIG%d\",\"in\":%d%s}]}\n", sig, in_call ? 1 : 0, ro ? ",\"ro\":1" : "");
        s += b;
        ssize_t r = ::write(out_fd, s.data(), s.size()); (void)r;
    }
    FLUSH_COVER;
    _exit(77);
}

#ifdef SANITIZED
static void san_death() { handler(SIGABRT, nullptr, nullptr); }
#endif

static void reset_world(const Hist& h) {
    auto& w = W();
    // containers of the previous history are already destroyed
    UNPOISON(w.arena, w.aoff);
    w.reg.clear(); w.blks.clear(); w.freed.clear(); w.errs.clear(); w.aoff = 0; w.armed = false; w.in_construct = 0;
    for (int i = 0; i < 2; ++i) {
        if (FENCES) fence(S[i], sizeof(C));
        POISON((char*)S[i] - 64, 64); POISON((char*)S[i] + (sizeof(C) + 7) / 8 * 8, 64);
    }
    w.maxsz = h.maxsz > 0 ? (std::size_t)h.maxsz : (std::size_t)1 << 28;
    log_quiet = false;
}

static void begin_event(const Op& op, const char* o) {
    pend = "{\"o\":\""; pend += o; pend += "\",\"s\":"; num(pend, op.slot); pend += ",\"a\":";
    arr(pend, op.a);
    if (op.pre == 'A') pend += ",\"A\":1";
    W().errs.clear(); R.clear(); AM.clear(); RV.clear(); g_exc = "";
}

// nothing outside the blocks and the containers has been written
static void check_fences() {
    auto& w = W();
    if (!FENCES) return;
    for (auto& b : w.blks) if (!fenced(b.first, b.second.bytes)) { w.err("oob_write"); fence((void*)b.first, b.second.bytes); }
    for (int i = 0; i < 2; ++i) if (!fenced((std::uintptr_t)S[i], sizeof(C))) { w.err("oob_write"); fence(S[i], sizeof(C)); }
}
static void check_freed() {
    if (FENCES) for (auto& b : W().freed) for (std::size_t i = 0; i < b.second; ++i) if (((const unsigned char*)b.first)[i] != 0xDD) { W().err("freed_write"); break; }
}

static void finish_event(const Ints& a, std::vector<std::uintptr_t>* pre, int k) {
    auto& w = W();
    auto n = w.n; long pts = w.points;
    // re-write the arguments as normalised
    std::string& s = pend;
    size_t ap = s.find(",\"a\":");
    s.resize(ap); s += ",\"a\":"; arr(s, a); if (raw_mode) s += ",\"A\":1";
    s += ",\"x\":\""; s += g_exc; s += "\",\"r\":"; arr(s, R);
    if (!AM.empty()) { s += ",\"am\":"; arr(s, AM); }
    if (!RV.empty()) { s += ",\"rv\":["; for (size_t i = 0; i < RV.size(); ++i) { if (i) s += ','; arr(s, RV[i]); } s += ']'; }
    if (k) { s += ",\"k\":"; num(s, k); }
    s += ",\"p\":["; 
    for (int i = 0; i < 2; ++i) { if (i) s += ','; slot_json(s, i); }
    s += "]";
    if (log_n) {
        s += ",\"n\":"; arr(s, Ints{n.cc, n.mc, n.ca, n.ma, n.vc, n.dt, n.cmp, n.al, n.de, n.kc, n.ec, pts});
    }
    if (pre) {
        s += ",\"ad\":[";
        for (int i = 0; i < 2; ++i) {
            if (i) s += ',';
            Ints m; C& c = *S[i];
            long n = 0;
            for (auto it = c.begin(); it != c.end() && n < 3000; ++it, ++n) {
                auto p = (std::uintptr_t)std::addressof(*it);
                long f = -1;
                for (int q = 0; q < 2 && f < 0; ++q) for (size_t j = 0; j < pre[q].size(); ++j) if (pre[q][j] == p) { f = (long)(q * 1000 + j); break; }
                m.push_back(f);
            }
            arr(s, m);
        }
        s += "]";
    }
    check_fences();
    // accounting
    s += ",\"lv\":"; num(s, (long)w.reg.size());
    s += ",\"bk\":[";
    bool f = true;
    for (auto& b : w.blks) { if (!f) s += ','; f = false; arr(s, Ints{b.second.id, (long)b.second.n, b.second.elem ? 1 : 0}); }
    s += "],\"er\":[";
    f = true;
    for (auto e : w.errs) { if (!f) s += ','; f = false; s += '"'; s += e; s += '"'; }
    s += "]}";
    w.errs.clear();
    if (emit_on) { if (!first_ev) out += ','; first_ev = false; out += s; sh->events++; }
}

static void take_addr(std::vector<std::uintptr_t>* pre) {
    for (int i = 0; i < 2; ++i) {
        pre[i].clear();
        for (auto it = S[i]->begin(); it != S[i]->end(); ++it) pre[i].push_back((std::uintptr_t)std::addressof(*it));
    }
}

static void timer(int sec) {
    struct itimerval t; std::memset(&t, 0, sizeof t); t.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

// runs the history; k==0: all of it, no failures.  k>0: failure k at op index fi, events from fi on.
// returns true when the failure fired
static bool run_hist(const Hist& h, size_t fi, int k) {
    reset_world(h); g_k = k;
    for (int s = 0; s < 2; ++s) {
        make_default(s, s + 1);
    }
    out = "{\"h\":"; num(out, h.id); out += ",\"c\":\"" CT_NAME "\",\"N\":"; num(out, NN);
    out += ",\"pr\":"; num(out, APROP); out += ",\"el\":"; num(out, ELEM); out += ",\"nx\":"; num(out, NOEXC);
    out += ",\"mx\":"; num(out, h.maxsz); out += ",\"k\":"; num(out, k); out += ",\"ev\":[";
    first_ev = true; emit_on = true;
    bool fired = false;
    std::vector<std::uintptr_t> pre[2];
    Op z{' ', 0, 0, "start", {}};
    size_t from = k > 0 ? fi : h.mark;      // recording starts here
    if (from == 0) { begin_event(z, "start"); W().n = Cnt(); W().points = 0; finish_event({}, nullptr, 0); }
    emit_on = (from == 0);
    for (size_t i = 0; i < h.ops.size(); ++i) {
        const Op& op = h.ops[i];
        if (from > 0 && i == from) { emit_on = true; begin_event(z, "start"); W().n = Cnt(); W().points = 0; finish_event({}, nullptr, 0); }
        sh->opi = (long)i;
        begin_event(op, op.name.c_str());
        Ints a = op.a;
        want_fault = (k > 0 && i == fi); cur_k = k; cur_mask = op.mask;
        raw_mode = op.pre == 'A';
        skip_op = false;
        if (log_ad && !log_quiet) take_addr(pre);
        if (op.name == "quiet") { log_quiet = op.slot != 0; continue; }
        g_slot = op.slot & 1; g_ro = PAGED ? ro_mode(op.name, a) : 0;
        dispatch(op.slot, op.name, a);
        g_ro = 0;
        want_fault = false;
        if (skip_op) continue;
        if (k > 0 && i == fi) { fired = W().fired; if (!fired) { emit_on = false; } }
        finish_event(a, log_ad && !log_quiet ? pre : nullptr, (k > 0 && i == fi) ? k : 0);
        if (k > 0 && i == fi && !fired) break;
    }
    if (k == 0 || fired) {
        Op e{' ', 0, 0, "end", {}};
        log_quiet = false;
        begin_event(e, "end");
        W().n = Cnt(); W().points = 0;
        in_call = true;
        kill(0); kill(1);
        in_call = false;
        check_fences(); check_freed();
        // what is left alive now is leaked
        long lv = (long)W().reg.size(); size_t nb = W().blks.size();
        pend += ",\"x\":\"\",\"r\":"; arr(pend, Ints{lv, (long)nb});
        pend += ",\"er\":[";
        bool f = true;
        for (auto q : W().errs) { if (!f) pend += ','; f = false; pend += '"'; pend += q; pend += '"'; }
        pend += "]}";
        if (!first_ev) out += ',';
        out += pend; sh->events++;
        out += "]}\n";
        ssize_t r = ::write(out_fd, out.data(), out.size()); (void)r;
    } else { kill(0); kill(1); }
    return fired;
}

int main(int argc, char** argv) {
    if (argc < 3) { std::fprintf(stderr, "usage: runner SCRIPT OUT [ad]\n"); return 2; }
    for (int i = 3; i < argc; ++i) { if (!std::strcmp(argv[i], "ad")) log_ad = true; }
    std::ifstream in(argv[1]);
    if (!in) return 2;
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream ss(line); std::string t; ss >> t;
        if (t == "H") { Hist h; h.maxsz = 0; h.mark = 0; ss >> h.id; ss >> h.maxsz; if (!ss) h.maxsz = 0; hists.push_back(h); continue; }
        if (t == "M") { hists.back().mark = hists.back().ops.size(); continue; }
        Op op; op.pre = ' '; op.mask = 0;
        if (t[0] == 'F') { op.pre = 'F'; op.mask = std::atoi(t.c_str() + 1); ss >> t; }
        else if (t == "A") { op.pre = 'A'; ss >> t; }
        op.slot = std::atoi(t.c_str());
        ss >> op.name; long v; while (ss >> v) op.a.push_back(v);
        hists.back().ops.push_back(op);
    }
    out_fd = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (out_fd < 0) return 2;
    sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::memset((void*)sh, 0, sizeof *sh);
    auto& w = W();
    w.asz = (std::size_t)256 << 20;
    w.arena = (unsigned char*)mmap(nullptr, w.asz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    w.objsz = sizeof(C);
    std::size_t g = 4096, step = ((sizeof(C) + 63) & ~(std::size_t)63);
    w.slotsz = 3 * g + 2 * step + 2 * alignof(C) + PAGED * (3 * g + step);
    w.slotmem = (unsigned char*)std::aligned_alloc(4096, (w.slotsz + 4095) & ~(std::size_t)4095);
    // aligned as the type asks for, and not better
    w.slotobj[0] = g + alignof(C); w.slotobj[1] = 2 * g + step + alignof(C);
#ifdef READONLY
    w.slotobj[1] = (w.slotobj[1] + sizeof(C) + 8191) / 4096 * 4096 + alignof(C);
#endif
    w.check_construct = HAS_ALLOC;
    S[0] = (C*)(w.slotmem + w.slotobj[0]); S[1] = (C*)(w.slotmem + w.slotobj[1]);
    install_ops();

    // unexpected deaths are enough evidence after a while; those a script asks for (A, no exceptions) are not counted
    long unexpected = 0, hangs = 0;
    while (sh->i < (long)hists.size() && unexpected < 40 && hangs < 3) {
        pid_t pid = fork();
        if (pid == 0) {
            static char altstk[1 << 16];
            stack_t ss; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
            struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_sigaction = handler; sa.sa_flags = SA_ONSTACK | SA_SIGINFO;
            int sigs[] = {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGVTALRM};
            for (int s : sigs) sigaction(s, &sa, nullptr);
#ifdef SANITIZED
            __sanitizer_set_death_callback(san_death);
#endif
            int dn = ::open("/dev/null", O_WRONLY); if (dn >= 0 && !getenv("RUNNER_VERBOSE")) dup2(dn, 2);
            struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
            for (; sh->i < (long)hists.size(); sh->i++, sh->k = 0) {
                const Hist& h = hists[sh->i];
                timer(4);
                // sh->k enumerates: 0 = plain; afterwards (fault site, k) pairs packed as site*100000+k
                if (sh->k == 0) { run_hist(h, 0, 0); sh->k = 1; }
                size_t site = (size_t)(sh->k / 100000); long k = sh->k % 100000;
                for (; site < h.ops.size(); ++site, k = 1) {
                    if (h.ops[site].pre != 'F') continue;
                    if (k == 0) k = 1;
                    for (;; ++k) {
                        sh->k = (long)site * 100000 + k;
                        if (!run_hist(h, site, (int)k)) break;
                    }
                }
            }
            FLUSH_COVER;
            _exit(0);
        }
        int st = 0; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 77)) {
            std::fprintf(stderr, "runner: child died status %d at history index %ld\n", st, sh->i);
            // it could not even record its last call
            const Hist& h = hists[sh->i];
            std::string s = "{\"h\":" + std::to_string(h.id) + ",\"c\":\"" CT_NAME "\",\"N\":" + std::to_string(NN) + ",\"pr\":" + std::to_string(APROP) + ",\"el\":" + std::to_string(ELEM)
                + ",\"nx\":" + std::to_string(NOEXC) + ",\"mx\":" + std::to_string(h.maxsz) + ",\"k\":" + std::to_string(sh->k % 100000) + ",\"ev\":[{\"o\":\"lost\",\"s\":0,\"a\":[],\"x\":\"SIG9\",\"in\":1}]}\n";
            ssize_t r = ::write(out_fd, s.data(), s.size()); (void)r;
        }
        sh->crashes++;
        bool asked = false;
        for (auto& o : hists[sh->i].ops) asked = asked || o.pre == 'A';
#ifdef SFL_NO_EXCEPTIONS
        asked = true;
#endif
        if (!asked) unexpected++;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77 && sh->sig == SIGVTALRM) hangs++;
        sh->sig = 0;
        if (sh->k == 0) sh->k = 1; else sh->k++;
    }
    std::printf("{\"histories\":%ld,\"events\":%ld,\"crashes\":%ld}\n", (long)hists.size(), sh->events, sh->crashes);
    return 0;
}
