#pragma once
using Fn = void (*)(int, Ints&);
static std::unordered_map<std::string, Fn> OPS;

static long md(long x, long m) { if (raw_mode) return x; if (m <= 0) return 0; long r = x % m; return r < 0 ? r + m : r; }
#define NEED(c) do { if (!raw_mode && !(c)) { skip_op = true; return; } } while (0)
#define SZ ((long)S[s]->size())
#if defined(STATICC)
  #define ROOM(n) ((long)S[s]->size() + (long)(n) <= (long)NN)
  #define FITS(n) ((long)(n) <= (long)NN)
#else
  #define ROOM(n) true
  #define FITS(n) true
#endif

static void make_default(int s, int al) {
#if HAS_ALLOC
    make(s, A<V>(al));
#else
    (void)al; make(s);
#endif
}
static void after_ctor(int s) { if (!made[s]) make_default(s, s + 1); }
static std::vector<int> vals_from(const Ints& a, size_t i) { std::vector<int> r; for (; i < a.size(); ++i) r.push_back((int)a[i]); return r; }
static void fix_pos(long& p, long n) { p = md(p, n + 1); }

static void op_clear(int s, Ints&) { call([&] { S[s]->clear(); }); }
static void op_erase(int s, Ints& a) {
    NEED(SZ > 0); a.resize(2); a[0] = md(a[0], SZ);
    // a[1]: 0 const_iterator, 1 iterator
    call([&] { C& c = *S[s]; It r = c.end();
        if (a[1] == 0) r = c.erase(c.cbegin() + a[0]); else r = c.erase(c.begin() + a[0]);
        R.push_back(idx(c, r)); });
}
static void op_erase_rng(int s, Ints& a) {
    a.resize(2); a[0] = md(a[0], SZ + 1); a[1] = raw_mode ? a[1] : a[0] + md(a[1], SZ - a[0] + 1);
    call([&] { C& c = *S[s]; It r = c.erase(c.cbegin() + a[0], c.cbegin() + a[1]); R.push_back(idx(c, r)); });
}
static bool swap_ok() {
#if HAS_ALLOC
    return APROP == 1 || APROP == 4 || S[0]->get_allocator() == S[1]->get_allocator();
#else
    return true;
#endif
}
static void op_swap(int s, Ints&) { NEED(swap_ok()); call([&] { S[s]->swap(*S[1 - s]); }); }
static void op_swap_nm(int s, Ints&) { NEED(swap_ok()); call([&] { using std::swap; swap(*S[s], *S[1 - s]); }); }
static void op_self_swap(int s, Ints&) { call([&] { S[s]->swap(*S[s]); }); }
static void op_copy(int s, Ints&) COPYING({ call([&] { C& r = (*S[s] = static_cast<const C&>(*S[1 - s])); R.push_back(&r == S[s]); }); })
static void op_move(int s, Ints&) { call([&] { C& r = (*S[s] = std::move(*S[1 - s])); R.push_back(&r == S[s]); }); }
static void op_self_copy(int s, Ints&) COPYING({ call([&] { const C& o = *S[s]; C& r = (*S[s] = o); R.push_back(&r == S[s]); }); })
static void op_ctor_copy(int s, Ints&) COPYING({ kill(s); call([&] { make(s, static_cast<const C&>(*S[1 - s])); }); after_ctor(s); })
static void op_ctor_move(int s, Ints&) { kill(s); call([&] { make(s, std::move(*S[1 - s])); }); after_ctor(s); }
#ifdef MOVEONLY
static void op_ctor_copya(int s, Ints& a) { skip_op = true; }
#else
static void op_ctor_copya(int s, Ints& a) {
#if HAS_ALLOC
    a.resize(1); kill(s); call([&] { make(s, static_cast<const C&>(*S[1 - s]), A<V>((int)a[0])); }); after_ctor(s);
#else
    (void)s; (void)a; skip_op = true;
#endif
}
#endif
static void op_ctor_movea(int s, Ints& a) {
#if HAS_ALLOC
    a.resize(1); kill(s); call([&] { make(s, std::move(*S[1 - s]), A<V>((int)a[0])); }); after_ctor(s);
#else
    (void)s; (void)a; skip_op = true;
#endif
}
#if defined(SEQ)
#define ASSIGN_IL(l) *S[s] = l
#endif
static void op_il(int s, Ints& a) COPYING({
    if (a.size() > 6) a.resize(6);
    auto v = vals_from(a, 0); NEED(FITS(v.size()));
    with_il(v, [&](std::initializer_list<V> l) { call([&] { C& r = (*S[s] = l); R.push_back(&r == S[s]); }); });
})
static void op_iof(int s, Ints& a) { a.resize(1); fix_pos(a[0], SZ); C& c = *S[s]; call([&] { R.push_back((long)c.index_of(c.cbegin() + a[0])); }); }
static void op_reserve(int s, Ints& a) {
#if defined(STATICC) || defined(COMPACT) || defined(DEV) || defined(SEGDEV)
    (void)s; (void)a; skip_op = true;
#else
    a.resize(1); call([&] { S[s]->reserve((size_t)a[0]); });
#endif
}
static void op_shrink(int s, Ints&) {
#if defined(STATICC) || defined(COMPACT)
    (void)s; skip_op = true;
#else
    call([&] { S[s]->shrink_to_fit(); });
#endif
}
struct Pred { long m, r; template <class T> bool operator()(const T& x) const { W().point(F_PRED); return ((code(x) % m) + m) % m == r; } };
static void op_erase_if(int s, Ints& a) {
    a.resize(2); if (a[0] < 1) a[0] = 1;
    call([&] { auto n = sfl::erase_if(*S[s], Pred{a[0], a[1]}); R.push_back((long)n); });
}
static void op_cmp(int s, Ints&) {
    const C& x = *S[s]; const C& y = *S[1 - s];
    call([&] {
        R.push_back(x == y); R.push_back(x != y);
#if defined(SEQ) || defined(ORDERED)
        R.push_back(x < y); R.push_back(x > y); R.push_back(x <= y); R.push_back(x >= y);
#endif
    });
}
static void op_cmp_eq(int s, Ints&) {
    const C& x = *S[s]; const C& y = *S[1 - s];
    call([&] { R.push_back(x == y); });
}
template <class B, class F> static void view(int tag, B b, F e) {
    Ints v{tag}; long n = 0; for (; b != e && n < 3000; ++b, ++n) v.push_back(code(*b)); RV.push_back(v);
}
static void op_views(int s, Ints&) {
    C& c = *S[s]; const C& cc = c;
    call([&] {
        long n = (long)c.size();
        view(1, c.begin(), c.end()); view(1, cc.begin(), cc.end()); view(1, c.cbegin(), c.cend());
#if defined(SEQ) || defined(ORDERED)
        view(2, c.rbegin(), c.rend()); view(2, cc.rbegin(), cc.rend()); view(2, c.crbegin(), c.crend());
#endif
        { Ints v{1}; for (long i = 0; i < n; ++i) v.push_back(code(*c.nth(i))); RV.push_back(v); }
        { Ints v{1}; for (long i = 0; i < n; ++i) v.push_back(code(*cc.nth(i))); RV.push_back(v); }
        { Ints v{3}; for (long i = 0; i <= n; ++i) v.push_back((long)c.index_of(c.nth(i))); RV.push_back(v); }
        { Ints v{3}; for (long i = 0; i <= n; ++i) v.push_back((long)cc.index_of(cc.cbegin() + i)); RV.push_back(v); }
#if !defined(NO_DATA)
        if (DataOf<C>::has && DataOf<const C>::has) {
            const V* d = DataOf<C>::get(c); const V* e = DataOf<const C>::get(cc);
            { Ints v{1}; for (long i = 0; i < n; ++i) v.push_back(code(d[i])); RV.push_back(v); }
            { Ints v{1}; for (long i = 0; i < n; ++i) v.push_back(code(e[i])); RV.push_back(v); }
        } else RV.push_back(Ints{9});      // documented accessor missing
#endif
#if defined(SEQ)
        { Ints v{1}; for (long i = 0; i < n; ++i) v.push_back(code(c[i])); RV.push_back(v); }
        { Ints v{1}; for (long i = 0; i < n; ++i) v.push_back(code(cc[i])); RV.push_back(v); }
        { Ints v{1}; for (long i = 0; i < n; ++i) v.push_back(code(c.at(i))); RV.push_back(v); }
        { Ints v{1}; for (long i = 0; i < n; ++i) v.push_back(code(cc.at(i))); RV.push_back(v); }
        if (n > 0) RV.push_back(Ints{5, code(c.front()), code(c.back()), code(cc.front()), code(cc.back())});
#endif
        RV.push_back(Ints{4, n, (long)c.empty(), (long)(c.end() - c.begin()), (long)(c.cend() - c.cbegin()), (long)(c.max_size() >= c.size())});
    });
}
// iterator arithmetic between positions i and j; -9 where there is nothing to dereference
template <class I> static void iter_alg(I b, long n, long i, long j) {
    auto at = [&](I it, long k) { return (k >= 0 && k < n) ? (long)code(*it) : -9L; };
    I x = b + i, y = b + j;
    R.push_back((long)(x - y));
    R.push_back(x < y); R.push_back(x > y); R.push_back(x <= y); R.push_back(x >= y); R.push_back(x == y); R.push_back(x != y);
    R.push_back(at(x + (j - i), j)); R.push_back(at((j - i) + x, j)); R.push_back(at(x - (i - j), j));
    { I t = x; I& r = (t += (j - i)); R.push_back(at(t, j)); R.push_back(&r == &t && t == y); }
    { I t = x; I& r = (t -= (i - j)); R.push_back(at(t, j)); R.push_back(&r == &t && t == y); }
    R.push_back(j < n ? (long)code(x[j - i]) : -9L);
    if (i < n) { I t = x; I& r = ++t; R.push_back(at(t, i + 1)); R.push_back(&r == &t); t = x; I o = t++; R.push_back(at(o, i)); R.push_back(at(t, i + 1)); R.push_back(std::addressof(*x) == x.operator->()); }
    if (i > 0) { I t = x; I& r = --t; R.push_back(at(t, i - 1)); R.push_back(&r == &t); t = x; I o = t--; R.push_back(at(o, i)); R.push_back(at(t, i - 1)); }
    { I t; t = x; R.push_back(t == x); I u(y); std::swap(t, u); R.push_back(t == y && u == x); }
}
static void op_iter(int s, Ints& a) {
    a.resize(2); a[0] = md(a[0], SZ + 1); a[1] = md(a[1], SZ + 1);
    C& c = *S[s]; const C& cc = c; long n = SZ;
    call([&] {
        iter_alg<It>(c.begin(), n, a[0], a[1]);
        iter_alg<CIt>(cc.begin(), n, a[0], a[1]);
        It i = c.begin() + a[0]; CIt j = c.begin() + a[1];
        CIt k = i;                      // conversion
        R.push_back(k == i); R.push_back(i == k); R.push_back((long)(j - i)); R.push_back((long)(i - j));
        R.push_back(j < i); R.push_back(i < j);
        R.push_back(std::distance(c.begin(), i));
    });
}

static void install_common() {
    OPS["clear"] = op_clear; OPS["erase"] = op_erase; OPS["erase_rng"] = op_erase_rng;
    OPS["swap"] = op_swap; OPS["swap_nm"] = op_swap_nm; OPS["self_swap"] = op_self_swap;
    OPS["copy"] = op_copy; OPS["move"] = op_move; OPS["self_copy"] = op_self_copy;
    OPS["ctor_copy"] = op_ctor_copy; OPS["ctor_copya"] = op_ctor_copya;
    OPS["ctor_move"] = op_ctor_move; OPS["ctor_movea"] = op_ctor_movea;
    OPS["il"] = op_il; OPS["iof"] = op_iof; OPS["reserve"] = op_reserve; OPS["shrink"] = op_shrink;
    OPS["erase_if"] = op_erase_if; OPS["cmp"] = op_cmp; OPS["cmp_eq"] = op_cmp_eq; OPS["views"] = op_views; OPS["iter"] = op_iter;
}
static void dispatch(int s, const std::string& name, Ints& a) {
    auto it = OPS.find(name);
    if (it == OPS.end()) { skip_op = true; std::fprintf(stderr, "unknown op %s\n", name.c_str()); return; }
    it->second(s & 1, a);
}
