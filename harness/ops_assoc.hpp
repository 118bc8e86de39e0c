#pragma once
// ---- construction: a = [cv, cm, al, ...]   cv bit0: comparator passed, bit1: allocator passed
static P2 cmp_of(long m) { return P2((int)m); }
#if HAS_ALLOC
#define MK_VAR(...) do { switch (a[0] & 3) { \
    case 0: make(s, __VA_ARGS__); break; \
    case 1: make(s, __VA_ARGS__, cmp_of(a[1])); break; \
    case 2: make(s, __VA_ARGS__, A<V>((int)a[2])); break; \
    default: make(s, __VA_ARGS__, cmp_of(a[1]), A<V>((int)a[2])); } } while (0)
#else
#define MK_VAR(...) do { switch (a[0] & 1) { \
    case 0: make(s, __VA_ARGS__); break; \
    default: make(s, __VA_ARGS__, cmp_of(a[1])); } } while (0)
#endif
static void fix_cv(Ints& a) { if (a.size() < 3) a.resize(3); a[0] = HAS_ALLOC ? a[0] & 3 : a[0] & 1; a[1] &= 1; }
static void op_ctor_def(int s, Ints& a) { fix_cv(a); a.resize(3); kill(s);
    call([&] {
        switch (a[0] & 3) { case 0: make(s); break; case 1: make(s, cmp_of(a[1])); break;
#if HAS_ALLOC
            case 2: make(s, A<V>((int)a[2])); break; default: make(s, cmp_of(a[1]), A<V>((int)a[2]));
#endif
        } }); after_ctor(s); }
static void op_ctor_rng(int s, Ints& a) { fix_cv(a); if (a.size() < 4) a.resize(4);
    auto v = vals_from(a, 4); NEED(FITS(v.size())); kill(s);
    with_range((int)a[3], v, [&](auto f, auto l) { call([&] { MK_VAR(f, l); }); }); after_ctor(s); }
static void op_ctor_il(int s, Ints& a) COPYING({ fix_cv(a); if (a.size() > 9) a.resize(9);
    auto v = vals_from(a, 3); NEED(FITS(v.size())); kill(s);
    with_il(v, [&](std::initializer_list<V> l) { call([&] { MK_VAR(l); }); }); after_ctor(s); })

// ---- insertion.  Results: [index, inserted]; multi containers and hinted calls have no flag (-1)
static void RIB(const C& c, const std::pair<It, bool>& r) { R.push_back(idx(c, r.first)); R.push_back(r.second); }
static void RIB(const C& c, const It& r) { R.push_back(idx(c, r)); R.push_back(-1); }
#define KEYPART(v) ((int)((v) / 100 * 100))
#define MAPPART(v) ((int)((v) % 100))
static void am_of(const E& e) { AM.push_back(e.v); }
static void am_of(const std::pair<E, E>& e) { AM.push_back(e.first.v); AM.push_back(e.second.v); }

static void op_insert(int s, Ints& a) COPYING({ a.resize(1); NEED(ROOM(1)); { V v(mk(a[0])); call([&] { C& c = *S[s]; RIB(c, c.insert(static_cast<const V&>(v))); }); am_of(v); } })
static void op_insert_m(int s, Ints& a) { a.resize(1); NEED(ROOM(1)); { V v(mk(a[0])); call([&] { C& c = *S[s]; RIB(c, c.insert(std::move(v))); }); } }
static void op_hinsert(int s, Ints& a) COPYING({ a.resize(2); NEED(ROOM(1)); fix_pos(a[0], SZ); { V v(mk(a[1])); call([&] { C& c = *S[s]; RIB(c, c.insert(c.cbegin() + a[0], static_cast<const V&>(v))); }); am_of(v); } })
static void op_hinsert_m(int s, Ints& a) { a.resize(2); NEED(ROOM(1)); fix_pos(a[0], SZ); { V v(mk(a[1])); call([&] { C& c = *S[s]; RIB(c, c.insert(c.cbegin() + a[0], std::move(v))); }); } }
#if defined(MAPLIKE)
static void op_emplace(int s, Ints& a) { a.resize(1); NEED(ROOM(1)); call([&] { C& c = *S[s]; RIB(c, c.emplace(KEYPART(a[0]), MAPPART(a[0]))); }); }
static void op_hemplace(int s, Ints& a) { a.resize(2); NEED(ROOM(1)); fix_pos(a[0], SZ); call([&] { C& c = *S[s]; RIB(c, c.emplace_hint(c.cbegin() + a[0], KEYPART(a[1]), MAPPART(a[1]))); }); }
static void op_insert_p(int s, Ints& a) { a.resize(1); NEED(ROOM(1)); call([&] { C& c = *S[s]; RIB(c, c.insert(std::pair<int, int>(KEYPART(a[0]), MAPPART(a[0])))); }); }
static void op_hinsert_p(int s, Ints& a) { a.resize(2); NEED(ROOM(1)); fix_pos(a[0], SZ); call([&] { C& c = *S[s]; RIB(c, c.insert(c.cbegin() + a[0], std::pair<int, int>(KEYPART(a[1]), MAPPART(a[1])))); }); }
#else
static void op_emplace(int s, Ints& a) { a.resize(1); NEED(ROOM(1)); call([&] { C& c = *S[s]; RIB(c, c.emplace((int)a[0])); }); }
static void op_hemplace(int s, Ints& a) { a.resize(2); NEED(ROOM(1)); fix_pos(a[0], SZ); call([&] { C& c = *S[s]; RIB(c, c.emplace_hint(c.cbegin() + a[0], (int)a[1])); }); }
#if !defined(MULTI)
static void op_insert_k(int s, Ints& a) { a.resize(1); NEED(ROOM(1)); a[0] = a[0] / 10000 * 10000; HK k{(int)(a[0] / 10000)}; call([&] { C& c = *S[s]; RIB(c, c.insert(k)); }); }
static void op_hinsert_k(int s, Ints& a) { a.resize(2); NEED(ROOM(1)); fix_pos(a[0], SZ); a[1] = a[1] / 10000 * 10000; HK k{(int)(a[1] / 10000)}; call([&] { C& c = *S[s]; RIB(c, c.insert(c.cbegin() + a[0], k)); }); }
#endif
#endif
static void op_insert_rng(int s, Ints& a) { if (a.size() < 1) a.resize(1); auto v = vals_from(a, 1); NEED(ROOM(v.size()));
    with_range((int)a[0], v, [&](auto f, auto l) { call([&] { S[s]->insert(f, l); }); }); }
static void op_insert_il(int s, Ints& a) COPYING({ if (a.size() > 6) a.resize(6); auto v = vals_from(a, 0); NEED(ROOM(v.size()));
    with_il(v, [&](std::initializer_list<V> l) { call([&] { S[s]->insert(l); }); }); })
// ---- aliasing
static const E& keyref(const E& e) { return e; }
static const E& keyref(const std::pair<E, E>& e) { return e.first; }
static void op_insert_al(int s, Ints& a) COPYING({ a.resize(1); NEED(SZ > 0 && ROOM(1)); a[0] = md(a[0], SZ); call([&] { C& c = *S[s]; RIB(c, c.insert(static_cast<const V&>(*(c.cbegin() + a[0])))); }); })
static void op_emplace_al(int s, Ints& a) COPYING({ a.resize(1); NEED(SZ > 0 && ROOM(1)); a[0] = md(a[0], SZ); call([&] { C& c = *S[s]; RIB(c, c.emplace(static_cast<const V&>(*(c.cbegin() + a[0])))); }); })
static void op_hinsert_al(int s, Ints& a) COPYING({ a.resize(2); NEED(SZ > 0 && ROOM(1)); fix_pos(a[0], SZ); a[1] = md(a[1], SZ); call([&] { C& c = *S[s]; RIB(c, c.insert(c.cbegin() + a[0], static_cast<const V&>(*(c.cbegin() + a[1])))); }); })
static void op_erase_al(int s, Ints& a) { a.resize(1); NEED(SZ > 0); a[0] = md(a[0], SZ); call([&] { C& c = *S[s]; R.push_back((long)c.erase(keyref(*(c.cbegin() + a[0])))); }); }
// ---- erasure by key: a = [key, heterogeneous?]
static void op_erase_key(int s, Ints& a) { a.resize(2); { E k((int)(a[0] * 10000)); HK h{(int)a[0]};
    call([&] { C& c = *S[s]; if (a[1]) R.push_back((long)c.erase(h)); else R.push_back((long)c.erase(static_cast<const E&>(k))); }); } }
// ---- lookup: a = [key, mode] mode bit0: heterogeneous, bit1: const container
template <class CC, class X> static void look(CC& c, const X& k, Ints& r) {
    r.push_back(idx(c, c.find(k))); r.push_back((long)c.count(k)); r.push_back((long)c.contains(k));
#if defined(ORDERED)
    r.push_back(idx(c, c.lower_bound(k))); r.push_back(idx(c, c.upper_bound(k)));
    auto e = c.equal_range(k); r.push_back(idx(c, e.first)); r.push_back(idx(c, e.second));
#endif
}
static void op_lookup(int s, Ints& a) { a.resize(2); { E k((int)(a[0] * 10000)); HK h{(int)a[0]}; C& c = *S[s]; const C& cc = c;
    call([&] { switch (a[1] & 3) { case 0: look(c, k, R); break; case 1: look(c, h, R); break; case 2: look(cc, k, R); break; default: look(cc, h, R); } }); } }
// cost of one lookup: a = [key, which]   result: index or count
static void op_look1(int s, Ints& a) { a.resize(2); { E k((int)(a[0] * 10000)); C& c = *S[s];
    call([&] { switch (a[1]) { case 0: R.push_back(idx(c, c.find(k))); break; case 1: R.push_back((long)c.count(k)); break; case 2: R.push_back((long)c.contains(k)); break;
#if defined(ORDERED)
        case 3: R.push_back(idx(c, c.lower_bound(k))); break; case 4: R.push_back(idx(c, c.upper_bound(k))); break;
        case 5: { auto e = c.equal_range(k); R.push_back(idx(c, e.first)); break; }
#endif
        default: R.push_back(-9); } }); } }
static void op_nth(int s, Ints& a) { a.resize(1); a[0] = md(a[0], SZ + 1); C& c = *S[s]; call([&] { R.push_back(idx(c, c.nth((size_t)a[0]))); }); }
static void op_comp(int s, Ints& a) { a.resize(2); const C& c = *S[s]; { E x((int)a[0] * 10000), y((int)a[1] * 10000);
    V vx(mk(a[0] * 10000)), vy(mk(a[1] * 10000));
    call([&] {
#if defined(ORDERED)
        R.push_back(c.key_comp()(x, y)); R.push_back(c.value_comp()(vx, vy));
#else
        R.push_back(c.key_eq()(x, y));
#if defined(MAPLIKE)
        R.push_back(c.value_eq()(vx, vy));
#endif
#endif
    }); } }
// ---- map operations
#if defined(MAPLIKE)
// write the mapped value of element i: a = [i, m]
static void op_setm(int s, Ints& a) { a.resize(2); NEED(SZ > 0); a[0] = md(a[0], SZ); E m((int)a[1]); call([&] { C& c = *S[s]; (c.begin() + a[0])->second = GIVEN(m); }); }
#if !defined(MULTI)
// a = [value, how]  how: 0 const Key&, 1 Key&&, 2 heterogeneous
// a key built from a heterogeneous key carries no tag
static void untag(Ints& a, bool h) { if (h) a[0] = a[0] / 10000 * 10000 + a[0] % 100; }
static void op_try_emplace(int s, Ints& a) { a.resize(2); MOVED_KEY untag(a, a[1] == 2); NEED(ROOM(1)); { E k(KEYPART(a[0])); HK h{K((int)a[0])}; E m(MAPPART(a[0]));
    call([&] { C& c = *S[s]; switch (a[1]) { COPYCASE(0, RIB(c, c.try_emplace(static_cast<const E&>(k), std::move(m))); break;) case 1: RIB(c, c.try_emplace(std::move(k), std::move(m))); break;
        case 2: RIB(c, c.try_emplace(h, std::move(m))); break; default: RIB(c, c.try_emplace(GIVEN(static_cast<const E&>(k)), (int)MAPPART(a[0]))); } });
    AM.push_back(k.v); AM.push_back(m.v); } }
static void op_htry_emplace(int s, Ints& a) { a.resize(3); MOVED_KEY untag(a, a[1] == 2); NEED(ROOM(1)); fix_pos(a[2], SZ); { E k(KEYPART(a[0])); HK h{K((int)a[0])}; E m(MAPPART(a[0]));
    call([&] { C& c = *S[s]; auto p = c.cbegin() + a[2]; switch (a[1]) { COPYCASE(0, RIB(c, c.try_emplace(p, static_cast<const E&>(k), std::move(m))); break;) case 1: RIB(c, c.try_emplace(p, std::move(k), std::move(m))); break;
        case 2: RIB(c, c.try_emplace(p, h, std::move(m))); break; default: RIB(c, c.try_emplace(p, GIVEN(static_cast<const E&>(k)), (int)MAPPART(a[0]))); } });
    AM.push_back(k.v); AM.push_back(m.v); } }
static void op_ins_assign(int s, Ints& a) { a.resize(2); MOVED_KEY untag(a, a[1] == 2); NEED(ROOM(1)); { E k(KEYPART(a[0])); HK h{K((int)a[0])}; E m(MAPPART(a[0]));
    call([&] { C& c = *S[s]; switch (a[1]) { COPYCASE(0, RIB(c, c.insert_or_assign(static_cast<const E&>(k), static_cast<const E&>(m))); break;) case 1: RIB(c, c.insert_or_assign(std::move(k), std::move(m))); break;
        default: RIB(c, c.insert_or_assign(h, std::move(m))); } });
    AM.push_back(k.v); AM.push_back(m.v); } }
static void op_hins_assign(int s, Ints& a) { a.resize(3); MOVED_KEY untag(a, a[1] == 2); NEED(ROOM(1)); fix_pos(a[2], SZ); { E k(KEYPART(a[0])); HK h{K((int)a[0])}; E m(MAPPART(a[0]));
    call([&] { C& c = *S[s]; auto p = c.cbegin() + a[2]; switch (a[1]) { COPYCASE(0, RIB(c, c.insert_or_assign(p, static_cast<const E&>(k), static_cast<const E&>(m))); break;) case 1: RIB(c, c.insert_or_assign(p, std::move(k), std::move(m))); break;
        default: RIB(c, c.insert_or_assign(p, h, std::move(m))); } });
    AM.push_back(k.v); AM.push_back(m.v); } }
// a = [value(key part), how, write?]: reads c[key]; when a[2] > 0 stores a[2] through the reference
static void op_sub(int s, Ints& a) { a.resize(3); MOVED_KEY NEED(ROOM(1)); untag(a, a[1] >= 2); a[0] = KEYPART(a[0]); { E k((int)a[0]); HK h{K((int)a[0])}; E m((int)a[2]);
    call([&] { C& c = *S[s];
        E* r;
        switch (a[1]) { COPYCASE(0, r = &c[static_cast<const E&>(k)]; break;) case 1: r = &c[std::move(k)]; break; case 2: r = &c[static_cast<const HK&>(h)]; break; default: r = &c[HK{K((int)a[0])}]; }
        R.push_back(code(*r)); if (a[2] > 0) *r = GIVEN(m); });
    AM.push_back(k.v); } }
// a = [key, how, write?] how: 0 at(Key), 1 at(HK), 2 const at(Key), 3 const at(HK)
static void op_at(int s, Ints& a) { a.resize(3); { E k((int)a[0] * 10000); HK h{(int)a[0]}; E m((int)a[2]); C& c = *S[s]; const C& cc = c;
    call([&] { switch (a[1]) { case 2: R.push_back(code(cc.at(k))); break; case 3: R.push_back(code(cc.at(h))); break;
        case 0: { E& r = c.at(k); R.push_back(code(r)); if (a[2] > 0) r = GIVEN(m); break; }
        default: { E& r = c.at(h); R.push_back(code(r)); if (a[2] > 0) r = GIVEN(m); } } }); } }
// aliasing: key or mapped argument refers into the container; a = [index, other]
static void op_try_emplace_al(int s, Ints& a) COPYING({ a.resize(2); NEED(SZ > 0 && ROOM(1)); a[0] = md(a[0], SZ); { E k(KEYPART(a[1]));
    call([&] { C& c = *S[s]; RIB(c, c.try_emplace(static_cast<const E&>(k), static_cast<const E&>((c.begin() + a[0])->second))); }); } })
static void op_ins_assign_al(int s, Ints& a) COPYING({ a.resize(2); NEED(SZ > 0 && ROOM(1)); a[0] = md(a[0], SZ); { E k(KEYPART(a[1]));
    call([&] { C& c = *S[s]; RIB(c, c.insert_or_assign(static_cast<const E&>(k), static_cast<const E&>((c.begin() + a[0])->second))); }); } })
static void op_ins_assign_kal(int s, Ints& a) COPYING({ a.resize(2); NEED(SZ > 0 && ROOM(1)); a[0] = md(a[0], SZ); { E m(MAPPART(a[1]));
    call([&] { C& c = *S[s]; RIB(c, c.insert_or_assign(static_cast<const E&>((c.begin() + a[0])->first), static_cast<const E&>(m))); }); } })
#endif
#endif
static void op_bulk_ins(int s, Ints& a) { a.resize(3); NEED(ROOM(a[0])); call([&] { C& c = *S[s]; for (long i = 0; i < a[0]; ++i) c.insert(mk(((i * a[1] + a[2]) % 9973) * 10000)); }); }

static void install_ops() {
    install_common();
#define O(n) OPS[#n] = op_##n
    O(ctor_def); O(ctor_rng); O(ctor_il); O(insert); O(insert_m); O(hinsert); O(hinsert_m); O(emplace); O(hemplace);
    O(insert_rng); O(insert_il); O(insert_al); O(emplace_al); O(hinsert_al); O(erase_al); O(erase_key); O(lookup); O(look1); O(nth); O(comp); O(bulk_ins);
#if defined(MAPLIKE)
    O(insert_p); O(hinsert_p); O(setm);
#if !defined(MULTI)
    O(try_emplace); O(htry_emplace); O(ins_assign); O(hins_assign); O(sub); O(at); O(try_emplace_al); O(ins_assign_al); O(ins_assign_kal);
#endif
#elif !defined(MULTI)
    O(insert_k); O(hinsert_k);
#endif
}
