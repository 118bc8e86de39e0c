#pragma once
// ---- construction: a[0] = 1 when the allocator argument a[1] is passed
static void op_ctor_def(int s, Ints& a) { a.resize(2); kill(s);
    call([&] {
#if HAS_ALLOC
        if (a[0]) { make(s, A<V>((int)a[1])); return; }
#endif
        make(s); }); after_ctor(s); }
static void op_ctor_n(int s, Ints& a) { a.resize(3); NEED(FITS(a[2])); kill(s);
    call([&] {
#if HAS_ALLOC
        if (a[0]) { make(s, (size_t)a[2], A<V>((int)a[1])); return; }
#endif
        make(s, (size_t)a[2]); }); after_ctor(s); }
#if defined(STATICC)
static void op_ctor_nd(int s, Ints& a) { a.resize(3); NEED(FITS(a[2])); kill(s); call([&] { make(s, (size_t)a[2], sfl::default_init_t()); }); after_ctor(s); }
static void op_resize_d(int s, Ints& a) { a.resize(1); NEED(FITS(a[0])); call([&] { S[s]->resize((size_t)a[0], sfl::default_init_t()); }); }
#endif
#ifdef MOVEONLY
static void op_ctor_nv(int s, Ints& a) { skip_op = true; }
#else
static void op_ctor_nv(int s, Ints& a) { a.resize(4); NEED(FITS(a[2])); kill(s); { E v((int)a[3]);
    call([&] {
#if HAS_ALLOC
        if (a[0]) { make(s, (size_t)a[2], v, A<V>((int)a[1])); return; }
#endif
        make(s, (size_t)a[2], v); }); } after_ctor(s); }
#endif
static void op_ctor_rng(int s, Ints& a) {
    if (a.size() < 3) a.resize(3);
    auto v = vals_from(a, 3); NEED(FITS(v.size())); kill(s);
    with_range((int)a[2], v, [&](auto f, auto l) { call([&] {
#if HAS_ALLOC
        if (a[0]) { make(s, f, l, A<V>((int)a[1])); return; }
#endif
        make(s, f, l); }); }); after_ctor(s); }
#ifdef MOVEONLY
static void op_ctor_il(int s, Ints& a) { skip_op = true; }
#else
static void op_ctor_il(int s, Ints& a) {
    if (a.size() < 2) a.resize(2); if (a.size() > 8) a.resize(8);
    auto v = vals_from(a, 2); NEED(FITS(v.size())); kill(s);
    with_il(v, [&](std::initializer_list<V> l) { call([&] {
#if HAS_ALLOC
        if (a[0]) { make(s, l, A<V>((int)a[1])); return; }
#endif
        make(s, l); }); }); after_ctor(s); }
#endif
// ---- assign
static void op_assign_nv(int s, Ints& a) COPYING({ a.resize(2); NEED(FITS(a[0])); E v((int)a[1]); call([&] { S[s]->assign((size_t)a[0], v); }); })
static void op_assign_rng(int s, Ints& a) { if (a.empty()) a.resize(1); auto v = vals_from(a, 1); NEED(FITS(v.size()));
    with_range((int)a[0], v, [&](auto f, auto l) { call([&] { S[s]->assign(f, l); }); }); }
static void op_assign_il(int s, Ints& a) COPYING({ if (a.size() > 6) a.resize(6); auto v = vals_from(a, 0); NEED(FITS(v.size()));
    with_il(v, [&](std::initializer_list<V> l) { call([&] { S[s]->assign(l); }); }); })
// ---- insertion
#define RI(e) R.push_back(idx(c, e))
static void op_emplace(int s, Ints& a) { a.resize(2); NEED(ROOM(1)); fix_pos(a[0], SZ); call([&] { C& c = *S[s]; RI(c.emplace(c.cbegin() + a[0], (int)a[1])); }); }
static void op_insert(int s, Ints& a) COPYING({ a.resize(2); NEED(ROOM(1)); fix_pos(a[0], SZ); { E v((int)a[1]); call([&] { C& c = *S[s]; RI(c.insert(c.cbegin() + a[0], static_cast<const E&>(v))); }); AM.push_back(v.v); } })
static void op_insert_m(int s, Ints& a) { a.resize(2); NEED(ROOM(1)); fix_pos(a[0], SZ); { E v((int)a[1]); call([&] { C& c = *S[s]; RI(c.insert(c.cbegin() + a[0], std::move(v))); }); } }
static void op_insert_nv(int s, Ints& a) COPYING({ a.resize(3); NEED(ROOM(a[1])); fix_pos(a[0], SZ); { E v((int)a[2]); call([&] { C& c = *S[s]; RI(c.insert(c.cbegin() + a[0], (size_t)a[1], v)); }); } })
static void op_insert_rng(int s, Ints& a) { if (a.size() < 2) a.resize(2); auto v = vals_from(a, 2); NEED(ROOM(v.size())); fix_pos(a[0], SZ);
    with_range((int)a[1], v, [&](auto f, auto l) { call([&] { C& c = *S[s]; RI(c.insert(c.cbegin() + a[0], f, l)); }); }); }
static void op_insert_il(int s, Ints& a) COPYING({ if (a.size() < 1) a.resize(1); if (a.size() > 7) a.resize(7); auto v = vals_from(a, 1); NEED(ROOM(v.size())); fix_pos(a[0], SZ);
    with_il(v, [&](std::initializer_list<V> l) { call([&] { C& c = *S[s]; RI(c.insert(c.cbegin() + a[0], l)); }); }); })
static void op_emplace_back(int s, Ints& a) { a.resize(1); NEED(ROOM(1)); call([&] { C& c = *S[s]; E& r = c.emplace_back((int)a[0]); R.push_back(&r == &c.back()); }); }
static void op_push_back(int s, Ints& a) COPYING({ a.resize(1); NEED(ROOM(1)); E v((int)a[0]); call([&] { S[s]->push_back(static_cast<const E&>(v)); }); AM.push_back(v.v); })
static void op_push_back_m(int s, Ints& a) { a.resize(1); NEED(ROOM(1)); E v((int)a[0]); call([&] { S[s]->push_back(std::move(v)); }); }
static void op_pop_back(int s, Ints&) { NEED(SZ > 0); call([&] { S[s]->pop_back(); }); }
static void op_resize(int s, Ints& a) { a.resize(1); NEED(FITS(a[0])); call([&] { S[s]->resize((size_t)a[0]); }); }
static void op_resize_v(int s, Ints& a) COPYING({ a.resize(2); NEED(FITS(a[0])); E v((int)a[1]); call([&] { S[s]->resize((size_t)a[0], v); }); })
// ---- aliasing: the argument refers to element i of the container itself
static void op_emplace_al(int s, Ints& a) COPYING({ a.resize(2); NEED(SZ > 0 && ROOM(1)); fix_pos(a[0], SZ); a[1] = md(a[1], SZ); call([&] { C& c = *S[s]; RI(c.emplace(c.cbegin() + a[0], static_cast<const E&>(c[a[1]]))); }); })
static void op_emplace_alm(int s, Ints& a) { a.resize(2); NEED(SZ > 0 && ROOM(1)); fix_pos(a[0], SZ); a[1] = md(a[1], SZ); call([&] { C& c = *S[s]; RI(c.emplace(c.cbegin() + a[0], std::move(c[a[1]]))); }); }
static void op_insert_al(int s, Ints& a) COPYING({ a.resize(2); NEED(SZ > 0 && ROOM(1)); fix_pos(a[0], SZ); a[1] = md(a[1], SZ); call([&] { C& c = *S[s]; RI(c.insert(c.cbegin() + a[0], static_cast<const E&>(c[a[1]]))); }); })
static void op_insert_nv_al(int s, Ints& a) COPYING({ a.resize(3); NEED(SZ > 0 && ROOM(a[1])); fix_pos(a[0], SZ); a[2] = md(a[2], SZ); call([&] { C& c = *S[s]; RI(c.insert(c.cbegin() + a[0], (size_t)a[1], static_cast<const E&>(c[a[2]]))); }); })
static void op_push_back_al(int s, Ints& a) COPYING({ a.resize(1); NEED(SZ > 0 && ROOM(1)); a[0] = md(a[0], SZ); call([&] { C& c = *S[s]; c.push_back(static_cast<const E&>(c[a[0]])); }); })
static void op_emplace_back_al(int s, Ints& a) COPYING({ a.resize(1); NEED(SZ > 0 && ROOM(1)); a[0] = md(a[0], SZ); call([&] { C& c = *S[s]; c.emplace_back(static_cast<const E&>(c[a[0]])); }); })
static void op_emplace_back_alm(int s, Ints& a) { a.resize(1); NEED(SZ > 0 && ROOM(1)); a[0] = md(a[0], SZ); call([&] { C& c = *S[s]; c.emplace_back(std::move(c[a[0]])); }); }
static void op_resize_v_al(int s, Ints& a) COPYING({ a.resize(2); NEED(SZ > 0 && FITS(a[0])); a[1] = md(a[1], SZ); call([&] { C& c = *S[s]; c.resize((size_t)a[0], static_cast<const E&>(c[a[1]])); }); })
// ---- access
static void op_at(int s, Ints& a) { a.resize(2); C& c = *S[s]; const C& cc = c; call([&] { R.push_back(code(a[1] ? cc.at((size_t)a[0]) : c.at((size_t)a[0]))); }); }
static void op_idx(int s, Ints& a) { a.resize(1); NEED(SZ > 0); a[0] = md(a[0], SZ); C& c = *S[s]; call([&] { R.push_back(code(c[(size_t)a[0]])); }); }
static void op_front(int s, Ints&) { NEED(SZ > 0); C& c = *S[s]; call([&] { R.push_back(code(c.front())); }); }
static void op_back(int s, Ints&) { NEED(SZ > 0); C& c = *S[s]; call([&] { R.push_back(code(c.back())); }); }
static void op_nth(int s, Ints& a) { a.resize(1); a[0] = md(a[0], SZ + 1); C& c = *S[s]; call([&] { It it = c.nth((size_t)a[0]); R.push_back(idx(c, it)); }); }
static void op_set(int s, Ints& a) { a.resize(3); NEED(SZ > 0); a[0] = md(a[0], SZ); C& c = *S[s]; E v((int)a[2]);
    call([&] { switch (md(a[1], 4)) { case 0: c[(size_t)a[0]] = GIVEN(v); break; case 1: *(c.begin() + a[0]) = GIVEN(v); break; case 2: c.at((size_t)a[0]) = GIVEN(v); break; default: *c.nth((size_t)a[0]) = GIVEN(v); } }); }
static void op_nm_erase(int s, Ints& a) { a.resize(1); E v((int)a[0]); call([&] { auto n = sfl::erase(*S[s], v); R.push_back((long)n); }); }
// ---- front end (devector, segmented_devector)
#if defined(DEV) || defined(SEGDEV)
static void op_emplace_front(int s, Ints& a) { a.resize(1); call([&] { C& c = *S[s]; E& r = c.emplace_front((int)a[0]); R.push_back(&r == &c.front()); }); }
static void op_push_front(int s, Ints& a) COPYING({ a.resize(1); E v((int)a[0]); call([&] { S[s]->push_front(static_cast<const E&>(v)); }); AM.push_back(v.v); })
static void op_push_front_m(int s, Ints& a) { a.resize(1); E v((int)a[0]); call([&] { S[s]->push_front(std::move(v)); }); }
static void op_push_front_al(int s, Ints& a) COPYING({ a.resize(1); NEED(SZ > 0); a[0] = md(a[0], SZ); call([&] { C& c = *S[s]; c.push_front(static_cast<const E&>(c[a[0]])); }); })
static void op_emplace_front_al(int s, Ints& a) COPYING({ a.resize(1); NEED(SZ > 0); a[0] = md(a[0], SZ); call([&] { C& c = *S[s]; c.emplace_front(static_cast<const E&>(c[a[0]])); }); })
static void op_emplace_front_alm(int s, Ints& a) { a.resize(1); NEED(SZ > 0); a[0] = md(a[0], SZ); call([&] { C& c = *S[s]; c.emplace_front(std::move(c[a[0]])); }); }
static void op_pop_front(int s, Ints&) { NEED(SZ > 0); call([&] { S[s]->pop_front(); }); }
static void op_resize_front(int s, Ints& a) { a.resize(1); call([&] { S[s]->resize_front((size_t)a[0]); }); }
static void op_resize_front_v(int s, Ints& a) COPYING({ a.resize(2); E v((int)a[1]); call([&] { S[s]->resize_front((size_t)a[0], v); }); })
static void op_resize_back(int s, Ints& a) { a.resize(1); call([&] { S[s]->resize_back((size_t)a[0]); }); }
static void op_resize_back_v(int s, Ints& a) COPYING({ a.resize(2); E v((int)a[1]); call([&] { S[s]->resize_back((size_t)a[0], v); }); })
static void op_resize_front_v_al(int s, Ints& a) COPYING({ a.resize(2); NEED(SZ > 0); a[1] = md(a[1], SZ); call([&] { C& c = *S[s]; c.resize_front((size_t)a[0], static_cast<const E&>(c[a[1]])); }); })
static void op_resize_back_v_al(int s, Ints& a) COPYING({ a.resize(2); NEED(SZ > 0); a[1] = md(a[1], SZ); call([&] { C& c = *S[s]; c.resize_back((size_t)a[0], static_cast<const E&>(c[a[1]])); }); })
static void op_reserve_front(int s, Ints& a) { a.resize(1); call([&] { S[s]->reserve_front((size_t)a[0]); }); }
static void op_reserve_back(int s, Ints& a) { a.resize(1); call([&] { S[s]->reserve_back((size_t)a[0]); }); }
#endif
// ---- bulk loops for cost measurements (contents not logged)
static void op_bulk_pb(int s, Ints& a) { a.resize(2); NEED(ROOM(a[0])); call([&] { for (long i = 0; i < a[0]; ++i) S[s]->emplace_back((int)(i + 1)); }); }
static void op_bulk_pf(int s, Ints& a) { a.resize(2);
#if defined(DEV) || defined(SEGDEV)
    call([&] { for (long i = 0; i < a[0]; ++i) S[s]->emplace_front((int)(i + 1)); });
#else
    (void)s; skip_op = true;
#endif
}
// queue usage (push at one end, pop at the other) and alternating growth at both ends
static void op_bulk_q(int s, Ints& a) { a.resize(2);
#if defined(DEV) || defined(SEGDEV)
    call([&] { for (long i = 0; i < a[0]; ++i) { if (a[1] % 2 == 0) { S[s]->emplace_back((int)(i + 1)); S[s]->pop_front(); } else { S[s]->emplace_front((int)(i + 1)); S[s]->pop_back(); } } });
#else
    (void)s; skip_op = true;
#endif
}
static void op_bulk_alt(int s, Ints& a) { a.resize(2);
#if defined(DEV) || defined(SEGDEV)
    call([&] { for (long i = 0; i < a[0]; ++i) { if (i % 2) S[s]->emplace_back((int)(i + 1)); else S[s]->emplace_front((int)(i + 1)); } });
#else
    (void)s; skip_op = true;
#endif
}

static void install_ops() {
    install_common();
#define O(n) OPS[#n] = op_##n
    O(ctor_def); O(ctor_n); O(ctor_nv); O(ctor_rng); O(ctor_il); O(assign_nv); O(assign_rng); O(assign_il);
    O(emplace); O(insert); O(insert_m); O(insert_nv); O(insert_rng); O(insert_il); O(emplace_back); O(push_back);
    O(push_back_m); O(pop_back); O(resize); O(resize_v); O(emplace_al); O(emplace_alm); O(insert_al); O(insert_nv_al);
    O(push_back_al); O(emplace_back_al); O(emplace_back_alm); O(resize_v_al); O(at); O(idx); O(front); O(back); O(nth); O(set); O(nm_erase);
    O(bulk_pb); O(bulk_pf); O(bulk_q); O(bulk_alt);
#if defined(STATICC)
    O(ctor_nd); O(resize_d);
#endif
#if defined(DEV) || defined(SEGDEV)
    O(emplace_front); O(push_front); O(push_front_m); O(push_front_al); O(emplace_front_al); O(emplace_front_alm); O(pop_front);
    O(resize_front); O(resize_front_v); O(resize_back); O(resize_back_v); O(resize_front_v_al); O(resize_back_v_al);
    O(reserve_front); O(reserve_back);
#endif
}
