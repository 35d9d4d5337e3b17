// operations on constant structures (P18); included after u_use.cpp
template<class T> void can_move(T& x) { T a(x), b(std::move(a)); a = b; a = std::move(b); a.swap(x); const T& c = x; T d(c); d = c; }
template<class W> void wt_const(const W& w) { w.size(); w.empty(); (void)w[0]; w.rank(0, 0); w.select(1, 0); w.inverse_select(0); (void)w.sigma; w.serialize(std::cout); }
template<class W> void wt_sym_const(const W& w) { uint64_t k = 0; std::vector<typename W::value_type> cs; std::vector<uint64_t> r; interval_symbols(w, 0, 1, k, cs, r, r); fit(w); cit(w); intersect(w, {{0, 1}}, 0); }
template<class W> void wt_lex_const(const W& w) { w.lex_count(0, 1, 0); w.lex_smaller_count(0, 0); symbol_lte(w, 0); symbol_gte(w, 0); quantile_freq(w, 0, 1, 0); }
template<class W> void wt_2d_const(const W& w) { w.range_search_2d(0, 1, 0, 1); }
template<class W> void wt_node_const(const W& w) {
    auto v = w.root(); w.expand(v); w.expand(v, range_type{{0, 1}}); w.expand(v, range_vec_type()); w.is_leaf(v); w.empty(v); w.size(v); w.sym(v); w.bit_vec(v); w.seq(v); w.path(0);
    for (auto b : w.bit_vec(v)) (void)b; for (auto b : w.seq(v)) (void)b; w.bit_vec(v).size(); w.bit_vec(v)[0]; w.seq(v).size(); w.seq(v)[0];
}
template<class B> void bv_const(const B& b) {
    (void)b[0]; b.get_int(0, 64); b.size(); b.serialize(std::cout); fit(b); cit(b); typename B::const_iterator i = b.begin(); (void)i;
    const typename B::rank_1_type r1(&b); const typename B::rank_0_type r0(&b); const typename B::select_1_type s1(&b); const typename B::select_0_type s0(&b);
    r1(0); r0(0); s1(1); s0(1); r1.rank(0); r0.rank(0); s1.select(1); s0.select(1); r1.size(); r1.serialize(std::cout); s1.serialize(std::cout);
    typename B::rank_1_type q; q.load(std::cin, &b); q.load(std::cin); typename B::select_1_type s; s.load(std::cin, &b); s = s1; q = r1; typename B::rank_1_type q2(q), q3(std::move(q2)); q2 = std::move(q3); typename B::select_1_type t2(s), t3(std::move(t2)); t2 = std::move(t3); t2.swap(t3); t2.set_vector(&b);
}
template<class V> void vec_const(const V& v) { (void)v[0]; v.size(); v.empty(); v.serialize(std::cout); fit(v); cit(v); }
template<class C> void csa_const(const C& c) {
    std::vector<uint64_t> p; count(c, p.begin(), p.end()); locate(c, p.begin(), p.end()); extract(c, 0, 1); extract(c, 0, 1, p.begin()); typename C::size_type l = 0, r = 0;
    backward_search(c, 0, 0, p.begin(), p.end(), l, r); backward_search(c, 0, 0, 1, l, r); forward_search(c, 0, 0, 1, l, r); forward_search(c, 0, 0, p.begin(), p.end(), l, r); lex_interval(c, p.begin(), p.end());
    (void)c[0]; c.size(); c.empty(); (void)c.psi[0]; (void)c.lf[0]; (void)c.isa[0]; (void)c.bwt[0]; (void)c.text[0]; (void)c.L[0]; (void)c.F[0]; (void)c.C[0]; (void)c.char2comp[0]; (void)c.comp2char[0]; (void)c.sigma; (void)c.sa_sample; (void)c.isa_sample;
    fit(c); fit(c.psi); fit(c.lf); fit(c.bwt); fit(c.isa); fit(c.text); fit(c.L); fit(c.F); cit(c); cit(c.psi); cit(c.lf); cit(c.bwt); cit(c.isa); cit(c.text); cit(c.L); cit(c.F); c.bwt.rank(0, 0); c.bwt.select(1, 0);
    c.psi.size(); c.psi.empty(); c.lf.size(); c.lf.empty(); c.isa.size(); c.isa.empty(); c.bwt.size(); c.bwt.empty(); c.text.size(); c.text.empty(); c.serialize(std::cout); C::max_size();
}
template<class C> void csa_any() { C c; construct(c, "f", 4); cache_config cfg; construct(c, "f", cfg, 4); construct_im(c, IV(), 0); csa_const(c); can_move(c); io_use2<C>(); }
template<class C> void cst_const(const C& c) {
    auto v = c.root(); std::vector<uint64_t> p; count(c, p.begin(), p.end()); locate(c, p.begin(), p.end()); extract(c, v); extract(c, v, p.begin()); typename C::size_type l = 0; typename C::char_type ch = 1; auto u = v;
    forward_search(c, u, l, ch, l); forward_search(c, u, l, p.begin(), p.end(), l);
    for (auto w : c.children(v)) c.depth(w); c.children(v)[0]; c.children(v).size(); c.parent(v); c.sibling(v); c.sl(v); c.wl(v, ch); c.lca(v, v); c.edge(v, 1); c.child(v, ch); c.child(v, ch, l); c.select_child(v, 1); c.select_leaf(1);
    c.sn(v); c.id(v); c.inv_id(0); c.lb(v); c.rb(v); c.size(v); c.degree(v); c.depth(v); c.node_depth(v); c.is_leaf(v); c.leftmost_leaf(v); c.rightmost_leaf(v); c.node(0, 0); c.nodes(); c.size(); c.empty(); (void)c.csa[0]; (void)c.lcp[0]; c.lcp.size(); c.lcp.empty(); fit(c.lcp);
    for (auto it = c.begin(); it != c.end(); ++it) (void)*it; for (auto it = c.begin(v); it != c.end(v); ++it) { (void)*it; it.visit(); it.skip_subtree(); } for (auto it = c.begin_bottom_up(); it != c.end_bottom_up(); ++it) (void)*it; c.serialize(std::cout);
}
template<class C> void cst_any() { C c; construct(c, "f", 4); cache_config cfg; construct(c, "f", cfg, 4); construct_im(c, IV(), 0); cst_const(c); can_move(c); io_use2<C>(); }
template<class R> void rmq_const(const R& r) { r(0, 1); r.size(); r.serialize(std::cout); }
template<class B> void bp_const(const B& b) { b.find_close(0); b.find_open(0); b.enclose(0); b.excess(0); b.rank(0); b.select(1); b.double_enclose(0, 0); b.rr_enclose(0, 0); b.preceding_closing_parentheses(0); b.size(); b.serialize(std::cout); }
