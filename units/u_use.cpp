#include "all.hpp"
// explicit use of function templates, member templates and iterators
using namespace sdsl;
using std::string;
typedef int_vector<> IV;

template<class It> void it_use(It a, It b) {
    It c(a); c = b; ++a; a++; --a; a--; a += 2; a -= 2; a + 2; a - 2; (void)(a - b); (void)*a; (void)a[1];
    (void)(a == b); (void)(a != b); (void)(a < b); (void)(a > b); (void)(a <= b); (void)(a >= b); (void)(2 + a);
}
template<class C> void cit(const C& c) { it_use(c.begin(), c.end()); }
template<class C> void fit(const C& c) { for (auto it = c.begin(); it != c.end(); ++it) (void)*it; }

template<class T> void io_use() {
    T x; string f; cache_config cfg;
    store_to_file(x, f); load_from_file(x, f); store_to_checked_file(x, f); load_from_checked_file(x, f);
    store_to_cache(x, f, cfg, true); load_from_cache(x, f, cfg, true); cache_file_exists<T>(f, cfg);
    size_in_bytes(x); size_in_mega_bytes(x);
    write_structure<JSON_FORMAT>(x, std::cout); write_structure<HTML_FORMAT>(x, f); write_structure<R_FORMAT>(x, std::cout);
    util::class_to_hash(x); util::class_name(x); util::clear(x); util::assign(x, T()); 
}
template<class T> void io_use2() {
    T x; string f; cache_config cfg;
    store_to_file(x, f); load_from_file(x, f); store_to_checked_file(x, f); load_from_checked_file(x, f);
    store_to_cache(x, f, cfg, true); load_from_cache(x, f, cfg, true); cache_file_exists<T>(f, cfg);
    size_in_bytes(x); size_in_mega_bytes(x);
    write_structure<JSON_FORMAT>(x, std::cout); write_structure<HTML_FORMAT>(x, f);
    util::class_to_hash(x); util::clear(x); util::assign(x, T());
}
template<class V> void iv_use() {
    V v(10, 0), w{1, 2, 3}; const V& cv = v; string f; std::ofstream o;
    it_use(v.begin(), v.end()); it_use(cv.begin(), cv.end());
    (void)(v[0] == v[1]); (void)(v[0] < v[1]); v[0] = v[1];
    (void)(v == w); (void)(v < w); (void)(v > w); (void)(v <= w); (void)(v >= w); (void)(v != w);
    
    util::set_random_bits(v, 3); util::mod(v, 7); util::bit_compress(v); util::expand_width(v, 13); util::set_to_value(v, 3);
    util::set_to_id(v); util::cnt_one_bits(v); util::cnt_onezero_bits(v); util::cnt_zeroone_bits(v);
    util::next_bit(v, 0); util::prev_bit(v, 0); util::_set_zero_bits(v); util::_set_one_bits(v);
    store_to_plain_array<uint32_t>(v, f); load_vector_from_file(v, f, 1, 0); v.write_data(o);
    std::cout << v;
}
void refs() {
    IV v(10, 0), &w = v; auto r = v[0]; ++r; r++; --r; r--; r += 1; r -= 1; (void)(r == r); (void)(r < r); uint64_t z = 0; using std::swap;
    swap(r, v[1]); swap(z, v[1]); swap(v[1], z); bit_vector b(10, 0); bool q = 0; swap(b[0], b[1]); swap(q, b[0]); swap(b[0], q); auto rb = b[0]; rb = b[1]; rb = true; (void)(rb == rb); (void)(rb < rb);
}
template<class B> void buf_use() {
    B b("f", std::ios::out, 1024, 8, false); b.push_back(1); b[3] = 4; b[3] += 1; b[3] -= 1; ++b[3]; b[3]++; --b[3]; b[3]--; b[2] = b[3];
    (void)(b[3] == b[2]); (void)(b[3] < b[2]); uint64_t x = b[1]; (void)x; for (auto it = b.begin(); it != b.end(); ++it) *it = 3; auto i1 = b.begin(); i1++; i1--; --i1; i1 += 2; i1 -= 1; i1 + 1; i1 - 1; (void)(i1 - i1); (void)(i1 == i1); B c; c = std::move(b); c.swap(b); c.reset(); c.buffersize(10); c.close(true);
}
template<class Coder> void coder_use() {
    IV a, b; Coder::encode(a, b); Coder::decode(a, b); Coder::encoding_length((uint64_t)3); uint64_t* p = nullptr; uint8_t o = 0; Coder::encode((uint64_t)4, p, o);
    Coder::template decode<false, false, uint64_t*>(p, 0, 0); Coder::template decode<true, false, uint64_t*>(p, 0, 0); Coder::template decode<false, true, uint64_t*>(p, 0, 0, p);
    Coder::decode_prefix_sum(p, 0, 0); Coder::decode_prefix_sum(p, 0, 0, 0);
    enc_vector<Coder> e(a); vlc_vector<Coder> v(a); cit(e); cit(v); int_vector_buffer<> ib; enc_vector<Coder> e2(ib); vlc_vector<Coder> v2(ib);
    io_use2<enc_vector<Coder>>(); io_use2<vlc_vector<Coder>>();
    int_vector_serialize_vlen_wrapper<Coder> sw(a); sw.serialize(std::cout); int_vector_load_vlen_wrapper<Coder> lw(a); lw.load(std::cin);
}
template<class C> void csa_use(string f) {
    C c; cache_config cfg; construct(c, f, 1); construct(c, f, cfg, 1); construct_im(c, string("abc"), 1);
    string p("ab"); count(c, p.begin(), p.end()); count(c, p); locate(c, p.begin(), p.end()); locate(c, p); extract(c, 0, 1); extract(c, 0, 1, p.begin());
    typename C::size_type l = 0, r = 0; backward_search(c, 0, 0, p.begin(), p.end(), l, r); backward_search(c, 0, 0, p[0], l, r);
    forward_search(c, 0, 0, p[0], l, r); forward_search(c, 0, 0, p.begin(), p.end(), l, r); lex_interval(c, p.begin(), p.end());
    fit(c); fit(c.psi); fit(c.lf); fit(c.bwt); fit(c.isa); fit(c.text); fit(c.L); fit(c.F); c.bwt.rank(0, 0); c.bwt.select(1, 0); c.bwt.size(); c.bwt.empty(); c.psi.size(); c.lf.empty(); c.isa.empty(); c.text.empty(); c.F.empty(); c.psi[0]; c.lf[0]; c.isa[0]; c.bwt[0]; c.text[0]; c.F[0]; c[0];
    csXprintf(std::cout, string("%I %S %s %P %p %B %T"), c); io_use2<C>();
}
template<class C> void bi_use() { C a, b; typename C::size_type x = 0; string p; bidirectional_search(a, 0, 0, 0, 0, 0, x, x, x, x); bidirectional_search_backward(a, b, 0, 0, 0, 0, p.begin(), p.end(), x, x, x, x); bidirectional_search_forward(a, b, 0, 0, 0, 0, p.begin(), p.end(), x, x, x, x); }
template<class C> void cst_use(string f) {
    C c; cache_config cfg; construct(c, f, 1); construct_im(c, string("abc"), 1); auto v = c.root(); string p("ab");
    count(c, p.begin(), p.end()); locate(c, p.begin(), p.end()); extract(c, v); typename C::size_type l = 0; typename C::char_type ch = 'a';
    forward_search(c, v, l, ch, l); forward_search(c, v, l, p.begin(), p.end(), l); 
    for (auto it = c.begin(); it != c.end(); ++it) { (void)*it; it.visit(); it.skip_subtree(); } for (auto it = c.begin_bottom_up(); it != c.end_bottom_up(); ++it) (void)*it;
    auto b = c.begin_bottom_up(); (void)(b == b); b++;
    typedef cst_bfs_iterator<C> bfs; bfs x(&c, v), y(&c, v, true, true); (void)(x == y); (void)(x != y); ++x; x++; (void)*x; x.size();
    c.children(v)[0]; c.children(v).size(); for (auto w : c.children(v)) c.depth(w); auto q = c.children(v).begin(); q++; (void)(q == q);
    c.parent(v); c.sibling(v); c.sl(v); c.wl(v, ch); c.lca(v, v); c.edge(v, 1); c.child(v, ch); c.child(v, ch, l); c.select_child(v, 1); c.sn(v); c.id(v); c.inv_id(0); c.lb(v); c.rb(v); c.size(v); c.degree(v); c.depth(v); c.node_depth(v); c.is_leaf(v); c.node(0, 0); c.leftmost_leaf(v); c.rightmost_leaf(v); c.select_leaf(1); c.nodes(); c.tlcp_idx(0);
    csXprintf(std::cout, string("%I %S %l"), c); io_use2<C>(); fit(c.lcp); c.lcp[0]; c.lcp.empty(); c.lcp.size();
}
template<class C> void cst_use2(string f) {
    C c; cache_config cfg; construct(c, f, 1); auto v = c.root(); c.parent(v); c.depth(v); c.size(v); fit(c.lcp); c.lcp[0]; c.lcp.empty(); c.lcp.size(); io_use2<C>();
}
template<class W> void wt_use() {
    W w; int_vector_buffer<> b; W x(w), y(std::move(w)); x = y; x = std::move(y); x.swap(y); x.size(); x.empty(); x[0]; x.rank(0, 0); x.select(1, 0); x.inverse_select(0); io_use2<W>(); construct(x, "f", 1); construct_im(x, IV(3, 4), 0); construct_im(x, "s", 1);
}
template<class W> void wt_use_sym() { W w; uint64_t k = 0; std::vector<typename W::value_type> cs; std::vector<uint64_t> r; interval_symbols(w, 0, 1, k, cs, r, r); intersect(w, {{0, 1}}, 0); }
template<class W> void wt_use_lex() {
    W w; w.lex_count(0, 1, 0); w.lex_smaller_count(0, 0); symbol_lte(w, 0); symbol_gte(w, 0);
}
template<class W> void wt_use2d() { W w; w.range_search_2d(0, 1, 0, 1); restricted_unique_range_values(w, 0, 1, 0, 1); quantile_freq(w, 0, 1, 0); }
template<class W> void wt_node() {
    W w; auto v = w.root(); w.expand(v); w.expand(v, range_type{{0, 1}}); w.expand(v, range_vec_type()); w.is_leaf(v); w.empty(v); w.size(v); w.sym(v); auto u = v; u = v; u = std::move(v); w.bit_vec(u); w.seq(u); w.path(0);
    for (auto b : w.bit_vec(u)) (void)b; for (auto b : w.seq(u)) (void)b; w.bit_vec(u).size(); w.bit_vec(u)[0]; w.seq(u).size(); w.seq(u)[0];
}
template<class T> void bv_use() {
    bit_vector b; std::vector<uint64_t> v; T x(b), y(std::move(b)); x = y; x = std::move(y); x.swap(y); (void)x[0]; x.get_int(0, 64); x.size(); io_use2<T>(); cit(x);
    typename T::rank_1_type r1(&x); typename T::rank_0_type r0(&x); typename T::select_1_type s1(&x); typename T::select_0_type s0(&x);
    r1(0); r0(0); s1(1); s0(1); r1.size(); util::init_support(r1, &x); util::init_support(s1, &x);
    typename T::rank_1_type q(r1); q = r1; q.swap(r1); q.set_vector(&x); r1.rank(0); s1.select(1);
    util::swap_support(r1, q, &x, &y);
}
void bvs() {
    bv_use<bit_vector>(); bv_use<bit_vector_il<512>>(); bv_use<bit_vector_il<1024>>(); bv_use<rrr_vector<63>>(); bv_use<rrr_vector<15>>(); bv_use<rrr_vector<127>>(); bv_use<rrr_vector<31>>(); bv_use<rrr_vector<256>>(); bv_use<sd_vector<>>();
    bv_use<sd_vector<rrr_vector<63>>>();
    hyb_vector<> h; bit_vector b(10); hyb_vector<> h2(b); io_use2<hyb_vector<>>(); rank_support_hyb<1> hr(&h); rank_support_hyb<0> hr0(&h); hr(0); hr0(1); h.get_int(0, 3); hyb_vector<16> h3(b); hyb_vector<16>::rank_1_type hr3(&h3); hr3(0);
    std::vector<uint64_t> v; sd_vector<> s(v.begin(), v.end()); sd_vector_builder bu(10, 3); bu.set(1); sd_vector<> s2(bu);
    rank_support_v<1,1> a(&b); rank_support_v<0,1> a0(&b); rank_support_v<10,2> a1(&b); rank_support_v<01,2> a2(&b); rank_support_v<00,2> a3(&b); rank_support_v<11,2> a4(&b); a(1); a0(1); a1(1); a2(1); a3(1); a4(1);
    rank_support_v5<1,1> c(&b); rank_support_v5<0,1> c0(&b); rank_support_v5<10,2> c1(&b); rank_support_v5<01,2> c2(&b); rank_support_v5<00,2> c3(&b); rank_support_v5<11,2> c4(&b); c(1); c0(1); c1(1); c2(1); c3(1); c4(1);
    rank_support_scan<1,1> d(&b); rank_support_scan<0,1> d0(&b); rank_support_scan<10,2> d1(&b); rank_support_scan<01,2> d2(&b); rank_support_scan<00,2> d3(&b); rank_support_scan<11,2> d4(&b); d(1); d0(1); d1(1); d2(1); d3(1); d4(1);
    select_support_mcl<1,1> e(&b); select_support_mcl<0,1> e0(&b); select_support_mcl<10,2> e1(&b); select_support_mcl<01,2> e2(&b); select_support_mcl<11,2> e3(&b); select_support_mcl<00,2> e4(&b); e(1); e0(1); e1(1); e2(1); e3(1); e4(1);
    select_support_scan<1,1> g(&b); select_support_scan<0,1> g0(&b); select_support_scan<10,2> g1(&b); select_support_scan<01,2> g2(&b); g(1); g0(1); g1(1); g2(1);
    io_use2<rank_support_v5<>>; bp_support_sada<> bs(&b), bs2(bs); bp_support_g<> bg(&b), bg2(bg); bp_support_gg<> bgg(&b), bgg2(bgg); bgg2 = std::move(bgg); bg2 = bg; bs2.swap(bs);
    bs.find_close(0); bs.find_open(0); bs.enclose(0); bs.excess(0); bs.rank(0); bs.select(1); bs.double_enclose(0, 0); bs.rr_enclose(0, 0); bs.rmq(0, 1); bs.preceding_closing_parentheses(0); bs.level_anc(0, 1);
    bg.find_close(0); bg.find_open(0); bg.enclose(0); bg.excess(0); bg.rank(0); bg.select(1); bg.double_enclose(0, 0); bg.rr_enclose(0, 0); bg.preceding_closing_parentheses(0);
    bgg.find_close(0); bgg.find_open(0); bgg.enclose(0); bgg.excess(0); bgg.rank(0); bgg.select(1); bgg.double_enclose(0, 0); bgg.rr_enclose(0, 0); bgg.preceding_closing_parentheses(0);
}
void ivs() {
    iv_use<int_vector<0>>(); iv_use<int_vector<1>>(); iv_use<int_vector<8>>(); iv_use<int_vector<16>>(); iv_use<int_vector<32>>(); iv_use<int_vector<64>>();
    io_use<int_vector<0>>; io_use2<int_vector<0>>(); io_use2<int_vector<8>>(); io_use2<bit_vector>();
    buf_use<int_vector_buffer<0>>(); buf_use<int_vector_buffer<8>>(); buf_use<int_vector_buffer<1>>(); buf_use<int_vector_buffer<64>>();
    int_vector_mapper<0> m("f"), m2(std::move(m)); m = std::move(m2); (void)(m == IV()); (void)(m != IV()); m.begin(); m.push_back(3); m.resize(3); m.bit_resize(3); m.width(); m.data(); const int_vector_mapper<0>& cm = m; cm[0]; cm.begin(); cm.end();
    int_vector_mapper<0, std::ios_base::in> ro("f"); const auto& cro = ro; cro[0]; cro.begin(); cro.end(); (void)(ro == IV()); int_vector_mapper<8, std::ios_base::in> ro8("f"); const auto& cro8 = ro8; cro8[0]; string s;
    cache_config cfg; auto tf = temp_file_buffer<8>::create(); auto tf3 = temp_file_buffer<0>::create(); auto wo = write_out_buffer<8>::create(s); auto wo2 = write_out_buffer<0>::create(s); 
    uint64_t x = 0; write_member(x, std::cout); read_member(x, std::cin); write_member(s, std::cout); read_member(s, std::cin); write_member(true, std::cout); double dd; write_member(dd, std::cout);
    util::to_string(3); util::hashvalue_of_classname(cfg); util::pid(); util::id(); util::demangle2(""); ram_file_name(""); disk_file_name(""); is_ram_file(""); 
    util::to_latex_string('c'); random_access_container<std::function<uint64_t(uint64_t)>> rc; fit(rc); rc[0];
    dac_vector<> dv(IV{}); int_vector_buffer<> ib; dac_vector<> dv2(ib); dac_vector_dp<> dp(IV{}), dp2(ib); cit(dv); cit(dp); io_use2<dac_vector<>>(); io_use2<dac_vector_dp<>>(); dac_vector<8> d8(IV{});
    inv_perm_support<> ip(nullptr); ip[0]; nearest_neighbour_dictionary<32> nn; nn.rank(0); nn.select(1); sorted_int_stack st(10); st.push(1); st.pop(); st.top(); sorted_stack_support ss(10); ss.push(1); ss.pop(); ss.top(); sorted_multi_stack_support sm(10); sm.push(1); sm.pop(); sm.top();
    IV v; store_to_plain_array<uint8_t>(v, s); char* cst = nullptr; store_to_file((const char*)cst, s); store_to_file(s, s); util::set_verbose();
    int_vector_serialize_vbyte_wrapper<> vbs(v); vbs.serialize(std::cout); int_vector_load_vbyte_wrapper<> vbl(v); vbl.load(std::cin); int_vector_serialize_vbyte_wrapper<8> vbs8(int_vector<8>{}); vbs8.serialize(std::cout);
    int_vector_serialize_wrapper<> sw(IV{}); sw.serialize(std::cout); int_vector_load_wrapper<> lw(v); lw.load(std::cin);
    cst_sct3<> cst_; typedef cst_bfs_iterator<cst_sct3<>> bfs_; bfs_ b1(&cst_, cst_.root()), b2(&cst_, cst_.root(), true, true); louds_tree<> lt(cst_, b1, b2); louds_tree<> lt2(lt); lt.swap(lt2); lt.serialize(std::cout); lt.load(std::cin); lt.child(lt.root(), 1); lt.parent(lt.root()); lt.degree(lt.root()); std::vector<std::pair<uint64_t,uint64_t>> vp;
    memory_monitor::start(); memory_monitor::stop(); memory_monitor::write_memory_log<JSON_FORMAT>(std::cout); memory_monitor::write_memory_log<HTML_FORMAT>(std::cout); memory_monitor::event("x"); memory_monitor::peak(); memory_monitor::granularity(std::chrono::milliseconds(1)); memory_manager::use_hugepages(0);
}
void coders() { coder_use<coder::elias_delta>(); coder_use<coder::elias_gamma>(); coder_use<coder::fibonacci>(); }
void comma() { IV a, b; coder::comma<2>::encode(a, b); coder::comma<2>::decode(a, b); uint64_t* p = nullptr; uint8_t o; coder::comma<2>::encode((uint64_t)4, p, o); coder::comma<2>::encoding_length(3); coder::comma<2>::decode_prefix_sum(p, 0, 0); coder::comma<2>::decode_prefix_sum(p, 0, 0, 0); coder::comma<2>::decode<false, false, uint64_t*>(p, 0, 0); coder::comma<2>::decode<true, false, uint64_t*>(p, 0, 0); coder::comma<2>::decode<false, true, uint64_t*>(p, 0, 0, p); vlc_vector<coder::comma<2>> v(a); io_use2<vlc_vector<coder::comma<4>>>(); enc_vector<coder::comma<2>> e(a); }
void csas(string f) {
    csa_use<csa_wt<>>(f); csa_use<csa_sada<>>(f); csa_use<csa_bitcompressed<>>(f);
    csa_use<csa_wt<wt_huff<>,32,32,text_order_sa_sampling<>,text_order_isa_sampling_support<>>>(f); csa_use<csa_wt<wt_huff<>,32,32,fuzzy_sa_sampling<>,fuzzy_isa_sampling_support<>>>(f); csa_use<csa_sada<enc_vector<>,32,32,text_order_sa_sampling<>,text_order_isa_sampling_support<>>>(f);
    csa_use<csa_wt<wt_huff<rrr_vector<63>>,32,32,sa_order_sa_sampling<>,isa_sampling<>,succinct_byte_alphabet<>>>(f);
    bi_use<csa_wt<wt_blcd<>>>();
    csa_wt_int<> ci; csa_sada_int<> si; csa_bitcompressed<int_alphabet<>> bi; construct(ci, f, 4); construct(si, f, 0); construct(bi, f, 1); std::vector<uint64_t> p; count(ci, p.begin(), p.end()); locate(si, p.begin(), p.end()); extract(ci, 0, 1); ci[0]; si[0]; bi[0]; ci.isa[0]; si.isa[0]; bi.isa[0]; ci.psi[0]; si.psi[0]; ci.lf[0]; si.lf[0]; si.bwt[0]; io_use2<csa_wt_int<>>(); io_use2<csa_sada_int<>>();
}
void csts(string f) {
    cst_use<cst_sct3<>>(f); cst_use<cst_sada<>>(f); cst_fully<> cf; construct(cf, f, 1); auto v = cf.root(); cf.parent(v); cf.depth(v); cf.child(v, 'a'); cf.sl(v); cf.lca(v, v); cf.size(v); fit(cf.lcp); cf.lcp[0]; cf.lcp.size(); io_use2<cst_fully<>>(); std::cout << v;
    cst_use2<cst_sct3<csa_wt<>, lcp_support_tree<>>>(f); cst_use2<cst_sct3<csa_wt<>, lcp_support_tree2<>>>(f); cst_use2<cst_sct3<csa_sada<>, lcp_support_sada<>>>(f); cst_use2<cst_sada<csa_sada<>, lcp_dac<>>>(f); cst_use2<cst_sct3<csa_wt<>, lcp_wt<>>>(f); 
    cst_sct3<csa_wt_int<>> ci; construct(ci, f, 0); ci.depth(ci.root()); bp_interval<> b; (void)(b < b); (void)(b == b); (void)(b != b); std::cout << b;
    rmq_succinct_sct<> r; IV iv; rmq_succinct_sct<> r2(&iv); r2(0, 1); rmq_succinct_sada<> rs(&iv); rs(0, 1); rmq_support_sparse_table<IV> rt(&iv); rt(0, 1); rt.size(); rmq_support_sparse_table<IV, false> rt2(&iv); rt2(0, 1); io_use2<rmq_succinct_sct<false>>(); io_use2<rmq_succinct_sada<>>();
    qsufsort::construct_sa(iv, "f", 1); int_vector<> sa; qsufsort::construct_sa(sa, iv); cache_config cfg; construct_lcp_kasai<8>(cfg); construct_lcp_kasai<0>(cfg); construct_lcp_PHI<8>(cfg); construct_lcp_PHI<0>(cfg); construct_lcp_semi_extern_PHI(cfg); construct_lcp_go(cfg); construct_lcp_goPHI(cfg); construct_lcp_bwt_based(cfg); construct_lcp_bwt_based2(cfg); construct_isa(cfg); construct_bwt<8>(cfg); construct_bwt<0>(cfg); construct_sa<8>(cfg); construct_sa<0>(cfg); construct_sa_se(cfg);
    lcp_wt<> lw; lcp_vlc<> lv; lcp_byte<> lb; lcp_bitcompressed<> lbc; lcp_dac<> ld; fit(lw); fit(lv); fit(lb); fit(lbc); fit(ld); io_use2<lcp_wt<>>(); io_use2<lcp_vlc<>>(); io_use2<lcp_byte<>>(); io_use2<lcp_bitcompressed<>>(); io_use2<lcp_dac<>>(); lcp_wt<> lw2(cfg); lcp_vlc<> lv2(cfg); lcp_byte<> lb2(cfg); lcp_bitcompressed<> lc2(cfg); lcp_dac<> ld2(cfg);
}
void wts() {
    wt_use<wt_huff<>>(); wt_use<wt_hutu<>>(); wt_use<wt_blcd<>>(); wt_use<wt_huff<rrr_vector<63>>>(); wt_use<wt_int<>>(); wt_use<wm_int<>>(); wt_use<wt_int<rrr_vector<63>>>(); wt_use<wt_rlmn<>>(); wt_use<wt_gmr<>>(); wt_use<wt_gmr_rs<>>(); wt_use<wt_ap<>>(); wt_use<wt_huff_int<>>(); wt_use<wt_hutu_int<>>(); wt_use<wt_blcd_int<>>(); wt_use<wt_gmr<enc_vector<>, inv_multi_perm_support<32, enc_vector<>>>>();
    wt_use<wt_rlmn<sd_vector<>, rank_support_sd<>, select_support_sd<>, wt_huff<>>>();
    wt_use_sym<wt_huff<>>(); wt_use_sym<wt_int<>>(); wt_use_sym<wt_blcd<>>();
    wt_use_lex<wt_hutu<>>(); wt_use_lex<wt_blcd<>>(); wt_use_lex<wt_int<>>(); wt_use2d<wt_int<>>(); wm_int<>().range_search_2d(0, 1, 0, 1); cit(wm_int<>()); cit(wt_int<>()); cit(wt_huff<>()); cit(wt_rlmn<>());
    wt_node<wt_huff<>>(); wt_node<wt_int<>>(); wt_node<wm_int<>>(); wt_node<wt_blcd<>>();
    k2_treap<2, rrr_vector<63>> k; k2_treap_ns::point_type p{}; for (auto it = top_k(k, p, p); it; ++it) (void)*it; for (auto it = range_3d(k, p, p, k2_treap_ns::range_type{}); it; ++it) (void)*it; count(k, p, p); construct(k, "f"); construct_im(k, std::vector<std::array<uint64_t, 3>>()); io_use2<k2_treap<2, rrr_vector<63>>>();
    int_vector_buffer<> ib; std::vector<std::tuple<uint64_t, uint64_t>> e; k2_tree<2> t(e, 10), t2(std::vector<std::vector<int>>()); t.adj(0, 1); t.neigh(0); t.reverse_neigh(0); io_use2<k2_tree<2>>();
}
void more(string f) {
    csa_use<csa_wt<wt_huff<>,32,32,sa_bwt_sampling<>>>(f); io_use2<csa_wt<wt_huff<>,32,32,sa_bwt_sampling<>>>();
    cst_sct3<> c; Hk(c, 2); H0(c.root(), c); unsigned char* t = nullptr; extract(c, c.root(), t); bit_vector bp, bl; IV iv; bool b = true;
    construct_supercartesian_tree_bp(iv, bp, b); int_vector_buffer<> ib; construct_supercartesian_tree_bp_succinct(ib, b); int_vector_buffer<8> ib8; construct_supercartesian_tree_bp_succinct(ib8, b);
    uint64_t mask; util::rnd_positions<IV>(20, mask, 7, 3); k2_tree_ns::build_template_vector<bit_vector>(bp, bl, bp, bl);
    k2_treap<2, rrr_vector<63>> k; k2_treap_ns::point_type p{}; auto it = top_k(k, p, p); it++; auto ir = range_3d(k, p, p, k2_treap_ns::range_type{}); ir++;
    int_vector_mapper<0> m("f"); (void)(m == iv); (void)(m == m);
}
