"""Compile witnesses: pairs of programs that differ in one template argument or one operation.  W[key] = (header, what, [bad...], [good...])"""
W = []
def w(key, header, what, bad, good): W.append((key, header, what, bad if isinstance(bad, list) else [bad], good if isinstance(good, list) else [good]))
def inst(t): return 'void f() { %s x; (void)x; }' % t
def size(t): return 'static_assert(sizeof(%s) > 0, "");' % t

# ---- template parameters -------------------------------------------------------------------------------------------
w('int_vector/width', 'int_vector.hpp', 'width above 64 bits', [inst('int_vector<65>'), inst('int_vector<255>')], [inst('int_vector<64>'), inst('int_vector<0>'), inst('int_vector<63>'), inst('int_vector<1>')])
w('int_vector_buffer/width', 'int_vector_buffer.hpp', 'width above 64 bits', [inst('int_vector_buffer<65>'), inst('int_vector_buffer<128>')], [inst('int_vector_buffer<64>'), inst('int_vector_buffer<0>')])
w('int_vector_mapper/width', 'int_vector_mapper.hpp', 'width above 64 bits', [size('int_vector_mapper<65>'), size('int_vector_mapper<200>')], [size('int_vector_mapper<64>'), size('int_vector_mapper<0>')])
w('bit_vector_il/block', 'bit_vector_il.hpp', 'block size below 64 or no power of two', [inst('bit_vector_il<32>'), inst('bit_vector_il<1>'), inst('bit_vector_il<0>'), inst('bit_vector_il<96>'), inst('bit_vector_il<192>'), inst('bit_vector_il<513>')], [inst('bit_vector_il<64>'), inst('bit_vector_il<128>'), inst('bit_vector_il<4096>')])
for c, h, g in (('rank_support_il<%s, 512>', 'bit_vector_il.hpp', '01'), ('select_support_il<%s, 512>', 'bit_vector_il.hpp', '01'), ('rank_support_rrr<%s, 63, int_vector<>, 32>', 'rrr_vector.hpp', '01'),
    ('select_support_rrr<%s, 63, int_vector<>, 32>', 'rrr_vector.hpp', '01'), ('rank_support_rrr<%s, 15, int_vector<>, 32>', 'rrr_vector_15.hpp', '01'), ('select_support_rrr<%s, 15, int_vector<>, 32>', 'rrr_vector_15.hpp', '01'),
    ('rank_support_sd<%s>', 'sd_vector.hpp', '01')):
    w(c.split('<')[0] + '/pattern' + ('15' if '15' in h else ''), h, 'bit pattern other than 0 or 1', [inst(c % 2), inst(c % 10), inst(c % 255)], [inst(c % 0), inst(c % 1)])
for c, h, ok in (('rank_support_scan', 'rank_support_scan.hpp', ((0, 1), (1, 1), (10, 2), (1, 2), (11, 2))), ('rank_support_v', 'rank_support_v.hpp', ((0, 1), (1, 1), (10, 2), (1, 2), (11, 2))), ('rank_support_v5', 'rank_support_v5.hpp', ((0, 1), (1, 1), (10, 2), (1, 2), (11, 2))),
    ('select_support_mcl', 'select_support_mcl.hpp', ((0, 1), (1, 1), (10, 2), (1, 2), (11, 2))), ('select_support_scan', 'select_support_scan.hpp', ((0, 1), (1, 1), (10, 2), (1, 2)))):
    w(c + '/pattern', h, 'unknown bit pattern', [inst('%s<2, 1>' % c), inst('%s<9, 2>' % c), inst('%s<100, 2>' % c)], [inst('%s<%d, %d>' % (c, a, b)) for a, b in ok])
    w(c + '/pattern-length', h, 'pattern length other than 1 or 2', [inst('%s<1, 0>' % c), inst('%s<1, 3>' % c), inst('%s<10, 4>' % c)], [inst('%s<1, 1>' % c)])
w('bp_support_g/block', 'bp_support_g.hpp', 'block size of at most 2', [inst('bp_support_g<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, range_maximum_support_sparse_table<>, %d>' % x) for x in (0, 1, 2)], inst('bp_support_g<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, range_maximum_support_sparse_table<>, 3>'))
w('bp_support_gg/block', 'bp_support_gg.hpp', 'block size of at most 2', [inst('bp_support_gg<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, %d>' % x) for x in (0, 1, 2)], inst('bp_support_gg<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, 3>'))
w('bp_support_sada/block', 'bp_support_sada.hpp', 'small block size 0', inst('bp_support_sada<0>'), inst('bp_support_sada<64>'))
w('coder_comma/width', 'coder_comma.hpp', 'width outside [2,32]', [inst('coder::comma<1>'), inst('coder::comma<33>'), inst('coder::comma<0>'), inst('coder::comma<64>')], [inst('coder::comma<2>'), inst('coder::comma<32>')])
for fn, h in (('construct_bwt', 'construct_bwt.hpp'), ('construct_lcp_kasai', 'construct_lcp.hpp'), ('construct_lcp_PHI', 'construct_lcp.hpp'), ('construct_sa', 'construct_sa.hpp')):
    w(fn + '/width', h, 'alphabet width other than 0 and 8', ['void f(cache_config& c) { %s<%d>(c); }' % (fn, x) for x in (16, 1, 64)], ['void f(cache_config& c) { %s<8>(c); %s<0>(c); }' % (fn, fn)])
WT = ('wt_huff<>', '32', '64', 'sa_order_sa_sampling<>', 'isa_sampling<>', 'byte_alphabet'); SD = ('enc_vector<>', '32', '64', 'sa_order_sa_sampling<>', 'isa_sampling<>', 'byte_alphabet')
def repl(t, i, x): t = list(t); t[i] = x; return ', '.join(t)
for c, base, what0, bad0 in (('csa_wt', WT, 'first argument is no wavelet tree', ('enc_vector<>', 'bit_vector', 'int_vector<>')), ('csa_sada', SD, 'first argument is no enc_vector', ('wt_huff<>', 'vlc_vector<>', 'int_vector<>'))):
    h = c + '.hpp'; good = inst('%s<%s>' % (c, ', '.join(base)))
    w(c + '/first', h, what0, [inst('%s<%s>' % (c, repl(base, 0, b))) for b in bad0], good)
    w(c + '/dens', h, 'suffix array sample density 0', inst('%s<%s>' % (c, repl(base, 1, '0'))), inst('%s<%s>' % (c, repl(base, 1, '1'))))
    w(c + '/inv_dens', h, 'inverse suffix array sample density 0', inst('%s<%s>' % (c, repl(base, 2, '0'))), inst('%s<%s>' % (c, repl(base, 2, '1'))))
    w(c + '/sa_sampling', h, 'fourth argument is no suffix array sampling', [inst('%s<%s>' % (c, repl(base, 3, x))) for x in ('isa_sampling<>', 'byte_alphabet', 'int_vector<>')], [inst('%s<%s>' % (c, repl(base, 3, x))) for x in ('text_order_sa_sampling<>',)])
    w(c + '/isa_sampling', h, 'fifth argument is no inverse suffix array sampling', [inst('%s<%s>' % (c, repl(base, 4, x))) for x in ('sa_order_sa_sampling<>', 'byte_alphabet', 'int_vector<>')], good)
    w(c + '/alphabet', h, 'sixth argument is no alphabet strategy', [inst('%s<%s>' % (c, repl(base, 5, x))) for x in ('isa_sampling<>', 'int_vector<>', 'wt_huff<>')], [inst('%s<%s>' % (c, repl(base, 5, x))) for x in ('succinct_byte_alphabet<>', 'byte_alphabet')])
    for t in ('text_order', 'fuzzy'):
        x = lambda d, i: inst('%s<%s, %s, %s, %s_sa_sampling<>, %s_isa_sampling_support<>>' % (c, base[0], d, i, t, t))
        w(c + '/dens-' + t, 'csa_sampling_strategy.hpp', '%s_isa_sampling_support with different densities' % t, [x('32', '64'), x('64', '32')], x('32', '32'))
for c in ('cst_sct3', 'cst_sada'):
    w(c + '/csa', c + '.hpp', 'first argument is no compressed suffix array', [inst('%s<wt_huff<>>' % c), inst('%s<lcp_dac<>>' % c)], inst('%s<csa_wt<>>' % c))
w('dac_vector_dp/levels', 'dac_vector.hpp', 'no levels', [inst('dac_vector_dp<bit_vector, 0>'), inst('dac_vector_dp<bit_vector, -1>')], inst('dac_vector_dp<bit_vector, 1>'))
w('dac_vector/block', 'dac_vector.hpp', 'block size outside [1,63]', [inst('dac_vector<0>'), inst('dac_vector<64>'), inst('dac_vector<100>')], [inst('dac_vector<1>'), inst('dac_vector<63>')])
for c in ('enc_vector', 'vlc_vector'):
    w(c + '/dens', c + '.hpp', 'sample density below 2', [inst('%s<coder::elias_delta, 1>' % c), inst('%s<coder::elias_delta, 0>' % c)], inst('%s<coder::elias_delta, 2>' % c))
w('int_vector/flip', 'int_vector.hpp', 'flip of a vector that is no bit_vector', ['void f(int_vector<%d>& v) { v.flip(); }' % x for x in (0, 8, 64)], 'void f(bit_vector& v) { v.flip(); }')
w('k2_treap/k', 'k2_treap.hpp', 'arity outside [2,16]', [inst('k2_treap<%d, rrr_vector<63>>' % x) for x in (0, 1, 17, 32)], [inst('k2_treap<%d, rrr_vector<63>>' % x) for x in (2, 16)])
w('nearest_neighbour_dictionary/dens', 'nearest_neighbour_dictionary.hpp', 'sample density 0', inst('nearest_neighbour_dictionary<0>'), inst('nearest_neighbour_dictionary<1>'))
w('rrr_vector/block', 'rrr_vector.hpp', 'block size outside [3,256]', [inst('rrr_vector<%d>' % x) for x in (0, 1, 2, 257, 512)], [inst('rrr_vector<%d>' % x) for x in (3, 15, 256)])
w('rrr_vector/k', 'rrr_vector.hpp', 'superblock of less than two blocks', [inst('rrr_vector<63, int_vector<>, %d>' % x) for x in (0, 1)], inst('rrr_vector<63, int_vector<>, 2>'))
w('wt_ap/args', 'wt_ap.hpp', 'arguments that are no wavelet trees', [inst('wt_ap<int_vector<>, wm_int<>>'), inst('wt_ap<wt_huff<>, int_vector<>>')], inst('wt_ap<wt_huff<>, wm_int<>>'))
w('intersect/expand', 'wt_algorithm.hpp', 'intersect on a structure without expand', ['void f(wt_gmr<>& w) { intersect(w, {{0, 1}}, 0); }', 'void f(wt_ap<>& w) { intersect(w, {{0, 1}}, 0); }'], 'void f(wt_int<>& w) { intersect(w, {{0, 1}}, 0); }')
w('quantile_freq/lex', 'wt_algorithm.hpp', 'quantile_freq on a structure that is not in lexicographic order', ['void f(wt_huff<>& w) { quantile_freq(w, 0, 1, 0); }', 'void f(wt_gmr<>& w) { quantile_freq(w, 0, 1, 0); }'], ['void f(wt_int<>& w) { quantile_freq(w, 0, 1, 0); }', 'void f(wt_blcd<>& w) { quantile_freq(w, 0, 1, 0); }'])
for fn in ('symbol_lte', 'symbol_gte'):
    w(fn + '/lex', 'wt_algorithm.hpp', '%s on a structure that is not in lexicographic order' % fn, ['void f(wt_huff<>& w) { %s(w, 1); }' % fn, 'void f(wt_rlmn<>& w) { %s(w, 1); }' % fn], ['void f(wt_int<>& w) { %s(w, 1); }' % fn, 'void f(wt_blcd<>& w) { %s(w, 1); }' % fn, 'void f(wt_hutu<>& w) { %s(w, 1); }' % fn])
w('restricted_unique_range_values/lex', 'wt_algorithm.hpp', 'range restricted values of a structure that is not in lexicographic order', 'void f(wt_huff<>& w) { restricted_unique_range_values(w, 0, 1, 0, 1); }', 'void f(wt_int<>& w) { restricted_unique_range_values(w, 0, 1, 0, 1); }')
for fn in ('lex_count(0, 1, 0)', 'lex_smaller_count(0, 0)'):
    w('wt_pc/' + fn.split('(')[0], 'wt_pc.hpp', '%s on a tree shape that is not in lexicographic order' % fn.split('(')[0], 'void f(wt_huff<>& w) { w.%s; }' % fn, ['void f(wt_hutu<>& w) { w.%s; }' % fn, 'void f(wt_blcd<>& w) { w.%s; }' % fn])
w('bidirectional/lex', 'suffix_array_algorithm.hpp', 'bidirectional search on a wavelet tree that is not in lexicographic order',
  'void f(csa_wt<wt_huff<>>& c) { typename csa_wt<wt_huff<>>::size_type x = 0; bidirectional_search(c, 0, 0, 0, 0, 0, x, x, x, x); }', 'void f(csa_wt<wt_blcd<>>& c) { typename csa_wt<wt_blcd<>>::size_type x = 0; bidirectional_search(c, 0, 0, 0, 0, 0, x, x, x, x); }')

for c, n in (('wt_huff<>', 'wt_huff'), ('wm_int<>', 'wm_int'), ('wt_rlmn<>', 'wt_rlmn'), ('wt_gmr<>', 'wt_gmr'), ('wt_gmr_rs<>', 'wt_gmr_rs'), ('wt_ap<>', 'wt_ap'), ('wt_huff_int<>', 'wt_huff_int')):
    for fn, args in (('quantile_freq', '0, 1, 0'), ('symbol_lte', '1'), ('symbol_gte', '1'), ('restricted_unique_range_values', '0, 1, 0, 1')):
        w('%s/%s' % (fn, n), 'wt_algorithm.hpp', '%s on %s, which is not in lexicographic order' % (fn, n), 'void f(%s& w) { %s(w, %s); }' % (c, fn, args), 'void f(wt_int<>& w) { %s(w, %s); }' % (fn, args))
for fn in ('backward', 'forward'):
    b = 'void f(csa_wt<%%s>& c, csa_wt<%%s>& d, std::string s) { size_t x = 0; bidirectional_search_%s(c, d, 0, 0, 0, 0, s.begin(), s.end(), x, x, x, x); }' % fn
    w('bidirectional_%s/lex' % fn, 'suffix_array_algorithm.hpp', 'bidirectional search on a wavelet tree that is not in lexicographic order', b % ('wt_huff<>', 'wt_huff<>'), [b % (t, t) for t in ('wt_blcd<>', 'wt_hutu<>')])

# ---- read only views and immutable structures ----------------------------------------------------------------------
RO = 'int_vector_mapper<%d, std::ios_base::in>'; RW = 'int_vector_mapper<%d>'
for nm, e, widths in (('width', 'm.width(3)', (0,)), ('bit_resize', 'm.bit_resize(64)', (0, 8)), ('resize', 'm.resize(3)', (0, 8)), ('begin', '*m.begin() = 3', (0, 8)), ('end', '*(m.end() - 1) = 3', (0, 8)), ('index', 'm[0] = 3', (0, 8)),
    ('data', '*m.data() = 3', (0, 8)), ('set_int', 'm.set_int(0, 3, 4)', (0, 8)), ('push_back', 'm.push_back(3)', (0, 8)), ('flip', 'm.flip()', (1,))):
    w('int_vector_mapper/ro-' + nm, 'int_vector_mapper.hpp', 'writing through a mapping that was opened read only (%s)' % e, ['void f(%s& m) { %s; }' % (RO % x, e) for x in widths], ['void f(%s& m) { %s; }' % (RW % x, e) for x in widths])
w('int_vector_mapper/ro-const', 'int_vector_mapper.hpp', 'writing through a constant mapping', ['void f(const %s& m) { %s; }' % (t % 8, e) for t in (RO, RW) for e in ('m[0] = 3', '*m.begin() = 3', 'm.resize(1)', 'm.push_back(2)', 'm.set_int(0, 1, 3)')], ['void f(const %s& m) { uint64_t x = m[0] + *m.begin(); (void)x; }' % (t % 8) for t in (RO, RW)])
for t in ('int_vector<>', 'int_vector<8>', 'bit_vector', 'int_vector<64>'):
    w('const ' + t, 'int_vector.hpp', 'writing through a constant vector', ['void f(const %s& v) { %s; }' % (t, e) for e in ('v[0] = 1', '*v.begin() = 1', 'v.set_int(0, 1, 1)', 'v.resize(3)', 'v.bit_resize(3)')] + (['void f(const %s& v) { *v.data() = 1; }' % t] if True else []), 'void f(%s& v) { v[0] = 1; *v.begin() = 1; v.set_int(0, 1, 1); v.resize(3); *v.data() = 1; }' % t)
w('reference/const', 'int_vector.hpp', 'assigning through a constant iterator', ['void f(%s& v) { %s::const_iterator i = v.begin(); *i = 1; }' % (t, t) for t in ('int_vector<>', 'bit_vector', 'int_vector<32>')], ['void f(%s& v) { %s::iterator i = v.begin(); *i = 1; %s::const_iterator j = v.begin(); uint64_t x = *j; (void)x; }' % (t, t, t) for t in ('int_vector<>', 'bit_vector', 'int_vector<32>')])
for t, h in (('enc_vector<>', 'enc_vector.hpp'), ('vlc_vector<>', 'vlc_vector.hpp'), ('dac_vector<>', 'dac_vector.hpp'), ('dac_vector_dp<>', 'dac_vector.hpp'), ('rrr_vector<>', 'rrr_vector.hpp'), ('rrr_vector<15>', 'rrr_vector_15.hpp'), ('sd_vector<>', 'sd_vector.hpp'), ('bit_vector_il<>', 'bit_vector_il.hpp'), ('hyb_vector<>', 'hyb_vector.hpp'),
    ('wt_huff<>', 'wt_pc.hpp'), ('wt_int<>', 'wt_int.hpp'), ('wt_rlmn<>', 'wt_rlmn.hpp'), ('wt_blcd<>', 'wt_blcd.hpp'), ('lcp_bitcompressed<>', 'lcp_bitcompressed.hpp'), ('lcp_wt<>', 'lcp_wt.hpp'),  ('wm_int<>', 'wm_int.hpp'), ('csa_wt<>', 'csa_wt.hpp'), ('csa_sada<>', 'csa_sada.hpp'), ('csa_bitcompressed<>', 'csa_bitcompressed.hpp'), ('lcp_dac<>', 'lcp_dac.hpp'), ('lcp_vlc<>', 'lcp_vlc.hpp'), ('lcp_byte<>', 'lcp_byte.hpp')):
    if '_vector' not in t: w('immutable end ' + t, h, 'assigning through the end iterator of an immutable structure', 'void f(%s& v) { *(v.end() - 1) = 1; }' % t, 'void f(const %s& v) { uint64_t x = *(v.end() - 1); (void)x; }' % t)
    w('immutable ' + t, h, 'assigning to an element of an immutable structure', ['void f(%s& v) { v[0] = 1; }' % t, 'void f(%s& v) { *v.begin() = 1; }' % t], 'void f(const %s& v) { uint64_t x = v[0] + *v.begin(); (void)x; }' % t)

for t, h in (('wt_gmr<>', 'wt_gmr.hpp'), ('wt_ap<>', 'wt_ap.hpp')):
    w('immutable ' + t, h, 'assigning to an element of an immutable structure', 'void f(%s& v) { v[0] = 1; }' % t, 'void f(const %s& v) { uint64_t x = v[0]; (void)x; }' % t)

# ---- ownership -----------------------------------------------------------------------------------------------------
for t, h in (('int_vector_buffer<>', 'int_vector_buffer.hpp'), ('int_vector_buffer<8>', 'int_vector_buffer.hpp'), ('int_vector_mapper<>', 'int_vector_mapper.hpp'), ('int_vector_mapper<8, std::ios_base::in>', 'int_vector_mapper.hpp')):
    w('copy ' + t, h, 'copying the owner of an open file', ['void f(%s& a) { %s b(a); }' % (t, t), 'void f(%s& a, %s& b) { a = b; }' % (t, t)], 'void f(%s& a, %s& b) { %s c(std::move(a)); b = std::move(c); }' % (t, t, t))
w('create bits', 'bits.hpp', 'creating an object of the static class bits', inst('bits'), 'void f() { bits::cnt(1); }')
w('default int_vector_mapper', 'int_vector_mapper.hpp', 'mapping without a file', inst('int_vector_mapper<>'), 'void f() { int_vector_mapper<> m("f"); }')
w('copy memory_monitor', 'memory_management.hpp', 'copying the memory monitor', 'void f() { memory_monitor m(*(memory_monitor*)nullptr); }', 'void f() { memory_monitor::start(); }')
