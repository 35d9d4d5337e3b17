NA.append(dict(id='N01', title='Rank, select and access answers are correct', statement='For every bit vector and wavelet tree representation, access, rank and select return the values defined by the represented sequence, for every position and symbol.',
 over=['inputs'], overtext='every sequence, every argument in the documented domain', why='Tests sample a few sequences.',
 anchors=A(['include/sdsl/rank_support_v.hpp','include/sdsl/select_support_mcl.hpp','include/sdsl/wt_pc.hpp','include/sdsl/rrr_vector.hpp','include/sdsl/sd_vector.hpp','include/sdsl/hyb_vector.hpp']),
 reason='numerical results over runtime bit contents (block counts, offsets, popcounts); no static argument in reach relates the directory contents to the bits'))
NA.append(dict(id='N02', title='Suffix array, BWT, LCP and CST answers are correct', statement='Compressed suffix arrays, LCP arrays and suffix trees built from a text answer count, locate, extract and all tree navigation operations exactly as defined on that text.',
 over=['inputs'], overtext='every text over every supported alphabet', why='Tests use a handful of small texts.',
 anchors=A(['include/sdsl/csa_wt.hpp','include/sdsl/csa_sada.hpp','include/sdsl/cst_sct3.hpp','include/sdsl/cst_sada.hpp','include/sdsl/construct_lcp.hpp','include/sdsl/suffix_arrays.hpp']),
 reason='functional correctness of construction and navigation algorithms over runtime texts; outside what a sound static analysis of this code can bound'))
NA.append(dict(id='N03', title='Range minimum and top-k answers are correct', statement='Range minimum structures and two-dimensional range structures return exactly the points or positions defined by their input.',
 over=['inputs'], overtext='every sequence or point set and every query range', why='Tests sample.',
 anchors=A(['include/sdsl/rmq_succinct_sct.hpp','include/sdsl/k2_treap.hpp','include/sdsl/wt_int.hpp']),
 reason='value-level correctness of search over runtime data'))
NA.append(dict(id='N04', title='Integer codes and compressed vectors reproduce every value', statement='Every self-delimiting code and compressed integer vector decodes to the sequence that was encoded.',
 over=['inputs'], overtext='all value sequences', why='Tests sample.',
 anchors=A(['include/sdsl/coder_elias_delta.hpp','include/sdsl/coder_fibonacci.hpp','include/sdsl/enc_vector.hpp','include/sdsl/vlc_vector.hpp','include/sdsl/dac_vector.hpp']),
 reason='round trip equality of bit level encoders over runtime values is arithmetic, not shape'))
NA.append(dict(id='N05', title='Space and time bounds hold', statement='Structures stay within their documented space overhead and query time bounds for every input.',
 over=['inputs'], overtext='every input', why='Tests do not measure.',
 anchors=A(['include/sdsl/rank_support_v.hpp','include/sdsl/csa_wt.hpp']),
 reason='quantitative bounds over runtime sizes; a static rule would only approximate them'))
