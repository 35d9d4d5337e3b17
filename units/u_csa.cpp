#include "all.hpp"
using namespace sdsl;
template class sdsl::csa_wt<>;
template class sdsl::csa_sada<>;
template class sdsl::csa_bitcompressed<>;
template class sdsl::csa_wt<wt_int<>, 32, 32, text_order_sa_sampling<>, text_order_isa_sampling_support<>, int_alphabet<> >;
template class sdsl::csa_wt<wt_huff<>,32,32,fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>>;
template class sdsl::csa_sada<enc_vector<>, 32, 32, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<> >;
template class sdsl::csa_wt<wt_huff<>, 8, 16, sa_order_sa_sampling<>, isa_sampling<>, succinct_byte_alphabet<>>;
template class sdsl::csa_bitcompressed<int_alphabet<>>;
typedef csa_wt<> CSA;
template class sdsl::cst_sct3<>;
template class sdsl::cst_sada<>;
template class sdsl::cst_fully<>;
template class sdsl::cst_sct3<CSA, lcp_support_tree2<>>;
template class sdsl::cst_sct3<CSA, lcp_support_sada<>>;
template class sdsl::cst_sct3<CSA, lcp_support_tree<>, bp_support_g<>>;
template class sdsl::cst_sada<csa_sada<>, lcp_byte<>>;
template class sdsl::cst_sct3<csa_bitcompressed<int_alphabet<>>, lcp_bitcompressed<>>;
