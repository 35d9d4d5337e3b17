#include "all.hpp"
using namespace sdsl;
template class sdsl::wt_int<>;
template class sdsl::wm_int<>;
template class sdsl::wt_pc<huff_shape, bit_vector, bit_vector::rank_1_type, bit_vector::select_1_type, bit_vector::select_0_type, byte_tree<>>;
template class sdsl::wt_pc<huff_shape, rrr_vector<63>, rrr_vector<63>::rank_1_type, rrr_vector<63>::select_1_type, rrr_vector<63>::select_0_type, int_tree<>>;
template class sdsl::wt_pc<hutu_shape, bit_vector, bit_vector::rank_1_type, bit_vector::select_1_type, bit_vector::select_0_type, byte_tree<>>;
template class sdsl::wt_pc<balanced_shape, bit_vector, bit_vector::rank_1_type, bit_vector::select_1_type, bit_vector::select_0_type, byte_tree<>>;
template class sdsl::wt_rlmn<>;
template class sdsl::wt_gmr<>;
template class sdsl::wt_gmr_rs<>;
template class sdsl::wt_ap<>;
template class sdsl::k2_treap<2>;
template class sdsl::k2_tree<2>;
template class sdsl::lcp_bitcompressed<>;
template class sdsl::lcp_byte<>;
template class sdsl::lcp_wt<>;
template class sdsl::lcp_vlc<>;
template class sdsl::_lcp_support_sada<>;
template class sdsl::rmq_succinct_sada<true>;
template class sdsl::rmq_succinct_sct<true>;
template class sdsl::rmq_support_sparse_table<int_vector<>,true>;
template class sdsl::rmq_support_sparse_table<int_vector<>,false>;
template class sdsl::bp_support_sada<>;
template class sdsl::bp_support_g<>;
template class sdsl::bp_support_gg<>;
