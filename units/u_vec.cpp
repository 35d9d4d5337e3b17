#include "all.hpp"
// bit vectors, int vectors, coders, supports
template class sdsl::int_vector<0>;
template class sdsl::int_vector<1>;
template class sdsl::int_vector<8>;
template class sdsl::int_vector<16>;
template class sdsl::int_vector<32>;
template class sdsl::int_vector<64>;
template class sdsl::int_vector_buffer<0>;
template class sdsl::int_vector_buffer<8>;
template class sdsl::int_vector_mapper<0>;
template class sdsl::int_vector_mapper<8>;
template class sdsl::temp_file_buffer<0>;
template class sdsl::write_out_buffer<0>;
template class sdsl::bit_vector_il<512>;
template class sdsl::rank_support_il<1,512>;
template class sdsl::rank_support_il<0,512>;
template class sdsl::select_support_il<1,512>;
template class sdsl::select_support_il<0,512>;
template class sdsl::rrr_vector<63>;
template class sdsl::rank_support_rrr<1,63>;
template class sdsl::rank_support_rrr<0,63>;
template class sdsl::select_support_rrr<1,63>;
template class sdsl::select_support_rrr<0,63>;
template class sdsl::rrr_vector<15>;
template class sdsl::rank_support_rrr<1,15>;
template class sdsl::rank_support_rrr<0,15>;
template class sdsl::select_support_rrr<1,15>;
template class sdsl::select_support_rrr<0,15>;
template class sdsl::rrr_vector<127>;
template class sdsl::sd_vector<>;
template class sdsl::rank_support_sd<1>;
template class sdsl::rank_support_sd<0>;
template class sdsl::select_support_sd<1>;
template class sdsl::select_support_sd<0>;
template class sdsl::select_0_support_sd<sdsl::sd_vector<>>;
template class sdsl::hyb_vector<>;
template class sdsl::rank_support_hyb<1>;
template class sdsl::rank_support_hyb<0>;
template class sdsl::select_support_hyb<1>;
template class sdsl::rank_support_v<1,1>;
template class sdsl::rank_support_v<0,1>;
template class sdsl::rank_support_v5<1,1>;
template class sdsl::rank_support_scan<1,1>;
template class sdsl::select_support_mcl<1,1>;
template class sdsl::select_support_mcl<0,1>;
template class sdsl::select_support_scan<1,1>;
template class sdsl::enc_vector<>;
template class sdsl::vlc_vector<>;
template class sdsl::dac_vector<>;
template class sdsl::dac_vector_dp<>;
template class sdsl::inv_perm_support<>;
template class sdsl::nearest_neighbour_dictionary<32>;
template class sdsl::louds_tree<>;
template class sdsl::random_access_const_iterator<sdsl::int_vector<0>>;
template class sdsl::int_alphabet<>;
template class sdsl::succinct_byte_alphabet<>;
template class sdsl::inv_multi_perm_support<32>;
template class sdsl::int_vector_mapper<0, std::ios_base::in>;
template class sdsl::sd_vector<sdsl::rrr_vector<63>>;
