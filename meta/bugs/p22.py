H = ''
def demo(code, good):
    return None
# the demonstration compiles two programs with the current headers: the illegal one has to be rejected
BUGS = [
dict(id='b22-mapper-ro', property='P22', needs='set_int through a mapping that was opened read only (mode in); the write would hit a page mapped PROT_READ',
 breaks='set_int on a read only mapping compiles',
 edits={'include/sdsl/int_vector_mapper.hpp': [('static_assert(t_mode & std::ios_base::out,"int_vector_mapper: must be opened in in+out mode for \'set_int\'");', 'static_assert(t_mode & (std::ios_base::in|std::ios_base::out),"int_vector_mapper: must be opened in in+out mode for \'set_int\'");')]},
 bad='#include <sdsl/int_vector_mapper.hpp>\nvoid f(sdsl::int_vector_mapper<8, std::ios_base::in>& m) { m.set_int(0, 3, 4); }', good='#include <sdsl/int_vector_mapper.hpp>\nvoid f(sdsl::int_vector_mapper<8>& m) { m.set_int(0, 3, 4); }'),
dict(id='b22-isa-dens', property='P22', needs='a csa with text order isa sampling support and two different densities',
 breaks='text_order_isa_sampling_support can be combined with a suffix array sampling of another density',
 edits={'include/sdsl/csa_sampling_strategy.hpp': [('static_assert(t_csa::sa_sample_dens == t_csa::isa_sample_dens,\n                      "ISA sampling requires: sa_sample_dens==isa_sample_dens");', 'static_assert(t_csa::sa_sample_dens <= t_csa::isa_sample_dens,\n                      "ISA sampling requires: sa_sample_dens<=isa_sample_dens");')]},
 bad='#include <sdsl/suffix_arrays.hpp>\nusing namespace sdsl;\nvoid f() { csa_wt<wt_huff<>, 32, 64, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>> d; (void)d; }',
 good='#include <sdsl/suffix_arrays.hpp>\nusing namespace sdsl;\nvoid f() { csa_wt<wt_huff<>, 32, 32, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>> c; (void)c; }'),
]
