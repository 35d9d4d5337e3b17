H = '#include <sdsl/suffix_arrays.hpp>\n#include <sdsl/suffix_trees.hpp>\n#include <sdsl/bit_vectors.hpp>\n#include <sdsl/wavelet_trees.hpp>\n#include <iostream>\n#include <memory>\nusing namespace sdsl; using namespace std;\n'
BUGS = [
dict(id='b04-csa-sada-copy', property='P04', flags='-fsanitize=address', needs='isa queries on an assigned copy of a csa_sada after the source of the assignment has been destroyed',
 breaks='the inverse suffix array samples of a copied csa_sada keep pointing to the suffix array samples of the original',
 edits={'include/sdsl/csa_sada.hpp': [("            m_isa_sample.set_vector(&m_sa_sample);\n            m_alphabet   = csa.m_alphabet;\n        };", "            m_alphabet   = csa.m_alphabet;\n        };")]},
 demo=H+'''typedef csa_sada<enc_vector<>, 4, 4, text_order_sa_sampling<>, text_order_isa_sampling_support<>> C;
int main(){ unique_ptr<C> a(new C); construct_im(*a, string("abracadabra mississippi abracadabra"), 1); C c; c = *a; vector<uint64_t> x; for(size_t i=0;i<c.size();++i) x.push_back(a->isa[i]);
 a.reset(); for(size_t i=0;i<c.size();++i) if(c.isa[i]!=x[i]) return 1; return 0; }'''),
dict(id='b04-sct3-swap-rank', property='P04', flags='-fsanitize=address', needs='swap of two cst_sct3 followed by the destruction of one of them',
 breaks='after swap the rank support of the first-child bit vector answers from the bit vector of the other tree',
 edits={'include/sdsl/cst_sct3.hpp': [("                util::swap_support(m_first_child_rank, cst.m_first_child_rank, &m_first_child, &(cst.m_first_child));", "                m_first_child_rank.swap(cst.m_first_child_rank);")]},
 demo=H+'''typedef cst_sct3<> C;
int main(){ unique_ptr<C> a(new C), b(new C); construct_im(*a, string("abracadabra mississippi abracadabra"), 1); construct_im(*b, string("xx"), 1); a->swap(*b); a.reset();
 size_t d=0; for(auto it=b->begin(); it!=b->end(); ++it) d+=b->degree(*it)+b->id(*it); return d==0; }'''),
dict(id='b04-sd-move', property='P04', flags='-fsanitize=address', needs='select_0 on an sd_vector that was move assigned while it was not empty, after the moved-from object is gone',
 breaks='move assignment re-binds the select support for ones only if the target was empty before',
 edits={'include/sdsl/sd_vector.hpp': [("""                m_size = v.m_size;
                m_wl   = v.m_wl;
                m_low  = std::move(v.m_low);
                m_high = std::move(v.m_high);
                m_high_1_select = std::move(v.m_high_1_select);
                m_high_1_select.set_vector(&m_high);
""", """                bool was_empty = m_size == 0;
                m_size = v.m_size;
                m_wl   = v.m_wl;
                m_low  = std::move(v.m_low);
                m_high = std::move(v.m_high);
                m_high_1_select = std::move(v.m_high_1_select);
                if (was_empty)
                    m_high_1_select.set_vector(&m_high);
""")]},
 demo=H+'''int main(){ bit_vector b(20000,0); for(size_t i=0;i<b.size();i+=7) b[i]=1; unique_ptr<sd_vector<>> a(new sd_vector<>(b)); bit_vector b2(300,1); sd_vector<> c(b2); c = std::move(*a); a.reset();
 sd_vector<>::select_1_type s(&c); for(size_t i=1;i<1000;++i) if(s(i)!=(i-1)*7) return 1; return 0; }'''),
]
