H = '''#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <thread>
#include <vector>
#include <string>
using namespace sdsl; using namespace std;
template<class F> void both(F f){ thread a(f), b(f); a.join(); b.join(); }
'''
T = '-fsanitize=thread -pthread'
BUGS = [
dict(id='b05-select-static', property='P05', flags=T, needs='two threads that call select on (different) integer wavelet trees at the same time',
 breaks='the buffers for the path from the root to the leaf are shared by all calls of wt_int::select',
 edits={'include/sdsl/wt_int.hpp': [("""            int_vector<64> m_path_off(max_level+1);
            int_vector<64> m_path_rank_off(max_level+1);
            m_path_off[0]""", """            static int_vector<64> m_path_off(64+1);
            static int_vector<64> m_path_rank_off(64+1);
            m_path_off[0]""")]},
 demo=H+'''int main(){ int_vector<> v(3000); for(size_t i=0;i<v.size();++i) v[i]=(i*i)%97; wt_int<> w; construct_im(w, v);
 both([&]{ for(int k=0;k<50;++k) for(size_t i=0;i<v.size();i+=101) { size_t r=w.rank(i,v[i]); if(w.select(r+1,v[i])!=i) abort(); } }); return 0; }'''),
dict(id='b05-lcp-memo', property='P05', flags=T, needs='concurrent lcp queries on the same suffix tree',
 breaks='the sada lcp support remembers the last access in mutable members of the shared object',
 edits={'include/sdsl/lcp_support_sada.hpp': [("""        const csa_type* m_csa = nullptr;
        bit_vector_type m_data;
""", """        const csa_type* m_csa = nullptr;
        mutable size_type m_last_j = 0, m_last_s = 0; // last selected position
        bit_vector_type m_data;
"""), ("""            size_type s = m_select_support.select(j+1);
            return s-(j<<1);""", """            m_last_s = m_select_support.select(j+1);
            m_last_j = j;
            return m_last_s-(m_last_j<<1);""")]},
 demo=H+'''int main(){ cst_sada<csa_sada<>, lcp_support_sada<>> c; construct_im(c, string("mississippi abracadabra mississippi river"), 1);
 vector<size_t> x; for(size_t i=0;i<c.size();++i) x.push_back(c.lcp[i]);
 both([&]{ for(int k=0;k<200;++k) for(size_t i=0;i<c.size();++i) if(c.lcp[i]!=x[i]) abort(); }); return 0; }'''),
dict(id='b05-bit-scratch', property='P05', flags=T, needs='two threads that expand nodes of a wavelet tree / count with the same csa at the same time (two cooperating sites)',
 breaks='backward search keeps its interval in a static of a helper that the queries on constant objects call',
 edits={'include/sdsl/suffix_array_algorithm.hpp': [("""    typename t_csa::size_type c_begin = csa.C[cc];
""", """    static typename t_csa::size_type c_begin;
    c_begin = csa.C[cc];
""")]},
 demo=H+'''int main(){ csa_sada<> c; construct_im(c, string("mississippi abracadabra mississippi river"), 1);
 both([&]{ for(int k=0;k<500;++k) { string p = k%2 ? "ssi" : "abra"; if(count(c, p.begin(), p.end()) != (k%2?4u:2u)) abort(); } }); return 0; }'''),
]
