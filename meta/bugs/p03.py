H = '#include <sdsl/suffix_arrays.hpp>\n#include <sdsl/suffix_trees.hpp>\n#include <sdsl/bit_vectors.hpp>\n#include <sdsl/wavelet_trees.hpp>\n#include <sdsl/k2_treap.hpp>\n#include <iostream>\nusing namespace sdsl; using namespace std;\n'
BUGS = [
dict(id='b03-sd-select0-copy', property='P03', needs='a select_0 support of an sd_vector that is assigned (not constructed) from another one and then queried', breaks='copy assignment of select_0_support_sd no longer transfers its rank samples',
 edits={'include/sdsl/sd_vector.hpp': [("""                m_pointer = ss.m_pointer;
                m_rank1   = ss.m_rank1;
                set_vector(ss.m_v);
""", """                m_pointer = ss.m_pointer;
                set_vector(ss.m_v);
""")]},
 demo=H+'''int main(){ bit_vector b(20000,0); for(size_t i=0;i<b.size();i+=7) b[i]=1; sd_vector<> s(b); select_0_support_sd<> a(&s), c; c = a;
 for(size_t i=1;i<=17000;i+=13) if(c(i)!=a(i)) return 1; return 0; }'''),
dict(id='b03-wm-move-empty', property='P03', needs='move assignment from an empty wavelet matrix to a non-empty one', breaks='the alphabet size of the previous content survives',
 edits={'include/sdsl/wm_int.hpp': [("""        wm_int& operator=(wm_int&& wt)
        {
            if (this != &wt) {
                m_size          = wt.m_size;
                m_sigma         = wt.m_sigma;
                m_tree          = std::move(wt.m_tree);""", """        wm_int& operator=(wm_int&& wt)
        {
            if (this != &wt or m_size == 0) {
                m_size          = wt.m_size;
                m_sigma         = wt.m_sigma;
                m_tree          = std::move(wt.m_tree);"""),("""                m_sigma         = wt.m_sigma;
                m_tree          = std::move(wt.m_tree);
                m_tree_rank     = std::move(wt.m_tree_rank);
                m_tree_rank.set_vector(&m_tree);
                m_tree_select1  = std::move(wt.m_tree_select1);
                m_tree_select1.set_vector(&m_tree);
                m_tree_select0  = std::move(wt.m_tree_select0);
                m_tree_select0.set_vector(&m_tree);
                m_max_level     = std::move(wt.m_max_level);
                m_zero_cnt      = std::move(wt.m_zero_cnt);""","""                m_tree          = std::move(wt.m_tree);
                m_tree_rank     = std::move(wt.m_tree_rank);
                m_tree_rank.set_vector(&m_tree);
                m_tree_select1  = std::move(wt.m_tree_select1);
                m_tree_select1.set_vector(&m_tree);
                m_tree_select0  = std::move(wt.m_tree_select0);
                m_tree_select0.set_vector(&m_tree);
                m_max_level     = std::move(wt.m_max_level);
                if (m_size) m_sigma = wt.m_sigma;
                m_zero_cnt      = std::move(wt.m_zero_cnt);""")]},
 demo=H+'''int main(){ int_vector<> v(100,3,8); wm_int<> a, e; construct_im(a, v); a = std::move(e); return a.sigma!=0; }'''),
]
