H = '''#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <sdsl/vlc_vector.hpp>
#include <sstream>
#include <new>
#include <cstring>
#include <cstdlib>
using namespace sdsl; using namespace std;
template<class T> T* at(int fill){ void* p = aligned_alloc(64, (sizeof(T)+63)/64*64); memset(p, fill, sizeof(T)); return (T*)p; }
template<class T> string bytes(const T& t){ stringstream s; t.serialize(s); return s.str(); }
template<class T> void same(){ T* a = new (at<T>(0)) T(); T* b = new (at<T>(0xAB)) T(); T* c = new (at<T>(0)) T; T* d = new (at<T>(0xAB)) T; if (bytes(*a)!=bytes(*b) || bytes(*c)!=bytes(*d)) exit(1); }
'''
BUGS = [
dict(id='b06-bp-sada-inner', property='P06', needs='a default constructed bp_support_sada (part of an empty suffix tree or rmq structure) that is stored',
 breaks='the number of inner nodes is only initialised by one of the two constructors',
 edits={'include/sdsl/bp_support_sada.hpp': [("size_type m_med_inner_blocks = 0;", "size_type m_med_inner_blocks;")]},
 demo=H+'''int main(){ same<bp_support_sada<>>(); same<cst_sada<>>(); return 0; }'''),
dict(id='b06-wm-sigma', property='P06', needs='a wavelet matrix constructed from an empty sequence: the constructor returns before the alphabet size is set',
 breaks='sigma of an empty wavelet matrix is indeterminate',
 edits={'include/sdsl/wm_int.hpp': [("size_type              m_sigma = 0;  ", "size_type              m_sigma;  ")]},
 demo=H+'''int main(){ typedef wm_int<> W; memory_manager::use_hugepages; int_vector<> v; store_to_file(v, "@x"); size_t r[2];
 for(int k=0;k<2;++k){ int_vector_buffer<> b("@x"); W* w = new (at<W>(k?0xAB:0)) W(b, 0); r[k] = w->sigma; } return r[0]!=0 || r[1]!=0; }'''.replace('memory_manager::use_hugepages; ','')),
dict(id='b06-bfs-end', property='P06', needs='comparing two end iterators of a breadth first traversal',
 breaks='the state of an end iterator of the breadth first traversal is indeterminate',
 edits={'include/sdsl/cst_iterators.hpp': [("""            m_valid = valid;
            if (m_cst != nullptr and !end_it) {
                m_queue.push(node);""", """            if (m_cst != nullptr and !end_it) {
                m_valid = valid;
                m_queue.push(node);""")]},
 demo=H+'''int main(){ typedef cst_sct3<> C; C c; construct_im(c, string("mississippi"), 1); typedef cst_bfs_iterator<C> I;
 I* a = new (at<I>(0)) I(&c, c.root(), true, true); I* b = new (at<I>(1)) I(&c, c.root(), true, true); return *a == *b ? 0 : 1; }'''),
]
