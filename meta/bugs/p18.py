H = '#include <sdsl/bit_vectors.hpp>\n#include <sdsl/suffix_trees.hpp>\n#include <sdsl/bp_support.hpp>\n#include <sdsl/rmq_support.hpp>\n#include <iostream>\nusing namespace sdsl; using namespace std;\n'
BUGS = [
dict(id='b18-sparse-const', property='P18', needs='size() of a constant sparse table',
 breaks='size of rmq_support_sparse_table can no longer be asked of a constant object',
 edits={'include/sdsl/rmq_support_sparse_table.hpp': [("        size_type size()const", "        size_type size()")]},
 demo=H+'''size_t f(const rmq_support_sparse_table<>& r) { return r.size(); }
int main(){ int_vector<> v={3,1,2}; rmq_support_sparse_table<> r(&v); return f(r)!=3; }'''),
dict(id='b18-louds-swap', property='P18', needs='swap of two louds trees',
 breaks='swap of louds_tree calls itself endlessly',
 edits={'include/sdsl/louds_tree.hpp': [("            m_bv.swap(tree.m_bv);", "            if (this != &tree) {\n                tree.swap(*this);\n            } else {\n                swap(tree);\n            }")]},
 demo='#include <sdsl/louds_tree.hpp>\n#include <sdsl/suffix_trees.hpp>\n'+H+"""int main(){ cst_sct3<> c; construct_im(c, string("abracadabra"), 1); typedef cst_bfs_iterator<cst_sct3<>> I; I b(&c, c.root()), e(&c, c.root(), true, true); louds_tree<> x(c, b, e), y(x); x.swap(y); return 0; }"""),
]
