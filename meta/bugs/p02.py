H = '#include <sdsl/suffix_arrays.hpp>\n#include <sdsl/suffix_trees.hpp>\n#include <sdsl/bit_vectors.hpp>\n#include <sdsl/wavelet_trees.hpp>\n#include <sdsl/rmq_support.hpp>\n#include <iostream>\n#include <sstream>\n#include <memory>\nusing namespace sdsl; using namespace std;\n'
BUGS = [
dict(id='b02-mcl-mini', property='P02', needs='a bit vector with more than 4096 set bits',
 breaks='the reported size of a select_support_mcl counts only its last mini block',
 edits={'include/sdsl/select_support_mcl.hpp': [("written_bytes_mini += m_miniblock[i].serialize(out);", "written_bytes_mini = m_miniblock[i].serialize(out);")]},
 demo=H+'''int main(){ bit_vector b(20000,1); select_support_mcl<1,1> s(&b); stringstream o; size_t w=s.serialize(o); return w!=o.str().size(); }'''),
dict(id='b02-rmq-table', property='P02', needs='a sparse table with at least one level',
 breaks='the levels of a sparse table are not counted if it has been written without a structure tree',
 edits={'include/sdsl/rmq_support_sparse_table.hpp': [("            if (m_k > 0) {\n                for (size_type i=0; i < m_k; ++i)\n                    written_bytes += m_table[i].serialize(out);\n            }\n            structure_tree::add_size(child, written_bytes);", "            structure_tree::add_size(child, written_bytes);\n            if (m_k > 0) {\n                for (size_type i=0; i < m_k; ++i)\n                    written_bytes += m_table[i].serialize(out);\n            }")]},
 demo=H+'''int main(){ int_vector<> a={5,3,9,4,7,1,1,2}; rmq_support_sparse_table<int_vector<>> r(&a); stringstream o; unique_ptr<structure_tree_node> n(new structure_tree_node("root","root")); size_t w=r.serialize(o,n.get(),"rmq"); if (w!=o.str().size()) return 2; for (auto& c : n->children) return c.second->size!=w; return 3; }'''),
dict(id='b02-int-vector-header', property='P02', needs='an int_vector with a variable width',
 breaks='the width byte in the header of variable width vectors is not counted',
 edits={'include/sdsl/int_vector.hpp': [("                written_bytes += write_member(int_width, out);", "                write_member(int_width, out);")]},
 demo=H+'''int main(){ int_vector<> v(100,1,7); stringstream o; size_t w=v.serialize(o); return w!=o.str().size(); }'''),
dict(id='b02-dac-beside', property='P02', needs='a structure tree that is written for a dac_vector_dp',
 breaks='the node of the data of a dac_vector_dp is attached beside the node of the vector',
 edits={'include/sdsl/dac_vector.hpp': [("written_bytes += sdsl::serialize(m_data, out, child, \"data\");", "written_bytes += sdsl::serialize(m_data, out, v, \"data\");")]},
 demo=H+'''#include <sdsl/dac_vector.hpp>
int main(){ int_vector<> v(100,5); dac_vector_dp<> a(v); stringstream o; unique_ptr<structure_tree_node> n(new structure_tree_node("root","root")); a.serialize(o,n.get(),"dac"); return n->children.size()!=1; }'''),
]
