H = '#include <sdsl/suffix_arrays.hpp>\n#include <sdsl/suffix_trees.hpp>\n#include <sdsl/bit_vectors.hpp>\n#include <sdsl/wavelet_trees.hpp>\n#include <sdsl/rmq_support.hpp>\n#include <iostream>\n#include <sstream>\n#include <memory>\nusing namespace sdsl; using namespace std;\n'
BUGS = [
dict(id='b01-mcl-stale-long', property='P01', needs='an object that holds sparse (long) superblocks and is then loaded with the support of a dense vector',
 breaks='load of select_support_mcl keeps the long superblocks of the former content if the loaded support has none',
 edits={'include/sdsl/select_support_mcl.hpp': [("""    delete[] m_longsuperblock;
    m_longsuperblock = nullptr;
    delete[] m_miniblock;
    m_miniblock = nullptr;
}""", """    delete[] m_miniblock;
    m_miniblock = nullptr;
}"""), ("""        delete[] m_longsuperblock;
        m_longsuperblock = nullptr;

        bit_vector mini_or_long;// Helper vector: mini or long block?""", """
        bit_vector mini_or_long;// Helper vector: mini or long block?"""), ("""        if (!mini_or_long.empty())
            m_longsuperblock = new int_vector<0>[sb]; // Create longsuperblock int_vector<0>""", """        if (!mini_or_long.empty()) {
            delete[] m_longsuperblock;
            m_longsuperblock = new int_vector<0>[sb]; // Create longsuperblock int_vector<0>
        }""")]},
 demo=H+'''int main(){ bit_vector a(4096*800,0), b(4096*800,0); for(size_t i=0;i<a.size();i+=400) a[i]=1; for(size_t i=0;i<b.size();++i) b[i]=1;
 select_support_mcl<1> sa(&a), sb(&b), x; stringstream s; sa.serialize(s); sb.serialize(s); x.load(s,&a); x.load(s,&b); for(size_t i=1;i<b.size();i+=13) if(x(i)!=i-1) return 1; return 0; }'''),
dict(id='b01-rmq-table', property='P01', needs='a sparse table with exactly one level (a sequence of two or three elements)',
 breaks='load of rmq_support_sparse_table skips the only level of small tables',
 edits={'include/sdsl/rmq_support_sparse_table.hpp': [("            if (m_k >0) {\n                m_table.resize(m_k);\n                for (size_type i=0; i < m_k; ++i)\n                    m_table[i].load(in);", "            if (m_k >1) {\n                m_table.resize(m_k);\n                for (size_type i=0; i < m_k; ++i)\n                    m_table[i].load(in);")]},
 flags='-fsanitize=address',
 demo=H+'''int main(){ int_vector<> a={5,3,9}; rmq_support_sparse_table<int_vector<>> r(&a); stringstream s; r.serialize(s); uint64_t mark=77; write_member(mark,s); rmq_support_sparse_table<int_vector<>> q; q.load(s,&a); uint64_t m=0; read_member(m,s); return m!=77 || q(0,2)!=1 || q(0,1)!=1; }'''),
dict(id='b01-hyb-empty', property='P01', needs='an empty hyb_vector stored in one stream before other objects',
 breaks='load of an empty hyb_vector leaves its headers unread in the stream',
 edits={'include/sdsl/hyb_vector.hpp': [("            read_member(m_size, in);\n            m_trunk.load(in);", "            read_member(m_size, in);\n            if (m_size == 0) {\n                m_trunk.resize(0);\n                m_sblock_header.resize(0);\n                m_hblock_header.resize(0);\n                return;\n            }\n            m_trunk.load(in);")]},
 demo=H+'''int main(){ hyb_vector<> h; stringstream s; h.serialize(s); uint64_t mark=77; write_member(mark,s); hyb_vector<> g; g.load(s); uint64_t m=0; read_member(m,s); return m!=77; }'''),
dict(id='b01-dac-size', property='P01', needs='a dac_vector_dp that already holds values and is loaded again',
 breaks='load adds the number of loaded elements to the former size',
 edits={'include/sdsl/dac_vector.hpp': [("            m_size = 0;\n            for (auto& v : m_data)", "            for (auto& v : m_data)")]},
 demo=H+'''#include <sdsl/dac_vector.hpp>
int main(){ int_vector<> v(100,5), w(40,900); dac_vector_dp<> a(v), b(w); stringstream s; b.serialize(s); a.load(s); if (a.size()!=40) return 1; for(size_t i=0;i<40;++i) if(a[i]!=900) return 2; return 0; }'''),
]
