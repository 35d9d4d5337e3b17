H = '#include <sdsl/bit_vectors.hpp>\n#include <sdsl/suffix_trees.hpp>\n#include <sdsl/sorted_stack_support.hpp>\n#include <iostream>\n#include <fstream>\n#include <cstdio>\nusing namespace sdsl; using namespace std;\n'
BUGS = [
dict(id='b07-sd-low', property='P07', needs='an sd_vector over a universe of more than 2^33 with very few ones',
 breaks='the low part of the position is cut to 32 bits in sd_vector::operator[]: a set bit is reported as unset',
 edits={'include/sdsl/sd_vector.hpp': [("size_type val_low = i & bits::lo_set[ m_wl ]; // extract the low m_wl = log n -log m bits\n            --sel_high", "uint32_t val_low = i & bits::lo_set[ m_wl ]; // extract the low m_wl = log n -log m bits\n            --sel_high")]},
 demo=H+'''int main(){ vector<uint64_t> v={3,(1ULL<<39)+7,(1ULL<<41)+1}; sd_vector<> s(v.begin(),v.end());
 for(auto x:v) if(!s[x]) return 1; return s[7]!=0; }'''),
dict(id='b07-cnt-acc', property='P07', needs='a vector with at least 2^32 set bits',
 breaks='the number of set bits is counted in 32 bits',
 edits={'include/sdsl/util.hpp': [("    typename t_int_vec::size_type result = bits::cnt(*data);\n    for (typename t_int_vec::size_type i=1; i < (v.capacity()>>6); ++i) {\n        result += bits::cnt(*(++data));", "    uint32_t result = bits::cnt(*data);\n    for (typename t_int_vec::size_type i=1; i < (v.capacity()>>6); ++i) {\n        result += bits::cnt(*(++data));")]},
 demo=H+'''int main(){ bit_vector b((1ULL<<32)+70,1); return util::cnt_one_bits(b)!=(1ULL<<32)+70; }'''),
dict(id='b07-next-pos', property='P07', needs='a run of more than 64 zeros behind position 2^32',
 breaks='util::next_bit computes the word position in 32 bits and shifts it back in 32 bits',
 edits={'include/sdsl/util.hpp': [("    uint64_t pos = idx>>6;\n    uint64_t node = v.data()[pos];\n    node >>= (idx&0x3F);", "    uint32_t pos = idx>>6;\n    uint64_t node = v.data()[pos];\n    node >>= (idx&0x3F);")]},
 demo=H+'''int main(){ bit_vector b((1ULL<<32)+700,0); b[(1ULL<<32)+500]=1; return util::next_bit(b,(1ULL<<32)+3)!=(1ULL<<32)+500; }'''),
dict(id='b07-stack-pop', property='P07', needs='a sorted stack with entries above 2^32',
 breaks='after pop the new top of the stack is computed in 32 bits',
 edits={'include/sdsl/sorted_stack_support.hpp': [("        size_type bn = block_nr(m_top);\n        uint64_t w", "        uint32_t bn = block_nr(m_top);\n        uint64_t w"),("            m_top = bn*63 + bits::hi(w);","            m_top = (bn*63U) + bits::hi(w);")]},
 demo=H+'''int main(){ uint64_t N=(1ULL<<32)+1000; sorted_stack_support s(N); s.push(5); s.push(N-20); s.push(N-18); s.pop(); return s.top()!=N-20; }'''),
dict(id='b07-ivb-seek', property='P07', needs='random access behind the first 4 GiB of a vector on disk',
 breaks='int_vector_buffer positions the file at a 32 bit offset',
 edits={'include/sdsl/int_vector_buffer.hpp': [("                m_ifile.seekg(m_offset+(m_begin*width())/8);", "                const uint32_t block_start = (m_begin*width())/8;\n                m_ifile.seekg(m_offset+block_start);")]},
 demo=H+'''int main(){ const char* f="b07-sparse.tmp"; uint64_t n=(1ULL<<32)+4096; { ofstream o(f,ios::binary); uint64_t bits=n*8; o.write((char*)&bits,8); o.seekp(8+n-3); o.write("abc",3); uint64_t pad=0; o.write((char*)&pad,8-n%8); }
 int r=0; { int_vector_buffer<8> b(f,ios::in,1024); if(b.size()!=n||b[n-3]!='a'||b[n-1]!='c') r=1; } remove(f); return r; }'''),
]
