H = '#include <sdsl/suffix_arrays.hpp>\n#include <sdsl/bp_support.hpp>\n#include <sdsl/int_vector_mapper.hpp>\n#include <string>\n#include <fstream>\n#include <dirent.h>\n#include <cstdlib>\n#include <new>\nusing namespace sdsl; using namespace std;\n'
NEW = '''static long live = 0;
void* operator new(size_t n){ ++live; void* p = malloc(n?n:1); if(!p) throw bad_alloc(); return p; }
void* operator new[](size_t n){ ++live; void* p = malloc(n?n:1); if(!p) throw bad_alloc(); return p; }
void operator delete(void* p) noexcept { if(p) --live; free(p); }
void operator delete[](void* p) noexcept { if(p) --live; free(p); }
void operator delete(void* p, size_t) noexcept { if(p) --live; free(p); }
void operator delete[](void* p, size_t) noexcept { if(p) --live; free(p); }
'''
FDS = '''static int fds(){ int n=0; DIR* d=opendir("/proc/self/fd"); while(readdir(d)) ++n; closedir(d); return n; }
'''
BUGS = [
dict(id='b14-mcl-copy', property='P14', needs='copy assignment of a select support without blocks over one that has blocks',
 breaks='the miniblocks of the overwritten object are never released',
 edits={'include/sdsl/select_support_mcl.hpp': [("""    delete [] m_miniblock;
    m_miniblock = nullptr;
    if (ss.m_miniblock!=nullptr) {
        m_miniblock = new int_vector<0>[sb]; // copy miniblocks
""", """    if (ss.m_miniblock == nullptr) {
        m_miniblock = nullptr;
    } else {
        delete [] m_miniblock;
        m_miniblock = new int_vector<0>[sb]; // copy miniblocks
""")]},
 demo=H+NEW+'''int main(){ bit_vector b(1000,1); long l0 = live;
 { select_support_mcl<> s(&b), e; s = e; } return live == l0 ? 0 : 1; }'''),
dict(id='b14-gg-move', property='P14', needs='move assignment of a default constructed bp_support_gg to one in use',
 breaks='the pioneer structure of the overwritten object is never released',
 edits={'include/sdsl/bp_support_gg.hpp': [("""                delete m_pioneer_bp_support;
                m_pioneer_bp_support = bp_support.m_pioneer_bp_support;
                if (m_pioneer_bp_support) m_pioneer_bp_support->set_vector(&m_pioneer_bp);
                bp_support.m_pioneer_bp_support = nullptr;
""", """                bp_support_type* old_support = m_pioneer_bp_support;
                m_pioneer_bp_support = bp_support.m_pioneer_bp_support;
                bp_support.m_pioneer_bp_support = nullptr;
                if (m_pioneer_bp_support) {
                    m_pioneer_bp_support->set_vector(&m_pioneer_bp);
                    delete old_support;
                }
""")]},
 demo=H+NEW+'''int main(){ bit_vector b(2000,0); for (size_t i=0;i<1000;++i) b[i]=1; long l0;
 { bp_support_gg<> w(&b); (void)w; } l0 = live;
 { bp_support_gg<> s(&b); s = bp_support_gg<>(); } return live == l0 ? 0 : 1; }'''),
dict(id='b14-mapper-fd', property='P14', needs='a resize of a mapped vector that fails, followed by the destruction of the mapper',
 breaks='the descriptor of the file stays open for ever',
 edits={'include/sdsl/int_vector_mapper.hpp': [("""                        }
                    }
                }
            }
            if (m_fd != -1) {
                auto ret = memory_manager::close_file_for_mmap(m_fd);
""", """                        }
                    }
                }
            } else {
                m_fd = -1; // nothing is mapped
            }
            if (m_fd != -1) {
                auto ret = memory_manager::close_file_for_mmap(m_fd);
""")]},
 demo=H+FDS+'''int main(int, char** a){ string f = string(a[1])+"/v"; { int_vector<64> v(100, 7); store_to_file(v, f); }
 int n = fds(); { int_vector_mapper<64, ios_base::out|ios_base::in> m(f); try { m.bit_resize(~0ULL-1000); } catch (exception&) {} }
 return fds() == n ? 0 : 1; }'''),
dict(id='b14-ctor-fd', property='P14', needs='mapping a file that cannot be mapped (an empty one)',
 breaks='the descriptor that the failing constructor has opened stays open',
 edits={'include/sdsl/int_vector_mapper.hpp': [("""            m_wrapper.width(int_width);
            // mmap data
            m_mapped_data = (uint8_t*)memory_manager::mmap_file(m_fd,m_file_size_bytes,t_mode);
            if (m_mapped_data == nullptr) {
                std::string mmap_error
                    = std::string("int_vector_mapper: mmap error. ")
                      + std::string(util::str_from_errno());
                memory_manager::close_file_for_mmap(m_fd);
                throw std::runtime_error(mmap_error);
            }
""", """            m_wrapper.width(int_width);
            if (m_file_size_bytes == 0) {
                throw std::runtime_error("int_vector_mapper: mmap error. The file is empty.");
            }
            // mmap data
            m_mapped_data = (uint8_t*)memory_manager::mmap_file(m_fd,m_file_size_bytes,t_mode);
            if (m_mapped_data == nullptr) {
                std::string mmap_error
                    = std::string("int_vector_mapper: mmap error. ")
                      + std::string(util::str_from_errno());
                memory_manager::close_file_for_mmap(m_fd);
                throw std::runtime_error(mmap_error);
            }
""")]},
 demo=H+FDS+'''int main(int, char** a){ string f = string(a[1])+"/v"; { ofstream o(f); }
 int n = fds(); try { int_vector_mapper<8, ios_base::in> m(f, true); } catch (exception&) {}
 return fds() == n ? 0 : 1; }'''),
dict(id='b14-short-string', property='P14', needs='a stream that ends inside of a stored string',
 breaks='the buffer for the string is never released',
 edits={'lib/io.cpp': [("""    in.read(buf, size);
    std::string temp(buf, size);
    delete [] buf;
""", """    if (!in.read(buf, size)) {
        t.clear();
        return;
    }
    std::string temp(buf, size);
    delete [] buf;
""")]},
 demo=H+'#include <sstream>\n'+NEW+'''int main(){ uint64_t n = 100; string d((char*)&n, 8); d += "abc"; long l0 = live;
 { stringstream ss(d); string t; read_member(t, ss); } return live == l0 ? 0 : 1; }'''),
]
