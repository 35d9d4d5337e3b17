H = '#include <sdsl/suffix_arrays.hpp>\n#include <string>\n#include <fstream>\nusing namespace sdsl; using namespace std;\n'
BUGS = [
dict(id='b11-seek-end', property='P11', needs='a RAM file opened for reading and a seek relative to its end that leaves the file',
 breaks='seeking before the start or behind the end of a RAM file reports success and stays where it was',
 edits={'lib/ram_filebuf.cpp': [("""        if (seekpos(egptr()-eback()+off, which) == pos_type(-1)) {
            return pos_type(-1);
        }""", """        const off_type from_end = egptr()-eback()+off;
        seekpos(from_end, which);""")]},
 demo=H+'''int main(){ string s("abcdef"); store_to_file(s, "@f"); isfstream in("@f", ios::in|ios::binary); if (!in) return 0;
 in.seekg(4, ios::end); return in.fail() ? 0 : 1; }'''),
dict(id='b11-open-keeps', property='P11', needs='a file that cannot be opened and a caller that looks at the result of open',
 breaks='a stream that could not be opened looks open because it keeps its buffer',
 edits={'lib/sfstream.cpp': [("""    } else {
        this->setstate(std::ios_base::failbit);
        delete m_streambuf;
        m_streambuf = nullptr;
    }
    this->rdbuf(m_streambuf);
    return m_streambuf;
}

bool
isfstream::is_open()""", """    }
    this->rdbuf(m_streambuf);
    if (!success) {
        this->setstate(std::ios_base::failbit);
    }
    return m_streambuf;
}

bool
isfstream::is_open()""")]},
 demo=H+'''int main(int, char** a){ isfstream in; if (in.open(string(a[1])+"/none", ios::in|ios::binary)) return 1; return 0; }'''),
dict(id='b11-reopen', property='P11', needs='a stream object that failed once and is opened again',
 breaks='a stream that is opened again successfully keeps the failure of its first life',
 edits={'lib/sfstream.cpp': [("""    if (success) {
        this->clear();
    } else {
        this->setstate(std::ios_base::failbit);
        delete m_streambuf;
        m_streambuf = nullptr;
    }
    this->rdbuf(m_streambuf);
    return m_streambuf;
}

bool
osfstream::is_open()""", """    if (!success) {
        delete m_streambuf;
        m_streambuf = nullptr;
    }
    const std::ios_base::iostate before = this->rdstate() & ~std::ios_base::badbit;
    this->rdbuf(m_streambuf);
    this->setstate(success ? before : std::ios_base::failbit);
    return m_streambuf;
}

bool
osfstream::is_open()""")]},
 demo=H+'''int main(int, char** a){ osfstream o(string(a[1])+"/none/x", ios::out|ios::binary); o.open(string(a[1])+"/y", ios::out|ios::binary);
 o.write("abc", 3); return o.fail() ? 1 : 0; }'''),
dict(id='b11-cache-ignored', property='P11', needs='storing an object into a cache directory that cannot be written',
 breaks='store_to_cache registers a file and reports success although nothing was stored when the object is stored with its type hash',
 edits={'include/sdsl/io.hpp': [("""    if (store_to_file(v, file)) {
        config.file_map[std::string(key)] = file;
        return true;""", """    const bool stored = store_to_file(v, file);
    if (stored or add_type_hash) {
        config.file_map[std::string(key)] = file;
        return true;""")]},
 demo=H+'''int main(int, char** a){ cache_config c(false, string(a[1])+"/none"); bit_vector b(10,1); return store_to_cache(b, "k", c, true) ? 1 : 0; }'''),
dict(id='b11-close-lost', property='P11', needs='a device without space, so that only the flush at the end of the file fails',
 breaks='the stream forgets that closing the file (which writes the rest of the data) has failed',
 edits={'lib/sfstream.cpp': [("""void
osfstream::close()
{
    bool fail = false;
    if (nullptr == m_streambuf) {
        fail = true;
    } else {
        if (is_ram_file(m_file)) {
            fail = !((ram_filebuf*)m_streambuf)->close();
        } else {
            fail = !((std::filebuf*)m_streambuf)->close();
        }
    }""", """void
osfstream::close()
{
    bool fail = !is_open();
    if (!fail) {
        if (is_ram_file(m_file)) {
            fail = !((ram_filebuf*)m_streambuf)->close();
        } else {
            ((std::filebuf*)m_streambuf)->close();
            fail = is_open();
        }
    }""")]},
 demo=H+'''int main(){ bit_vector b(1000,1); return store_to_file(b, string("/dev/full")) ? 1 : 0; }'''),
]
