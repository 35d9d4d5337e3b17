H = '#include <sdsl/bits.hpp>\n#include <sdsl/coder_fibonacci.hpp>\n#include <cstdio>\nusing namespace sdsl; using namespace std;\n'
BUGS = [
dict(id='b16-fib', property='P16', needs='Fibonacci codes of values above 2^58',
 breaks='one of the large Fibonacci numbers is wrong, so codes of very large values do not decode',
 edits={'lib/bits.cpp': [("0xf444c01834299abULL", "0xf444c01834299afULL")]},
 demo=H+'''int main(){ for(int i=2;i<92;++i) if (bits::lt_fib[i]!=bits::lt_fib[i-1]+bits::lt_fib[i-2]) return 1; return 0; }'''),
]
