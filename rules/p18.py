from common import *
import concurrent.futures as cf
BV = ['bit_vector', 'bit_vector_il<512>', 'rrr_vector<63>', 'rrr_vector<15>', 'rrr_vector<127>', 'sd_vector<>', 'hyb_vector<16>']
def jobs():
    J = []                    # (name, [statements])
    def c(f, t): return '%s(const_cast<const %s&>(*(%s*)nullptr));' % (f, t, t)
    def g(f, t, a=''): return '%s<%s>(%s);' % (f, t, a)
    for bv in BV:
        for w in ('wt_huff<%s>', 'wt_hutu<%s>', 'wt_blcd<%s>', 'wt_int<%s>', 'wm_int<%s>', 'wt_huff_int<%s>', 'wt_hutu_int<%s>', 'wt_blcd_int<%s>'):
            t = w % bv
            s = [g('wt_use', t), g('wt_use_sym', t), g('wt_node', t), c('wt_const', t), c('wt_sym_const', t), c('wt_node_const', t), 'can_move(*(%s*)nullptr);' % t]
            if 'wt_hutu' in w or 'wt_blcd' in w or 'wt_int' in w: s += [g('wt_use_lex', t), c('wt_lex_const', t)]
            if 'wt_int' in w or 'wm_int' in w: s += [c('wt_2d_const', t)]
            J.append((t, s))
        J.append((bv, [g('bv_use', bv), c('bv_const', bv)]))
    for t in ('wt_rlmn<>', 'wt_rlmn<sd_vector<>, rank_support_sd<>, select_support_sd<>, wt_huff<>>', 'wt_rlmn<bit_vector, rank_support_v5<>, select_support_mcl<>, wt_int<>>', 'wt_gmr<>', 'wt_gmr_rs<>', 'wt_ap<>', 'wt_gmr<int_vector<>>', 'wt_gmr<enc_vector<>>', 'wt_gmr<dac_vector<>>'):
        J.append((t, [g('wt_use', t), c('wt_const', t), 'can_move(*(%s*)nullptr);' % t]))
    W = ['wt_huff<>', 'wt_hutu<rrr_vector<63>>', 'wt_blcd<>', 'wt_rlmn<>']
    C = ['csa_wt<%s>' % w for w in W] + ['csa_sada<enc_vector<%s>>' % x for x in ('coder::elias_delta', 'coder::elias_gamma', 'coder::fibonacci', 'coder::comma<2>')] + ['csa_bitcompressed<>', 'csa_bitcompressed<succinct_byte_alphabet<>>']
    C += ['csa_wt<wt_huff<>,8,8,%s>' % s for s in ('sa_bwt_sampling<>,isa_sampling<>', 'sa_order_sa_sampling<>,isa_sampling<>', 'text_order_sa_sampling<>,text_order_isa_sampling_support<>', 'fuzzy_sa_sampling<>,fuzzy_isa_sampling_support<>', 'text_order_sa_sampling<sd_vector<>>,isa_sampling<>', 'fuzzy_sa_sampling<>,isa_sampling<>', 'sa_order_sa_sampling<>,isa_sampling<>,succinct_byte_alphabet<>')]
    C += ['csa_sada<enc_vector<>,8,8,%s>' % s for s in ('sa_order_sa_sampling<>,isa_sampling<>', 'text_order_sa_sampling<>,text_order_isa_sampling_support<>', 'fuzzy_sa_sampling<>,fuzzy_isa_sampling_support<>', 'sa_order_sa_sampling<>,isa_sampling<>,succinct_byte_alphabet<>')]
    for t in C: J.append((t, [g('csa_use', t, '"f"'), c('csa_const', t), 'can_move(*(%s*)nullptr);' % t]))
    I = ['csa_wt_int<>', 'csa_sada_int<>', 'csa_bitcompressed<int_alphabet<>>', 'csa_wt_int<wm_int<>>', 'csa_wt_int<wt_huff_int<>>', 'csa_wt_int<wt_gmr<>>', 'csa_wt_int<wt_ap<>>']
    for t in I: J.append((t, [g('csa_any', t)]))
    for a in ('csa_wt<>', 'csa_sada<>', 'csa_bitcompressed<>'):
        for l in ('lcp_dac<>', 'lcp_byte<>', 'lcp_wt<>', 'lcp_vlc<>', 'lcp_bitcompressed<>', 'lcp_support_sada<>', 'lcp_support_tree<>', 'lcp_support_tree2<>'):
            if a != 'csa_wt<>' and l in ('lcp_byte<>', 'lcp_vlc<>', 'lcp_wt<>'): continue
            for b in ('cst_sct3', 'cst_sada'):
                if b == 'cst_sada' and 'tree' in l: continue
                t = '%s<%s, %s>' % (b, a, l); J.append((t, [g('cst_use', t, '"f"'), c('cst_const', t), 'can_move(*(%s*)nullptr);' % t]))
    for b in ('bp_support_g<>', 'bp_support_gg<>'):
        for t in ('cst_sct3<csa_wt<>, lcp_dac<>, %s>' % b, 'cst_sada<csa_sada<>, lcp_dac<>, %s>' % b): J.append((t, [g('cst_use', t, '"f"'), c('cst_const', t)]))
    for i in I:
        for b in ('cst_sct3', 'cst_sada'): t = '%s<%s>' % (b, i); J.append((t, [g('cst_any', t)]))
    for t in ('rmq_succinct_sct<>', 'rmq_succinct_sct<false>', 'rmq_succinct_sada<>', 'rmq_succinct_sada<false>', 'rmq_support_sparse_table<>', 'rmq_support_sparse_table<int_vector<>, false>'): J.append((t, [c('rmq_const', t), 'can_move(*(%s*)nullptr);' % t]))
    for t in ('bp_support_sada<>', 'bp_support_g<>', 'bp_support_gg<>'): J.append((t, [c('bp_const', t), 'can_move(*(%s*)nullptr);' % t]))
    for t in ('int_vector<>', 'int_vector<8>', 'bit_vector', 'int_vector<64>', 'enc_vector<>', 'vlc_vector<>', 'dac_vector<>', 'dac_vector_dp<>', 'enc_vector<coder::comma<2>>', 'vlc_vector<coder::comma<16>>', 'lcp_dac<>', 'lcp_byte<>', 'lcp_wt<>', 'lcp_vlc<>', 'lcp_bitcompressed<>'):
        J.append((t + ' (const)', [c('vec_const', t), 'can_move(*(%s*)nullptr);' % t]))
    return J
def run():
    rep = Report('P18')
    rep.rule = 'the program that applies every public operation to the structure (queries through constant references) is accepted by the type checker; no instantiated function with a result can end without returning a value or calls itself on every path'
    check_programs(rep, ['-Werror=return-type', '-Werror=infinite-recursion'], '(while checking the operations of %s)')
    rep.floor('structures', 50)
    return rep.finish()
def check_programs(rep, wflags, tail, only=None, lib=False):
    d = tempfile.mkdtemp(prefix='sdsl-ops-')
    try:
        make_all_hpp(d)
        base = ['clang++'] + [f for f in FLAGS if f not in ('-w', '-ferror-limit=0')] + ['-Wno-everything'] + wflags + ['-ferror-limit=0'] + include_flags(d)
        U = os.path.join(HERE, 'units')
        open(d + '/pre.hpp', 'w').write('#include "all.hpp"\n')
        r = subprocess.run(base + ['-x', 'c++-header', d + '/pre.hpp', '-o', d + '/pre.pch'], capture_output=True, text=True)
        if r.returncode:
            rep.violation('headers', 'the headers do not compile together: ' + errors(r.stderr)[0][1]); rep.count('structures'); rep.ob(False); return
        srcs = [(os.path.basename(p)[:-4], p) for p in sorted(glob.glob(U + '/u_*.cpp'))]
        if lib: srcs += [(os.path.basename(p), p) for p in sorted(glob.glob(REPO + '/lib/*.cpp'))]
        # one file per group of structures: they share most instantiations
        J = jobs(); groups = {}
        for t, st in J:
            key = next((b for b in BV if t == b or ('<%s>' % b) in t and t.startswith('w')), None) or (t.split('<')[0] + '/' + t.split('<')[1][:9] if '<' in t else t)
            groups.setdefault(key, []).append((t, st))
        head = open(U + '/u_use.cpp').read().replace('#include "all.hpp"', '')
        for n, (k, l) in enumerate(sorted(groups.items(), key=lambda x: -len(x[1]))):
            p = '%s/g%d.cpp' % (d, n)
            with open(p, 'w') as f:
                f.write('#include "use_templates.hpp"\n#include "ops.hpp"\n')
                for i, (t, st) in enumerate(l): f.write('void use_%d() { %s } // %s\n' % (i, ' '.join(st), t))
            srcs.append(('group ' + k, p))
        open(d + '/use_templates.hpp', 'w').write(templates(head))
        def one(s):
            r = subprocess.run(base + ['-fsyntax-only', '-include-pch', d + '/pre.pch', s[1]], capture_output=True, text=True)
            return s, r.returncode, r.stderr
        srcs.sort(key=lambda s: -os.path.getsize(s[1]))
        with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, srcs))
        for (name, p), rc, err in res:
            rep.count('programs'); es = [e for e in errors(err) if 'static assertion failed' not in e[1] and (only is None or only in e[1])]
            rep.ob(not es)
            for loc, txt in es[:5]:
                rep.violation('%s/%s' % (loc.rsplit(':', 2)[0], txt[:80]), '%s: %s %s' % (loc, txt, tail % name if '%s' in tail else tail))
            if rc and not errors(err): raise Broken('clang failed on %s: %s' % (name, err[-500:]))
        rep.count('structures', len(J)); rep.count('operation groups', sum(len(s) for _, s in J))
        rep.samples = [t for t, _ in J]
    finally: shutil.rmtree(d, ignore_errors=True)
def templates(text):
    """the function templates of u_use.cpp (without the functions that instantiate them)"""
    out = []; skip = False
    for l in text.splitlines():
        if l.startswith('void '): skip = not l.rstrip().endswith('}'); continue
        if skip:
            if l.startswith('}'): skip = False
            continue
        out.append(l)
    return '\n'.join(out) + '\n'
def errors(err):
    res = []
    for l in err.splitlines():
        i = l.find(' error: ')
        if i < 0: i = l.find(' fatal error: ')
        if i < 0: continue
        loc = l[:i].rstrip(':').replace(REPO + '/', '')
        res.append((loc, l[i:].strip()))
    return res
if __name__ == '__main__': main(run, 'P18')
