"""Raw resources are released exactly once by the matching function."""
from common import *
from own import check_own

def skip(f):
    return '_hutu_shape' in (f.get('cls') or '') or '_hutu_shape' in f['qn'] or f['qn'].startswith('sdsl::hugepage_allocator')

def run():
    rep = Report('P14')
    rep.rule = 'every memory block, mapping and descriptor is, on every path, released exactly once by the matching function: never lost, released twice, used after release, or owned by two objects'
    F = load_facts()
    check_own(rep, F, skip)
    return rep.finish()
if __name__ == '__main__': main(run, 'P14')
