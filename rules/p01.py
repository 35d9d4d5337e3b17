from serial import *
def run():
    rep = Report('P01')
    rep.rule = 'load executed in lockstep with every path of serialize consumes exactly the items written, in the same order and with the same sizes and counts, and leaves no observable member unrestored'
    F = load_facts()
    check_roundtrip(rep, F)
    rep.floor('serialize/load pairs', 60); rep.floor('stream items matched', 300); rep.floor('member restorations', 400)
    return rep.finish()
if __name__ == '__main__': main(run, 'P01')
