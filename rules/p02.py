from serial import *
def run():
    rep = Report('P02')
    rep.rule = 'on every path the value a serialize function returns, and the size it records for its node of the structure tree, is the number of bytes it writes'
    F = load_facts()
    check_bytes(rep, F)
    rep.floor('serializing functions', 60); rep.floor('size annotations', 60)
    return rep.finish()
if __name__ == '__main__': main(run, 'P02')
