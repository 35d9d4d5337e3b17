from check_life import *
def run():
    rep = Report('P03')
    rep.rule = 'every copy/move/assign/swap gives each data member the value of the same member of the other object, on every path; self-application changes nothing'
    F = load_facts()
    check_transfer(rep, F)
    rep.floor('operations', 440); rep.floor('member transfers', 1950); rep.floor('owning classes', 15)
    return rep.finish()
if __name__ == '__main__': main(run, 'P03')
