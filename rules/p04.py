from check_life import *
def run():
    rep = Report('P04')
    rep.rule = 'a pointer or reference by which an object refers to one of its own members refers to the own member after every construction, load, copy, move, assignment and swap'
    F = load_facts()
    check_binding(rep, F)
    rep.floor('internal pointers', 280); rep.floor('binding obligations', 1950); rep.floor('self-references', 240)
    return rep.finish()
if __name__ == '__main__': main(run, 'P04')
