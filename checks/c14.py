import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c13 import *
class D(C):
    ID = "C14"
    RULE = ("generated configurations weighted towards queries over several structures (as C, compiled with a program that executes scripts) and six histories each; every search, list, iteration and count is compared with the reference "
            "(terms evaluated per row, joined structures, order, limit, offset, distinct, groups); non-trivial: a query that selects some but not all rows of its table")
    N = {"quick": 900, "thorough": 20000}
    W = {"insert": 3, "update": 1, "delete": .3, "search": 5, "list": 5, "iterate": 3, "count": 4}
    def prof(self, r):
        k = dict(structs=(2, 4), queries=(2, 7), updates=(0, 2), deletes=(0, 1), refs=[0, 1, 1, 2])
        k.update(structref=.9, refnull=r.choice([.2, .2, .6]))
        if r.random() < .3: k = dict(structs=(4, 7), queries=(1, 3), updates=(0, 1), deletes=(0, 0), refs=[1, 1, 1, 2], fields=(1, 2), structref=1, refnull=.4, acyclic=.9)     # many references
        elif r.random() < .12: k = dict(structs=(3, 5), queries=(1, 2), updates=(0, 0), deletes=(0, 0), refs=[2, 3, 3, 4], fields=(1, 1), structref=1, refnull=.3, acyclic=1)     # more than 26 of them
        return ortgen.Prof(roles=0, comments=0, labels=0, exotic=.1, deepbias=.6, order=.5, distinct=.2, null=.25, **k)
    def tune(self, r, cfg):
        super().tune(r, cfg)
        for s in cfg["structs"]: s["insert"] = True
    def nontrivial(self, l): return "selective" in l
if __name__ == "__main__": main(D)
