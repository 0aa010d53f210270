import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from c13 import *
class D(C):
    ID = "C15"
    RULE = ("generated configurations with password fields in every structure (as C, compiled with a program that executes scripts) and six histories each, with passwords set, compared as stored text and verified in terms; results and stored rows compared with the reference: "
            "a stored password is either a verifiable hash of the one given or, when set as text, that text; non-trivial: a query with a password term that finds a row")
    N = {"quick": 450, "thorough": 20000}
    W = {"insert": 3, "update": 3, "delete": .3, "search": 5, "list": 4, "iterate": 3, "count": .5}
    def prof(self, r): return ortgen.Prof(structs=(1, 3), roles=0, comments=0, labels=0, queries=(1, 5), updates=(1, 4), deletes=(0, 1), exotic=.05, limit=.15, distinct=.06, group=.06, pwbias=.5, pwneq=r.choice([0, .3]), deepbias=r.choice([0, .5]), refs=[0, 1, 1, 2], structref=.85, null=.35, types={'int': 5, 'text': 3, 'real': 1, 'blob': 1, 'date': 1, 'epoch': 1, 'email': 1, 'password': 9, 'enum': 1, 'bits': 1, 'bit': 1})
    def tune(self, r, cfg):
        super().tune(r, cfg)
        for s in cfg["structs"]: s["insert"] = True
    def nontrivial(self, l): return "password term" in l and "found" in l
if __name__ == "__main__": main(D)
