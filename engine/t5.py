import sys
import core,gen,dump,models
from interp import *
sys.setrecursionlimit(200000)
gen.generate()
d=dump.load()
e=models.install(Engine(d)); e.dump=d
env=core.Env(e)
core.gate=lambda *x:None
for r in core.RULES[sys.argv[1]]:
    if sys.argv[2] in r.name:
        try: o=r.fn(env)
        except (core.Fail,core.Undecided) as x: o=[("EXC",str(x))]
        print(r.name, len(o))
        for w in o[:6]: print("   ",w)
