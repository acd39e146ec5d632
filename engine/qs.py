import sys
import core,gen,dump,models
from interp import *
from core import *
import spec
sys.setrecursionlimit(200000)
gen.generate("quick","s")
d=dump.load("s")
import models_s
e=models_s.install_s(Engine(d)); e.dump=d
env=core.Env(e)
