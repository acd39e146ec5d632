import sys
import core,gen,dump,models
from interp import *
from core import *
import spec
gen.generate()
d=dump.load()
e=models.install(Engine(d)); e.dump=d
env=core.Env(e)
