cd /verif/engine; U=$2; U=${U:-b} python3 - <<'P' 2>&1 | grep -A12 "^error\|BuildError" | head -${1:-60}
import gen,dump,os
u=os.environ["U"]
gen.generate("quick",u)
try: dump.make_dump(u)
except dump.BuildError as e: print(e)
P
