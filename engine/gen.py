"""Write the entry-point crates from the rule files."""
import os
import core
from dump import UNITS


def generate(tier="quick", unit="b"):
    import spec  # noqa
    d = UNITS[unit]
    s = open(os.path.join(d, "prelude.rs")).read() + "\n".join(core.PRELUDE if unit == "b" else core.PRELUDE_S) + "\n"
    s += "\n".join(s for n, s in core.ENTRIES.items()
                   if core.ENTRY_UNIT.get(n, "b") == unit and (tier == "thorough" or n not in core.ENTRY_TIER)) + "\n"
    p = os.path.join(d, "src", "lib.rs")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)
