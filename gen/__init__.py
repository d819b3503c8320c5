"""Case generators: suites(property, tier, rng) -> list of suites."""
import json
from . import lex, lang, data, code, more, dbg, stdlib

TABLE = {}
for mod in (lex, lang, data, code, more, dbg, stdlib):
    TABLE.update(mod.TABLE)

def case_key(case):
    return json.dumps(case, sort_keys=True)

def suites(pid, tier, rng):
    return TABLE[pid](tier, rng)
