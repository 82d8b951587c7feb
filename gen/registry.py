import checks_core, checks_dims, checks_chat, checks_graph, checks_parents, checks_index, checks_crash, checks_conc, checks_router, checks_geo, checks_quant, checks_memory, checks_knowledge, checks_hindsight
CHECKS, LEVEL, NA = {}, {}, {}
MODS = (checks_core, checks_dims, checks_chat, checks_graph, checks_parents, checks_index, checks_crash, checks_conc, checks_router, checks_geo, checks_quant, checks_memory, checks_knowledge, checks_hindsight)
for mod in MODS:
    for n in dir(mod):
        if len(n) == 3 and n[0] == "C" and n[1:].isdigit(): CHECKS[n] = getattr(mod, n)
TECH = "TLA+ specification checked with TLC; traces of the real code validated against it"
BASE = ("Every recorded operation of generated histories must be a step of the TLA+ specification (TLC decides); the specification's own invariants are model checked. "
        "Assurance is bounded by the generated histories and by the small-integer vectors and vocabulary they use; trusts the Go toolchain, SQLite, TLC and the driver's rendering of results.")
DEFAULT = (TECH, BASE)
NOTES = {}
