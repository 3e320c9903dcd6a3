import importlib
MODULES = ['bw', 'bvec', 'builder', 'enums', 'mv', 'codec', 'rs', 'obj','da', 'bvctor', 'da64', 'ef', 'lists', 'gamma', 'lines', 'bp']
def all_contracts():
    import importlib
    by = {}
    for m in MODULES:
        for c in importlib.import_module('contracts.' + m).CONTRACTS:
            assert c.name not in by, c.name
            by[c.name] = c
    return by

def extra_obls(names):
    """lemmas proved only for the modules in use"""
    out = []
    for m in MODULES:
        mod = importlib.import_module('contracts.' + m)
        if hasattr(mod, 'EXTRA_OBLS') and any(c.name in names for c in mod.CONTRACTS): out += mod.EXTRA_OBLS()
    return out
