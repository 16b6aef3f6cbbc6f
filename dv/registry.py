SPECS = {}


def spec(*names):
    def deco(f):
        for n in names:
            SPECS[n] = f
        return f
    return deco


def lookup(mod, attr):
    load()
    return SPECS.get(f"{mod}.{attr}") or SPECS.get(attr)


_loaded = []


def load():
    if not _loaded:
        _loaded.append(1)
        import importlib
        for m in ("specs_a", "specs_b", "specs_c", "specs_d", "specs_e", "specs_f"):
            try:
                importlib.import_module('dv.' + m)
            except ModuleNotFoundError as e:
                if 'dv.specs_' not in str(e):
                    raise
