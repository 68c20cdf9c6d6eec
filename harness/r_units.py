"""The unit systems of units.qnt as real objects (values read from the module)."""
import functools
import os
import re

from core import SPEC

FIELDS = ("key", "force", "length", "moment", "dist", "disp", "scale")


@functools.lru_cache(None)
def table():
    txt = open(os.path.join(SPEC, "units.qnt"), encoding="utf8").read()
    defs = {}
    for n, body in re.findall(r"pure val (\w+): Units = \{([^}]*)\}", txt):
        defs[n] = {k: (int(v) if v.lstrip("-").isdigit() else v.strip('"'))
                   for k, v in re.findall(r'(\w+): ("[^"]*"|-?\d+)', body)}
    order = re.search(r"SYSTEMS: List\[Units\] = \[([^\]]*)\]", txt).group(1)
    return [defs[n.strip()] for n in order.split(",")]


@functools.lru_cache(None)
def aliases():
    txt = open(os.path.join(SPEC, "units.qnt"), encoding="utf8").read()
    return [(n, int(k)) for n, k in re.findall(r'\("([^"]*)", (\d)\)', txt)]


def spec_units(i):
    return table()[i]


@functools.lru_cache(None)
def own():
    from pycba.units import UnitSystem

    u = table()[5]
    return UnitSystem(name="my own", force=u["force"], length=u["length"], moment=u["moment"],
                      distributed=u["dist"], disp_label=u["disp"], disp_scale=u["scale"] * 1e-6)


def styled(name, style):
    """a name as people write it"""
    return (name, name.upper(), name.replace("-", "_"), name.replace("-", " "), f"  {name.title()} ",
            name.replace("-", " ", 1).capitalize())[style % 6]


def system(i):
    """the system itself, as the library knows it"""
    from pycba import units as U

    return own() if i == 5 else U.resolve(table()[i]["key"])


def override(i, style):
    """what may be passed to mean it"""
    if i == 5 or style == 0:
        return system(i)
    names = [n for n, k in aliases() if k == i and n]
    return styled(names[style % len(names)], style)
