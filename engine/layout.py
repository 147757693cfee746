"""Field offsets of the crate's structs, from the debug information of the compiled module."""
import re

_cache = {}


def structs(prog):
    """{(namespace path, struct name): {field: byte offset}}"""
    k = id(prog)
    if k in _cache:
        return _cache[k]
    out = {}
    for mod in prog.mods:
        if "ed448_goldilocks" not in mod.path.rsplit("/", 1)[-1]:
            continue
        md = {}
        with open(mod.path) as f:
            for l in f:
                if l[0] == "!" and ("!DICompositeType" in l or "DW_TAG_member" in l or "!DINamespace" in l or "= !{" in l):
                    i, _, r = l.partition(" = ")
                    md[i] = r

        def ns(i):
            parts = []
            while i in md and "!DINamespace" in md[i]:
                parts.append(re.search(r'name: "([^"]*)"', md[i]).group(1))
                s = re.search(r"scope: (!\d+)", md[i])
                i = s.group(1) if s else None
            return "::".join(reversed(parts))
        for i, r in md.items():
            if "!DICompositeType" not in r or "DW_TAG_structure_type" not in r:
                continue
            n = re.search(r'name: "([^"]*)"', r)
            s = re.search(r"scope: (!\d+)", r)
            e = re.search(r"elements: (!\d+)", r)
            if not (n and s and e) or e.group(1) not in md:
                continue
            path = ns(s.group(1))
            if not path.startswith("ed448_goldilocks"):
                continue
            fs = {}
            for x in re.findall(r"!\d+", md[e.group(1)]):
                d = md.get(x, "")
                if "DW_TAG_member" in d:
                    nm = re.search(r'name: "([^"]*)"', d).group(1)
                    off = re.search(r"offset: (\d+)", d)
                    fs[nm] = int(off.group(1)) // 8 if off else 0
            out[(path, n.group(1))] = fs
    _cache[k] = out
    return out


DEFAULT = {
    "ed": ("edwards", "ExtendedPoint", ["X", "Y", "Z", "T"]),
    "tw": ("twedwards", "ExtendedPoint", ["X", "Y", "Z", "T"]),
    "ens": ("twedwards", "ExtensiblePoint", ["X", "Y", "Z", "T1", "T2"]),
    "pn": ("twedwards", "ProjectiveNielsPoint", ["Y_plus_X", "Y_minus_X", "Td", "Z"]),
    "an": ("twedwards", "AffineNielsPoint", ["y_plus_x", "y_minus_x", "td"]),
    "aff": ("twedwards", "AffinePoint", ["x", "y"]),
    "eaff": ("edwards", "AffinePoint", ["x", "y"]),
    "mp": ("montgomery", "ProjectiveMontgomeryPoint", ["U", "W"]),
}


def fields(prog, kind):
    """{field: offset} of a point representation."""
    where, name, names = DEFAULT[kind]
    for (path, n), fs in structs(prog).items():
        if n == name and where in path.split("::") and set(names) <= set(fs):
            return {x: fs[x] for x in names}
    return {x: 64 * i for i, x in enumerate(names)}
