"""P09: the tables of unit properties that the concrete armour modules publish."""
from .. import engine
from ..run import Result

SC = "structural.stability_concrete_armour."
TABLES = {
    "accropode2_hudson1959": {"KD": {"trunk_breaking_min": 9, "trunk_breaking_max": 16, "trunk_nonbreaking": 16}, "kt": 1.52, "nlayers": 1},
    "accropode_hudson1959": {"KD": {"trunk_non_breaking": 15, "trunk_breaking": 12, "head_non_breaking": 11.5, "head_breaking": 9.5},
                             "kt": 1.29, "nlayers": 1},
    "core_loc_hudson1959": {"KD": {"trunk": 16.0, "head": 13.0}, "kt": 1.516, "nlayers": 1},
    "cubes_double_layer_hudson1959": {"KD": {"double_layer_trunk_non_breaking": 7.5, "double_layer_trunk_breaking": 6.5,
                                             "double_layer_head_non_breaking": 5.0, "double_layer_head_breaking": None},
                                      "nv": 0.47, "kt": 1.10, "nlayers": 2, "Delta_x_fact_Dn": 1.7, "Delta_y_fact_Dn": 0.85},
    "cubes_double_layer_vandermeer1988": {"nv": 0.47, "kt": 1.10, "nlayers": 2, "Delta_x_fact_Dn": 1.7, "Delta_y_fact_Dn": 0.85},
    "cubes_single_layer_vangent2002": {"kt": 1.0, "nlayers": 1},
    "cubipod_hudson1959": {"KD": {"trunk_double_layer": 28, "trunk_single_layer": 12, "head_double_layer": 7, "head_single_layer": 5},
                           "kt": 1.0, "nlayers": [1, 2]},
    "tetrapod_hudson1959": {"KD": {"trunk_non_breaking": 8.0, "trunk_breaking": 7.0, "head_non_breaking": 5.5, "head_breaking": 4.5},
                            "nv": 0.5, "kt": 1.02, "nlayers": 2},
    "xbloc": {"KD": {"trunk_breaking": 16, "head_breaking": 13}, "kt": 1.40, "nlayers": 1},
    "xblocplus": {"KD": {"trunk_breaking": 12}, "kt": 1.33, "nlayers": 1},
}


def leaves(t, path=()):
    for k, v in t.items():
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))
        else:
            yield path + (k,), v


def job(mod):
    r = Result("tables:" + mod)
    try:
        have = getattr(engine.load(SC + mod), "unit_properties", None)
    except (ImportError, SyntaxError):
        have = None
    if have is None:
        r.bump("table_absent")
        return r
    for path, want in leaves(TABLES[mod]):
        r.states += 1
        r.transitions += 1
        r.validated += 1
        got = have
        try:
            for p in path:
                got = got[p]
            ok = got is None if want is None else (list(got) == want if isinstance(want, list) else abs(float(got) - want) <= 1e-12 * abs(want))
        except (KeyError, TypeError, ValueError):
            ok = False
            got = "missing"
        if not ok:
            r.violation("table:%s:%s" % (mod, "/".join(path)), {"table": mod, "key": list(path)}, "unit property %s of %s is %r, documented %r" % (
                "/".join(path), mod, got, want))
    return r


def jobs(tier):
    return [lambda m=m: job(m) for m in TABLES]
