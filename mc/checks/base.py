from .. import engine


class Spec:
    """one property: jobs(tier) -> callables returning run.Result"""
    assumptions = []

    def __init__(self, pid):
        self.pid = pid

    def jobs(self, tier):
        raise NotImplementedError

    def bounds(self, tier):
        return ""


def batches(lat, size):
    """group the enumeration blocks of a lattice into batches of about `size` states"""
    cur, n = [], 0
    for b in lat.blocks():
        s = lat.size(b)
        if s == 0:
            continue
        if n and n + s > size:
            yield cur
            cur, n = [], 0
        cur.append(b)
        n += s
    if cur:
        yield cur


def unstate(st):
    """state read back from a replay file"""
    out = {}
    for k, v in st.items():
        if v == "nan":
            v = float("nan")
        out[k] = v
    return out
