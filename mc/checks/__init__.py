from .conform import Conform

REGISTRY = {}


def reg(spec):
    REGISTRY[spec.pid] = spec


for _i, _g in enumerate(("ot_taw", "ot_eur", "ot_new", "runup", "transmission", "goda", "crestwall", "rock", "concrete", "toe", "rear",
                         "core")):
    reg(Conform("P%02d" % (_i + 1), _g))

from . import relate, tables, takahashi  # noqa: E402

reg(relate.RoundTrip("P13", relate.pairs_overtopping))
reg(relate.RoundTrip("P14", relate.pairs_structural))
REGISTRY["P09"].extra_jobs.append(tables.jobs)
REGISTRY["P14"].extra = takahashi.jobs
REGISTRY["P10"].extra_jobs.append(takahashi.jobs)

from . import validity  # noqa: E402

reg(validity.Validity("P15"))

from . import arrays  # noqa: E402

reg(arrays.Arrays("P16"))

from . import history  # noqa: E402

reg(history.History("P17"))

from . import interleave  # noqa: E402

reg(interleave.Interleave("P24"))

from . import relate2  # noqa: E402

reg(relate2.Froude("P18"))
reg(relate2.Monotone("P19"))
reg(relate2.Conservative("P22"))
reg(relate2.Limits("P23"))

from . import equiv  # noqa: E402

reg(equiv.Equiv("P20"))

from . import writers  # noqa: E402

reg(writers.Writers("P21"))

from . import iterate  # noqa: E402

reg(iterate.Iterate("P25"))

from . import noreal  # noqa: E402

reg(noreal.NoNumber("P26"))
