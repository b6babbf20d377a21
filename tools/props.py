"""Writes properties.jsonl and MANIFEST.json from one table:  python3 tools/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "deltares_coastal_structures_toolbox/functions/"
OT, RU, TR = F + "hydraulic/wave_overtopping/", F + "hydraulic/wave_runup/", F + "hydraulic/wave_transmission/"
ST = F + "structural/"
ALL_FORMULA_FILES = [OT, RU, TR, ST + "forces_caisson/", ST + "forces_crestwall/", ST + "stability_rock_armour/",
                     ST + "stability_concrete_armour/", ST + "stability_toe_berm/", ST + "stability_rock_rear/"]

CONF_WHY = ("The tests compare single parameter sets per function with stored numbers; regime switches, optional inputs, caps, "
            "reduction factors and their combinations form a space that a handful of points cannot settle.")
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
                  technique=technique, note=note))


def conf(pid, title, statement, text, files, mech, what):
    prop(pid, title, statement, ["inputs", "configurations"], text, CONF_WHY, files, mech,
         ["return values and raised exceptions of the public calculate_* functions"],
         "explicit-state exploration of a bounded input lattice; every model state replayed on the implementation",
         "Independent reference model of " + what + " evaluated in every state of the lattice (all combinations of inputs differing from "
         "a set of base regimes in up to k inputs, dense one-input sweeps, orthogonal arrays over all inputs); each state's model outcome (value, refusal) is replayed "
         "on the real functions. Bounded: nothing is claimed between lattice points.")


conf("P01", "TAW (2002) overtopping is the published formula for every input",
     "For every combination of wave, slope, berm, roughness, obliquity, wall and confidence inputs the TAW (2002) mean discharge and "
     "required crest freeboard, dimensional and dimensionless, equal the published equations including the cap for non-breaking waves, "
     "the influence factors and the report of which of the two governs. Inputs that cannot determine a result are refused instead of "
     "producing a number.",
     "every state of the input lattice of the TAW (2002) overtopping and freeboard computations and their influence factors, for the "
     "design and best-fit coefficients",
     [OT + "taw2002.py", RU + "taw2002.py", F + "core_physics.py"],
     [("breaking/non-breaking minimum and flag", OT + "taw2002.py"), ("influence factor resolution", OT + "taw2002.py"),
      ("berm and composite slope iteration", RU + "taw2002.py")], "the TAW (2002) overtopping equations")
conf("P02", "EurOtop overtopping is the published formula for every input",
     "For every combination of inputs the EurOtop (2018) dike and rubble mound and EurOtop (2007) rubble mound discharges and required "
     "crest freeboards, dimensional and dimensionless, equal the published equations including the roughness adjustment for long waves, "
     "crest width reduction, influence factors and the governing-regime report. Inputs that cannot determine a result are refused.",
     "every state of the input lattices of the EurOtop overtopping and freeboard computations, design and best-fit coefficients",
     [OT + "eurotop2018.py", OT + "eurotop2007.py", RU + "eurotop2018.py", F + "core_physics.py"],
     [("breaking/non-breaking minimum and flag", OT + "eurotop2018.py"), ("roughness adjustment", OT + "eurotop2018.py"),
      ("crest width reduction", OT + "eurotop2007.py")], "the EurOtop (2018) and (2007) overtopping equations")
conf("P03", "Recent overtopping formulae are exact for every input",
     "For every combination of inputs the overtopping discharges and required crest freeboards of Van Gent (2021, caissons), De Ridder et "
     "al. (2024, 2026) and Van Gent et al. (2025) equal the published equations with their reduction factors for oblique waves, berms, "
     "crest walls, roughness and second wave fields. A freeboard that no positive crest satisfies or inputs outside the formula's domain "
     "never yield a wrong number silently.",
     "every state of the input lattices of these overtopping computations",
     [OT + "vangent2021_caisson.py", OT + "deridder2024.py", OT + "deridder2026.py", OT + "vangent2025.py", F + "core_physics.py"],
     [("influence factors", OT + "vangent2025.py"), ("oblique second wave field", OT + "vangent2021_caisson.py"),
      ("infragravity terms", OT + "deridder2026.py")], "the Van Gent (2021), De Ridder et al. (2024, 2026) and Van Gent et al. (2025) equations")
conf("P04", "Wave run-up is the published formula for every slope and berm",
     "For every combination of wave, slope, berm, roughness and obliquity inputs the run-up levels of TAW (2002), EurOtop (2018) and Van "
     "Gent (2001) equal the published equations, including composite slopes, berm influence iterated to convergence, the cap for "
     "non-breaking waves and the conversion between exceedance levels. Inputs that cannot determine a result are refused.",
     "every state of the input lattices of the run-up computations, their berm and obliquity influence factors",
     [RU + "taw2002.py", RU + "eurotop2018.py", RU + "vangent2001.py", F + "core_physics.py"],
     [("berm/composite slope iteration", RU + "taw2002.py"), ("regime selection", RU + "eurotop2018.py")],
     "the TAW (2002), EurOtop (2018) and Van Gent (2001) run-up equations")
conf("P05", "Wave transmission and set-up are the published formula for every input",
     "For every input the transmission coefficients of D'Angremond et al. (1996), Briganti et al. (2003), Van Gent et al. (2023) and Goda "
     "(1967) and the structure-induced set-up of Van Gent (2024) equal the published equations, including the limits on the coefficient, "
     "the interpolation between narrow and wide crests and the dependence on structure type. Unknown structure types are refused.",
     "every state of the input lattices of the transmission and set-up computations, all structure types",
     [TR + "dangremond1996.py", TR + "briganti2003.py", TR + "vangent2023.py", TR + "vangent2024_setup.py", TR + "goda1967_caisson.py"],
     [("coefficient limits", TR + "dangremond1996.py"), ("crest width regimes", TR + "briganti2003.py"),
      ("structure type table", TR + "vangent2023.py")], "the transmission and set-up equations")
conf("P06", "Caisson wave loads and stability are Goda's for every input",
     "For every geometry, sea state and fill the caisson pressures, horizontal and uplift forces, moments, self-weight, sliding and "
     "overturning safety and bearing pressure equal Goda's equations, including the emerged or overtopped crest, the toe berm, impulsive "
     "breaking conditions and the local wavelength. The dictionary and tuple forms of a result agree.",
     "every state of the input lattices of the caisson pressure, force and reaction computations",
     [ST + "forces_caisson/goda1985.py", F + "core_physics.py"],
     [("pressure distribution", ST + "forces_caisson/goda1985.py"), ("local wavelength", F + "core_physics.py")],
     "Goda's caisson pressures, forces and reactions")
conf("P07", "Crest wall forces are the published formula for every input",
     "For every geometry, sea state, obliquity and coefficient set the horizontal and vertical crest wall forces equal the published "
     "equations, whether the run-up level is computed or given, for perpendicular and oblique waves, and are never negative.",
     "every state of the input lattices of the crest wall force computations",
     [ST + "forces_crestwall/vangentvanderwerf2019.py", RU + "vangent2001.py"],
     [("force equations", ST + "forces_crestwall/vangentvanderwerf2019.py")], "the Van Gent and Van der Werf (2019) equations")
conf("P08", "Rock armour stability is the published formula for every input",
     "For every input the damage, rock size, wave height and freeboard results for rock armour (Hudson, Van der Meer, modified Van der "
     "Meer, Van der Meer 2021, Scaravaglione, Etemad-Shahidi, Jumelet, Kramer and Burcharth) equal the published equations, with the "
     "plunging or surging regime, wave count limit, permeability and the resolution of size versus mass inputs. Inputs that do not "
     "determine a result are refused.",
     "every state of the input lattices of the rock armour computations",
     [ST + "stability_rock_armour/", F + "core_physics.py"],
     [("plunging/surging switch", ST + "stability_rock_armour/vandermeer1988.py"), ("size or mass input", F + "core_physics.py"),
      ("iteration for the wave height", ST + "stability_rock_armour/vandermeer1988.py")], "the rock armour stability equations")
conf("P09", "Concrete armour stability is the published formula for every input",
     "For every unit type and input the required unit mass, volume or size, admissible wave height, damage and correction factors for "
     "concrete armour equal the published equations and tables, including head versus trunk, breaking and seabed slope dependence.",
     "every state of the input lattices of the concrete armour computations",
     [ST + "stability_concrete_armour/", ST + "stability_rock_armour/hudson1959.py"],
     [("Hudson equation", ST + "stability_rock_armour/hudson1959.py"), ("correction factor tables", ST + "stability_concrete_armour/xbloc.py")],
     "the concrete armour equations and tables")
conf("P10", "Toe stability is the published formula for every input",
     "For every input the toe damage, rock size, wave height and depth results of Gerding (1993), Van der Meer (1998), Van Gent and Van der "
     "Werf (2014), Etemad-Shahidi et al. (2021) and the Takahashi (1990) caisson berm equal the published equations, including regime "
     "choice and the iterative solutions.",
     "every state of the input lattices of the toe stability computations",
     [ST + "stability_toe_berm/"], [("toe equations", ST + "stability_toe_berm/"), ("iterations", ST + "stability_toe_berm/etemadshahidi2021.py")],
     "the toe stability equations")
conf("P11", "Rear side stability is the published formula for every input",
     "For every input the rear side damage, rock size and admissible wave height of Van Gent (2007) and Van Gent and Pozueta (2004) equal "
     "the published equations with the run-up and crest velocities they rest on, and the iterated wave height satisfies the equation it "
     "solves.",
     "every state of the input lattices of the rear side stability computations",
     [ST + "stability_rock_rear/", RU + "vangent2001.py"], [("rear side equations", ST + "stability_rock_rear/")],
     "the rear side stability equations")
conf("P12", "Shared wave and rock quantities are exact for every input",
     "For every input the shared quantities (Iribarren number, wave steepness, deep water and local wavelength, stability number, buoyant "
     "density, conversion between rock mass and nominal diameter) satisfy their defining equations; the local wavelength solves the "
     "dispersion relation from deep to shallow water.",
     "every state of the input lattices of the shared physics functions",
     [F + "core_physics.py"], [("definitions", F + "core_physics.py")], "the defining equations")

prop("P13", "Overtopping discharge and crest freeboard invert each other",
     "The freeboard required for a discharge, put back into the discharge computation with the same other inputs, returns that discharge, "
     "and the discharge over a given freeboard, put back into the freeboard computation, returns that freeboard. This holds for every "
     "overtopping method and every input for which the published relation is invertible.",
     ["inputs", "configurations"], "all nine discharge/freeboard pairs, both directions, every state of the input lattices",
     "Tests check each direction against separate stored numbers; a disagreement between the two directions away from those points is "
     "invisible.", [OT], [("paired discharge and freeboard functions", OT)],
     ["composition of two public functions"], "explicit-state exploration of two-call histories on the implementation",
     "Every lattice state is run forward and back on the real code; the reference model says where the relation is invertible.")
prop("P14", "Structural design and assessment computations invert each other",
     "For rock, concrete, toe and rear side stability and caisson berms, a design quantity (size, mass, wave height, damage, depth) computed "
     "from the others and put back returns the quantity it was computed from, in every state in which the published relation is invertible.",
     ["inputs", "configurations"], "all pairs of design/assessment functions per method, every state of the input lattices",
     "Tests check each direction against separate stored numbers, at single points.", [ST],
     [("paired design functions", ST)], ["composition of two public functions"],
     "explicit-state exploration of two-call histories on the implementation",
     "Every lattice state is run forward and back on the real code; the reference model says where the relation is invertible.")
prop("P15", "Leaving a documented validity range is always announced, and only then",
     "Every computation announces with a warning each checked quantity that lies outside the documented validity range of its formula, with "
     "the right value, range and formula name, and announces nothing for quantities inside the range. This holds on every side of every "
     "bound, for given inputs and for computed results, and once per value out of range for arrays. A check that involves a nan value (an input "
     "that is not given) is not made.",
     ["inputs", "configurations"], "every computation with validity ranges: all lattice states, states on both sides of every bound, and "
     "every subset of arguments of the validity checks themselves",
     "Tests hardly look at warnings; whether the right quantity is compared with the right bound needs every bound on both sides.",
     [F + "core_utility.py"] + ALL_FORMULA_FILES, [("range comparison", F + "core_utility.py"), ("validity checks", "check_validity* of every module")],
     ["UserWarnings raised during the call"], "explicit-state exploration; warning trace of every call compared with the model",
     "The model computes which announcements a state must and must not produce; the warnings recorded from the real call must match.")
prop("P16", "Array inputs give the same results as one call per element",
     "A computation given one-dimensional arrays for one, several or all of the inputs documented as arrays returns for each element exactly what the same computation "
     "returns for that element's scalar inputs, for any regime mix within the array, any length and integer or float element type; a nan "
     "element (missing record) in a required input does not change the results of the other elements.",
     ["inputs", "configurations"], "every computation, every input as array, pairs of inputs, all inputs together; arrays mixing regimes",
     "Tests use scalars nearly everywhere; branches on scalars versus element-wise selection differ only for arrays that mix regimes.",
     ALL_FORMULA_FILES + [F + "core_physics.py"], [("element-wise selection", "np.where/np.minimum/loops in every module")],
     ["return values"], "explicit-state exploration; product of scalar and array executions of the implementation",
     "Every array state is executed on the real code and compared element by element with the scalar executions.")
prop("P17", "Results do not depend on earlier calls and inputs are never modified",
     "A computation returns the same result whatever computations ran before it in the same process, never changes the arrays or "
     "dictionaries it was given, never returns storage shared with later results or (other than an input handed through unchanged) with its "
     "inputs, and leaves global numeric, warning and random state as it found it.",
     ["histories", "inputs"], "all ordered pairs of operations within a module and across modules that share code, longer sequences on "
     "selected modules, scalar and array inputs", "Each test makes one call in a fresh argument set; state leaking between calls or into "
     "arguments never shows.", ALL_FORMULA_FILES + [F + "core_physics.py", F + "core_utility.py"], [("pure functions", "all modules")],
     ["return values of call sequences, argument arrays after the call, global numeric state"],
     "explicit-state exploration of call sequences up to a depth on the implementation",
     "All sequences of operations up to the stated depth are executed on the real code and compared with isolated executions.")
prop("P18", "Results scale with the size of the structure (Froude scaling)",
     "Scaling all lengths by a factor, all times by its square root and masses by its cube scales every result by the power of the factor "
     "that belongs to its dimension, and leaves dimensionless results, damage and regime reports unchanged, in every state in which the "
     "published formula has this property.",
     ["inputs", "configurations"], "every computation whose formula is dimensionally consistent, several scale factors, every lattice state",
     "Tests fix one size per function; a dimensional slip (wrong power, hard-coded length) can hide behind one stored number.",
     ALL_FORMULA_FILES, [("dimensionally consistent formulae", "all modules")], ["pairs of return values"],
     "explicit-state exploration of pairs of executions of the implementation",
     "Every lattice state is executed at several scales on the real code; scaling is claimed where the reference model has it.")
prop("P19", "Results move in the physically required direction",
     "Raising the crest never increases overtopping, higher or longer waves never reduce overtopping, run-up or required rock size, larger "
     "or denser rock never increases damage, a rougher or more oblique situation never increases overtopping, and so on for every listed "
     "input and result. Where the published formula itself turns, the result rises and falls with it. No step, reversal or jump against that "
     "direction occurs anywhere in the explored range.",
     ["inputs", "configurations"], "a committed table of (computation, input, direction), every chain of increasing input levels at every "
     "lattice state of the other inputs", "Tests look at isolated points and cannot see the order between them.",
     ALL_FORMULA_FILES, [("monotone formulae and regime caps", "all modules")], ["sequences of return values along one input"],
     "explicit-state exploration of all increasing input chains on the implementation",
     "Directions are claimed only where the reference model has them on the same chains; the real code is executed on every chain.")
prop("P20", "Equivalent ways to give the inputs give the same result",
     "Giving an input in another documented form (rock mass instead of diameter, angle instead of influence factor, explicit default instead "
     "of omission, equal upper and lower slopes instead of one slope, volume instead of mass, percentage instead of cotangent, dimensionless "
     "instead of dimensional, run-up first instead of in one step, integer instead of float, positional in the "
     "documented order instead of by name) gives the same result. Leaving out what is needed in any form is refused.",
     ["inputs", "configurations"], "every computation with alternative inputs or defaults, every lattice state",
     "Tests use one form per function.", ALL_FORMULA_FILES + [F + "core_physics.py"],
     [("default and alternative input resolution", F + "core_physics.py and the public functions")], ["pairs of return values"],
     "explicit-state exploration of pairs of executions of the implementation",
     "Every lattice state is executed in every equivalent form on the real code.")
prop("P21", "Input files for the neural network and XGBoost tools carry the inputs",
     "The input files written for the external overtopping tools contain one line per case, with every documented quantity in its place and "
     "equal to the value given or its documented default, for scalars, arrays and any mix of both. Writing is refused or complete: no case "
     "is dropped, duplicated or mixed with another, and earlier files of the same name are replaced.",
     ["inputs", "histories"], "all mixes of scalar and array inputs, lengths, defaults and repeated writes of both writers",
     "Tests compare at most one stored file.", [OT + "denbieman2021.py", OT + "vangent2007.py"],
     [("file writers", OT)], ["bytes of the written files"], "explicit-state exploration of writer inputs and write histories on the implementation",
     "Every explored call writes into a scratch directory; the file is parsed back and compared with the model.")
prop("P22", "Design values are never less safe than best-fit values",
     "For every method with a design and a best-fit version, the design version never gives a smaller discharge, run-up, load or required "
     "size, and never a larger admissible value, than the best-fit version for the same inputs; shifting the best-fit coefficients by standard deviations moves the result one way: a "
     "smaller sigma is never less safe than a larger one.",
     ["inputs", "configurations"], "every computation with a design/best-fit choice or a confidence margin, every lattice state",
     "Tests compare each version with its own stored number and never the two with each other.", [OT, RU],
     [("coefficient selection", OT + "taw2002.py, eurotop2018.py")], ["pairs of return values"],
     "explicit-state exploration of pairs of executions of the implementation",
     "Every lattice state is executed in both versions on the real code.")
prop("P23", "Every result stays within its physical limits",
     "Coefficients and influence factors stay within their documented limits, discharges, sizes, masses, damage and forces are never "
     "negative, results of positive finite inputs are finite, the governing result is the smaller of the two regimes and the regime report "
     "says which one it is.",
     ["inputs", "configurations"], "every computation, every lattice state",
     "Tests look at isolated points in the middle of the ranges.", ALL_FORMULA_FILES,
     [("limits and minimum selection", "all modules")], ["return values"],
     "explicit-state exploration of a bounded input lattice on the implementation",
     "Every lattice state is executed on the real code; limits are claimed where the reference model has them.")

prop("P24", "Concurrent computations do not disturb each other",
     "Computations that run at the same time in several threads of one process return exactly what each of them returns when it runs alone, "
     "whichever way their steps interleave: no computation keeps intermediate values where another one can see or replace them.",
     ["schedules", "inputs"], "every pair of computations within a module and pairs across modules that share code: all schedules with one "
     "preemption at any source line, and with two preemptions at function boundaries",
     "Tests run one call at a time; shared intermediate state shows only under a particular interleaving.",
     ALL_FORMULA_FILES + [F + "core_physics.py", F + "core_utility.py"], [("re-entrant functions", "all modules")],
     ["return values of two threads"], "stateless exploration of thread schedules on the implementation under a controlled scheduler",
     "Two real threads execute the real functions under a line-level scheduler; all schedules within the preemption bound are executed.")

prop("P25", "Iterative solutions satisfy their formula for every solver setting",
     "A computation that solves its formula by iteration (required sizes, wave heights and freeboards that appear on both sides, run-up on "
     "composite slopes) returns a value that satisfies the formula to within the tolerance asked for, whatever starting value, "
     "tolerance and sufficient iteration limit the user gives: a smaller tolerance gives a closer solution, the starting value does not show in the "
     "result, the iteration limit is respected, and the rear-side computations warn if and only if they stopped without converging.",
     ["inputs", "configurations"], "every iterative computation, every lattice state of its physical inputs combined with starting values, "
     "tolerances and iteration limits",
     "Tests use the default solver settings at isolated points.",
     [ST + "stability_rock_armour/etemadshahidi2020.py", ST + "stability_rock_armour/jumelet2024.py",
      ST + "stability_rock_armour/kramerburcharth2004_lowcrested.py", ST + "stability_toe_berm/etemadshahidi2021.py",
      ST + "stability_rock_rear/", OT + "vangent2025.py", RU + "taw2002.py", RU + "eurotop2018.py"],
     [("fixed-point loops", "calculate_nominal_rock_diameter_Dn50, calculate_significant_wave_height_Hs, iteration_procedure_z2p and others")],
     ["return values and warnings"], "explicit-state exploration of inputs and solver settings; every model state replayed on the implementation",
     "The reference model runs the same fixed-point equation with its own loop; the admissible results are the iterates between the first one "
     "within tolerance and the converged one.")
prop("P26", "No number is returned where the formula has no real value",
     "Where physically meaningful inputs leave a formula without a real value (the root or logarithm of a negative number: damage below the start of damage, "
     "a level above the run-up, a discharge no crest can give), the computation returns nan or an infinity or raises an error; it never "
     "returns a finite or a complex number as if it were a result.",
     ["inputs", "configurations"], "every computation, every lattice state in which the reference model has no real value",
     "Tests stay inside the domain of the formulas.", ALL_FORMULA_FILES, [("roots, powers and logarithms", "all modules")],
     ["return values and raised exceptions"], "explicit-state exploration of a bounded input lattice; every model state replayed on the implementation",
     "The model marks the states without a real value; each is executed on the real code.")


def main():
    import sys
    sys.path.insert(0, ROOT)
    from mc.checks import REGISTRY
    have = [p for p in P if p["id"] in REGISTRY]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in have:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    m = {"version": 1, "setup_cmd": "true",
         "checks": [dict(property=p["id"], quick_cmd="./check.sh %s quick" % p["id"], thorough_cmd="./check.sh %s thorough" % p["id"],
                         technique=p["technique"], level="model_checking", level_note=p["note"]) for p in have],
         "not_applicable": [],
         "notes": "The package is pure Python and is imported from /repo's working tree by every check; nothing is built. No hooks. "
                  "Known findings and repaired defects: known_findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(len(have), "properties")


if __name__ == "__main__":
    main()
