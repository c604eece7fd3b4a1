"""Technique and level notes of MANIFEST.json."""
DEFAULT_TECH = "runtime monitoring: reference-model oracle over recorded calls of the real code"
DEFAULT_NOTE = ("Held on the executions generated (counts in the evidence file), judged by an independent reference model; "
                "trusts the reference model, the py2compat loader and the generators' coverage.")
_ORACLE = {
    "C01": ("datetime calendar; a 73×5-day table built here",
            "every day of 816 years, every (month, day) −1..14 × −1..33, pentads −3..79, months −30..40, random month ranges, impossible ranges must end"),
    "C02": ("ordinals and rational hours",
            "800 (quick) / 9999 (thorough) whole years; 40 000 pairs/triples; antisymmetry, additivity"),
    "C03": ("exact Fraction containment plus the documented edge rule",
            "60 000 positions on/near edges at 7 resolutions, both longitude conventions; all cells there and back"),
    "C04": ("unit-vector geometry",
            "100 000 pairs, moves, triangles: tiny, antipodal, poles, dateline; symmetry, periodicity, consistency of course+distance with end point"),
    "C05": ("independent solar ephemeris (Astronomical Almanac low precision)",
            "24 000 reports half of which near sunrise/sunset, 1850–2024; skips ±0.03° (0.45° before 1902); the sun's elevation itself on 10 000 times"),
    "C06": ("documented inequality in exact rationals",
            "70 000 argument tuples on dyadic lattice incl. exact limits and every None pattern"),
    "C07": ("calendar rules written out",
            "48 000 tuples, all days 1850–2024, reports with corrupt fields built and checked"),
    "C08": ("lists of the two papers transcribed here",
            "every (year, region) at corners/edges/centre in both longitude conventions, 49 000 random reports"),
    "C09": ("flag-by-flag model (basemodel.py)",
            "12 000 reports × all base QC routines, 1–3 times, interleaved; exact flag set, data unchanged"),
    "C10": ("a field whose cells all have their own value",
            "16 000 lookups, 240 NetCDF files in every orientation/packing/rank, 500 library histories"),
    "C11": ("exact rational bilinear interpolation with fill rule",
            "16 000 corner sets (all 16 gap patterns), 3000 fields"),
    "C12": ("Buck/Jensen formulae, inverses, monotone chains",
            "20 000 conversions, 6000 reports"),
    "C13": ("Bayes' rule with erfc integrals; sums over all quantised values",
            "8000 parameter sets"),
    "C14": ("IMMA1 column layout table (imma_layout.py) written from the format",
            "3000 records with random attachments, three decode/encode rounds; files; reduced readers"),
    "C15": ("dictionary model, compared completely after every step",
            "500 histories of ≤60 updates over three reports"),
    "C16": ("tuple order, vector geometry, list model",
            "orders, differences, 400 voyage histories with full state comparison after every step"),
    "C17": ("list model by object identity",
            "600 histories append/sort/index/pop/visit/filter/split"),
    "C18": ("sparse reference neighbourhoods (buddy.py)",
            "120 decks, 120 decks with a report moved just inside/outside its limit, multiplier table; reversed order"),
    "C19": ("same neighbourhoods + independent posterior",
            "120 + 100 decks; digits compared, undecided when a digit boundary is within rounding"),
    "C20": ("sparse dictionaries over the full 360×180×73 array",
            "160 clouds at poles/dateline/year end"),
    "C21": ("three-valued reference of MDS rules (trackmodel.py)",
            "1200 voyages, 500 five-pass, 400 ingredients, 3000 rule cases"),
    "C22": ("reference greedy removal",
            "1000 voyages; no accepted pair too fast; time shift"),
    "C23": ("reference greedy removal",
            "1000 series; offset invariance"),
    "C24": ("direct counts",
            "4000 voyages, thresholds at/around actual fractions"),
    "C25": ("reference smoothing/windows (drift.py) + metamorphic (rotate, mirror, shift, convention)",
            "500 records"),
    "C26": ("enumeration of windows",
            "600 records"),
    "C27": ("reference of the tail check (sstdrift.py)",
            "2500 records; reversal swaps tails"),
    "C28": ("same, record statistics",
            "1200 records"),
    "C29": ("CSV reader, every cell",
            "1500 directories written by every writer"),
    "C30": ("own selection/climatology lookup/grouping; single checks applied directly",
            "36 archives through the real main of three programs; every row, value, flag, file compared"),
    "C31": ("exhaustive chunk patterns; recorded job arguments; every output cell",
            "all patterns 1–9 months × gaps; driver with stand-in sbatch/squeue/python; tracking_qc on generated files"),
    "C32": ("own expansion; directory listings; file bytes",
            "8500 cases"),
    "C33": ("order statistics and fsum + permutation/shift/scale/outlier relations",
            "20 000 lists"),
    "C34": ("complete before/after state of every report",
            "150 sequences of 4–14 checks on shared reports, each check repeated and compared with fresh copies"),
    "C35": ("monitor that refusal comes before any flag is touched",
            "one fault injected at a random place of a record for six drifter checks; table of argument domains at and beyond their ends"),
}
TECH = {k: "runtime monitoring of the real code; oracle: " + v[0] for k, v in _ORACLE.items()}
NOTE = {k: "Workload: %s. Sampled unless the evidence marks a stream's finite space completed; trusts the oracle in props/, the py2compat loader and the generators." % v[1] for k, v in _ORACLE.items()}
