SOLVERS = ["gauss1809", "battin1984", "jiang2016", "pan2016", "gooding1990", "der2011", "thorne2004", "avanzini2008",
           "arora2013", "vallado2013", "izzo2015", "negrete2024", "mcelreath2025", "delatorre2018"]
MULTI = ["gooding1990", "der2011", "arora2013", "izzo2015", "negrete2024", "mcelreath2025", "delatorre2018"]
SINGLE = [s for s in SOLVERS if s not in MULTI]

TRUST = [
    "numbers of the code are exact reals in the symbolic execution: floating-point rounding, overflow and fastmath are outside "
    "the claim (counterexamples are confirmed on the real floating-point code)",
    "lhsym (symbolic executor and algebra in /verif/lhsym) and z3 5.3 are trusted; numba is replaced by plain execution of the same source",
    "undecided obligations (solver timeout, code the executor cannot follow, identity not reduced) are not claims: they are counted "
    "in the evidence and only searched for counterexamples at points of the path",
]
