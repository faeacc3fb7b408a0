# Regenerates MANIFEST.json (one place for techniques and notes).
import json
GRAPH = ("abstract interpretation of /repo's source into gated value graphs, compared with the reference formula's graph by normal form "
         "(remaining pairs by term-level identity testing)")
T = {
 "C01": ("abstract interpretation of every time-taking function on each kind of invalid time: no returning path, right exception class", "All paths of the call are enumerated abstractly; 'aware times pass unchanged' by value-graph comparison."),
 "C02": ("flow of the UTC offset into results (value-graph dependence), plus graph equality under a renamed offset", "Absence of flow is a proof; where the offset occurs in the graph, equality under a second offset is decided by normal form or identity testing."),
 "C03": ("closure of the backend-binding states by abstract interpretation of all switch words up to length 4, role of each binding by value graph, reachable library functions per backend", "Finite state closure; binding roles proved by graph equality."),
 "C04": ("value graphs of each function under the two backends compared by normal form / identity testing", "Real-number semantics: rounding differences are not compared."),
 "C05": ("elementwise abstract interpretation of arrays (one generic element, 'others' leaves for reductions), effect analysis for argument mutation, scalar/array graph equality", "One generic element stands for every element and shape."),
 "C06": ("effect analysis: written heap locations, nondeterminism sources flowing into results, second call analysed in every state a first call can leave", "Histories longer than two calls follow by the closure of written state only where the second call writes nothing new."),
 "C07": (GRAPH, "Real-number semantics with tolerance 1e-9 day."),
 "C08": (GRAPH + "; tables exhausted over every year and month; warning condition compared", "The published TAI-UTC steps in spec/ref.py are trusted."),
 "C09": (GRAPH + "; table exhausted over every year and month", "The table of spec/tables.py (the published values) is trusted."),
 "C10": (GRAPH + "; every series term compared", "The published series in spec/tables.py is trusted."),
 "C11": (GRAPH + "; every series term compared", "The published series in spec/tables.py is trusted; one recorded finding."),
 "C12": (GRAPH, "Reference formulas trusted; recorded findings are matched exactly."),
 "C13": (GRAPH, "Reference formulas trusted."),
 "C14": (GRAPH + " over every calling form (position, keyword, defaults, each optional argument alone)", "Reference chain trusted; recorded findings are matched exactly."),
 "C15": (GRAPH, "Reference formulas trusted."),
 "C16": ("interval analysis and range lemmas over the value graph; candidate escapes searched on the term and confirmed with 50 digits", "Ranges not proved by intervals are only tested on the term."),
 "C17": ("collection of every raising primitive with its path condition (division, arc functions, table index, exponent overflow, names, arities); unsatisfiability by interval and sign lemmas, rounding-escape analysis for arc arguments", "Hazards not discharged by a lemma are searched on the term only."),
 "C18": (GRAPH + "; day/night gate and bounds on the graph", "Reference formulas trusted."),
 "C19": (GRAPH + "; failure condition, local-day dependence, order and symmetry decided on the graph", "Order is tested on the term, the rest by graph equality."),
 "C20": (GRAPH + " over every calling form", "Reference correlations trusted; recorded findings are matched exactly."),
 "C21": (GRAPH + " over every calling form; warning condition compared", "Reference formulas trusted."),
 "C22": ("abstract interpretation of the generators: step term, count term, and unrolled spans compared with the reference per step", "Count is decided at span/step cells, the rest for every start, place and condition."),
 "C23": (GRAPH + "; name resolution and call/signature matching of every call in rest.py", "REST2 coefficients of spec/ref.py are trusted; four broken functions are recorded findings."),
 "C24": ("unit inference (degrees / radians) over the value graphs with units of parameters and results; a conflict counts where the value differs from the reference; single-conversion repair of differing graphs", "Unit errors whose value equals the reference cannot exist."),
 "C25": ("comparison of the stub syntax trees with the abstractly interpreted modules: parameters, defaults, constants, abstract calls and result types", "Type precision is that of the stubs."),
}
NA = {
 "C26": "Accuracy against the Naval Observatory's ephemeris is a numerical closeness to external observations over all instants; no sound static argument bounds it, and comparing computed values at sampled dates would be testing.",
 "C27": "The distance between two different approximations over all inputs is a numerical bound no static argument in reach gives (interval analysis of the full series is orders of magnitude too wide).",
 "C28": "That the precise altitude is near the horizon at the returned times is a numerical statement about the composition of two approximations; no sound static bound is in reach.",
}
m = dict(version=1, setup_cmd="python3-vt -c 'import numpy, mpmath'",
         checks=[dict(property=k, quick_cmd="python3-vt check.py %s" % k, thorough_cmd="python3-vt check.py %s --thorough" % k,
                      technique=t, level="other", level_note=n) for k, (t, n) in sorted(T.items())],
         not_applicable=[dict(property=k, reason=r) for k, r in sorted(NA.items())],
         notes="Static analysis only: the checks parse /repo/pysolar on every run and never import or execute it. UNDECIDED obligations never raise an alarm. See DESIGN.md.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
