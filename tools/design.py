#!/usr/bin/env python3
# Regenerates the "Properties" section of DESIGN.md from the property list, the harness bounds and the oracles below.
import os, re, sys, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(HERE, "tools"))
import props
O = dict(
P01="the row-major position computed with plain arithmetic; an index is accepted iff it designates an element after wrapping negative values; `safe` access gives the same element.",
P02="a plain array kept next to the vector through a symbolic sequence of operations; `dims`, `size()`, `empty()` and contents compared after every step.",
P03="the list of selected positions computed by the harness for each kind of index (scalar, index vector, boolean mask, `_`, ranges); the view must have these elements, in this order, writable and aliased; everything else stops the program.",
P04="the same assignment done through an explicit copy of the right side.",
P05="the scalar C++ operator applied to each element, for every operand form (vector, view, temporary, scalar, in place).",
P06="the index arithmetic of the documentation (`reform`, `flatten`, `transpose`, `replicate`, `shift`, `reverse`, `mult_ids`, `flat_id`...).",
P07="permutation + order + stability: each index once, keys non-decreasing with NaN last, ties in the original order; `is_sorted` agrees.",
P08="the expected sequence built element by element, for every dimension and for aliased arguments.",
P09="the definition of each selection, evaluated for each index.",
P10="the definition of match (pairs of equal values), multiset intersection/union/difference counted value by value.",
P11="the definition (last value <= x, first value > x) evaluated by a linear scan; for `astar_find` the minimal distance over all flagged cells.",
P12="order statistics by counting smaller and equal elements.",
P13="sums over the elements of each slice with explicit loops; element coverage for `run_dim`/`reduce`/`partial_*`.",
P14="the line through the two neighbouring points, exact rational values on the chosen grids; integrals as sums of trapezia.",
P15="membership `low <= x < up` of each value in each bin.",
P16="the scalar function on each element; arithmetic progressions.",
P17="naive string matching and editing, character by character.",
P18="concatenation laws (the pieces put together give the text back) and the position of each separator.",
P19="for every interleaving: each index/task executed exactly once, all finished at return, no data race, no deadlock.",
P20="a state machine over the path characters; for directory operations a model of `mkdir`/`readdir`/`stat` with symbolic outcome.",
P21="sums of products; `A*x == b`, `A*inv == 1`, `L*L^T == A`, determinant by expansion.",
P22="the normal equations checked exactly on designs that are inverted without rounding, chi2 recomputed.",
P23="orientation tests in exact integer arithmetic; distance to each segment.",
P24="a direct reading of the grammar of arguments, character by character; write then read.",
P25="a line/field splitter written over the raw characters; write then read.",
P26="a recogniser of the grammar of each type over raw characters; write then read.",
P27="the pixel formula of each operation, with a default outside of the image.",
P28="connected components by label propagation; rules of the deblending replayed on the returned map; distances to all pixels.",
P29="a small backtracking matcher over the characters (leftmost-longest), iterated over the string; the native replay uses libc's regexec.",
P30="the deviate is a symbolic double: each result is compared with the cell of [0,1) it comes from; permutations by marking.",
)
def bounds(p):
    return " ".join(l[8:].strip() for l in open(os.path.join(HERE, "harness", p + ".cpp")) if l.startswith("//BOUND"))
def wall(p):
    return ""
out = []
for d, note in props.P:
    p = d["id"]
    out.append("### %s %s\n\n* Encoded: the functions of %s reached from `harness/%s.cpp` (listed by name in the evidence).\n* Oracle: %s\n* Bounds: %s.\n* Why beyond tests: %s.\n" % (p, d["title"], ", ".join("`%s`" % f for f in d["anchors"]["files"]), p, O[p], bounds(p).rstrip("."), d["why_tests_cant"]))
for d, reason in props.N:
    out.append("### %s %s (not applicable)\n\n%s\n" % (d["id"], d["title"], reason))
f = os.path.join(HERE, "DESIGN.md"); s = open(f).read(); a = "<!-- properties -->\n"; b = "<!-- end of properties -->\n"
i = s.index(a) + len(a); j = s.index(b); s = s[:i] + "\n" + "\n".join(out) + "\n" + s[j:]
rows = ["| planted bug | property (caught by its quick check) | needs |", "|---|---|---|"]
for n in sorted(os.listdir(os.path.join(HERE, "seeded"))) if os.path.isdir(os.path.join(HERE, "seeded")) else []:
    m = json.load(open(os.path.join(HERE, "seeded", n, "meta.json"))); rows.append("| %s: %s | %s | %s |" % (n, m["what_it_breaks"].replace("|", "/"), m["property"], m["needs"].replace("|", "/")))
a = "<!-- seeded -->\n"; b = "<!-- end of seeded -->\n"; i = s.index(a) + len(a); j = s.index(b); s = s[:i] + "\n" + "\n".join(rows) + "\n\n" + s[j:]
open(f, "w").write(s)
