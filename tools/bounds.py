"""Writes harness/bounds.h from calibration runs of c07 and c08 (see DESIGN.md).

  VERIF_CAL=/tmp/cal7 <c07 binaries> ; VERIF_CAL=/tmp/cal8 <c08 binaries> ; python3 tools/bounds.py /tmp/cal7 /tmp/cal8
Bounds are 1.6 times (sorted, equal and reversed sequences: 1.35 times) the highest ratio observed, plus 0.25, rounded up to a tenth.
"""
import math, os, sys

QUADRATIC = {("container_aware<selection>", None), ("drop_merge<insertion>", None),
             ("hybrid<selection,insertion,drop_merge>", "list"), ("hybrid<selection,insertion,drop_merge>", "forward_list")}
# documented as linear in the best case
BEST_N = """adaptive_shivers cartesian_tree drop_merge insertion mel pdq quick_merge quick slab smooth spin splay split
tim verge wiki0 wiki20 wiki512 wiki_dyn_half wiki_dyn_sqrt block64 drop_merge<heap> drop_merge<insertion>
drop_merge<out_of_place<spin>> split<poplar> split<quick_merge> verge<smooth> verge<merge> out_of_place<smooth>
out_of_place<tim> out_of_place<verge<pdq>> schwartz<tim> schwartz<pdq> self_sort<mel> comparisons<splay>
counting<quick> projections<wiki> stable<verge<heap>> stable<pdq> make_stable<slab> pdq_branchless
verge_branchless schwartz<pdq>_branchless comparisons<pdq>_branchless""".split()
# sorted sequences of distinct values cost n log n
ONLY_EQUAL = {"quick", "counting<quick>"}


def load(path):
    best = {}
    for l in open(path):
        t, w, v, n = l.strip().split("|")
        best[(t, w)] = max(best.get((t, w), 0), float(v))
    return best


def up(x, f=1.6):
    return math.ceil((f * x + 0.25) * 10) / 10


out = ["// Generated by tools/bounds.py from calibration runs: do not edit.", "#ifndef BOUNDS_H_", "#define BOUNDS_H_", "#include <cstring>", "namespace bounds", "{",
       "template<typename T> struct id { using type = T; };",
       "// maxima per n log2 n (n^2 for the quadratic sorters, n log2(n)^2 without memory)",
       "struct Worst { double cmps, projs, moves; };", "inline Worst worst(const char* name, const char* where)", "{",
       "    static const struct { const char *name, *where; Worst w; } t[] = {"]
cal = load(sys.argv[1])
for t, where in sorted({(t, w.rsplit(" ", 1)[0]) for t, w in cal}):
    if (t, None) in QUADRATIC or (t, where) in QUADRATIC:
        continue
    out.append('        {"%s", "%s", {%.1f, %.1f, %.1f}},' % (t, where, *[up(cal[(t, where + " " + q)]) for q in "cpm"]))
out += ["    };", "    for (auto& e: t) if (!std::strcmp(e.name, name) && !std::strcmp(e.where, where)) return e.w;",
        "    return {0, 0, 0};", "}", "// maxima per n; none: nothing claimed", "struct Best { double cmps, moves; };",
        "inline Best best(const char* name, const char* where, const char* kind)", "{",
        "    static const struct { const char *name, *where, *kind; Best b; } t[] = {"]
cal = load(sys.argv[2])
for t, where, kind in sorted({(t, *w.split()[:2]) for t, w in cal}):
    if t not in BEST_N or (t in ONLY_EQUAL and kind != "equal"):
        continue
    c, m = (cal[(t, "%s %s %s" % (where, kind, q))] for q in "cm")
    if c > (9.5 if kind in ("sorted", "equal", "reversed") else 7.2) and not (kind in ("sorted", "equal") and t in ("stable<verge<heap>>",)):
        continue
    f = 1.35 if kind in ("sorted", "equal", "reversed") else 1.6
    out.append('        {"%s", "%s", "%s", {%.1f, %.1f}},' % (t, where, kind, up(c, f), up(m, f)))
out += ["    };", "    for (auto& e: t) if (!std::strcmp(e.name, name) && !std::strcmp(e.where, where) && !std::strcmp(e.kind, kind)) return e.b;",
        "    return {0, 0};", "}",
        "// heap bytes per element, stack bytes per log2 n", "struct Space { double bytes, stack; };", "inline Space space(const char* name, const char* where)", "{",
        "    static const struct { const char *name, *where; Space s; } t[] = {"]
cal = load(sys.argv[3])
for t, where in sorted({(t, w.rsplit(" ", 1)[0]) for t, w in cal}):
    out.append('        {"%s", "%s", {%.1f, %.0f}},' % (t, where, up(cal[(t, where + " b")]), 4 * cal[(t, where + " s")] + 10))
out += ["    };", "    for (auto& e: t) if (!std::strcmp(e.name, name) && !std::strcmp(e.where, where)) return e.s;",
        "    return {0, 0};", "}", "}", "#endif", ""]
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "bounds.h"), "w").write("\n".join(out))
