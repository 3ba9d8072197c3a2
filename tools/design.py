#!/usr/bin/env python3
"""Developer tool: regenerates DESIGN.md from tools/design_head.md, the property table and the evidence of the last quick runs."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
 "C01": "a plain vector (or map of points); folds are computed left to right over the free monoid (words), affine maps and max/sum; predicates by scanning",
 "C02": "a plain vector; each update applied element by element in call order; free (word) actions make any reordering visible",
 "C03": "every version is a plain copy kept by the harness; all versions are queried after each step, so leaks between versions show",
 "C04": "plain vectors / maps and prefix loops",
 "C05": "plain vector under insert/erase/split/merge/rotate/reverse/fold/apply, for each enumerated priority seed",
 "C06": "plain vectors and multisets; persistent ones: every old version re-read after each operation",
 "C07": "plain vectors, std::map and std::set models",
 "C08": "explicit partition (vector of labels) with explicit potentials, undo by keeping copies",
 "C09": "sorted multisets, sliding scans, brute-force minima",
 "C10": "vectors of bool / integers, counting by scanning",
 "C11": "minimum over all inserted lines / rows / intervals by scanning",
 "C12": "multisets of integers, interval sets as bit masks, families of sets as bit masks, definition of common intervals",
 "C13": "Floyd-Warshall / Bellman-Ford / BFS on adjacency matrices, enumeration of all walks",
 "C14": "connectivity after deleting each vertex/edge, enumeration of orders and spanning structures",
 "C15": "minimum over all cuts, maximum over all matchings (subset enumeration), enumeration of all flows",
 "C16": "enumeration of all vertex subsets/colourings/orders; the recorded tree decomposition is re-executed against its definition",
 "C17": "definitions by enumeration over all subsets, tuples or orders of vertices",
 "C18": "parent-chain walks on all labelled / parent-array trees",
 "C19": "explicit forest with path lists; after each operation all pairs are compared",
 "C20": "distance matrices; subtree recursion from every root; canonical forms by AHU strings",
 "C21": "direct comparison of substrings",
 "C22": "trial division, direct counting; independent 128-bit modular exponentiation near limits",
 "C23": "128-bit arithmetic, enumeration of all residues/exponents",
 "C24": "128-bit cross products, enumeration of all fractions/solutions",
 "C25": "schoolbook arithmetic on decimal digit vectors",
 "C26": "defining double sums",
 "C27": "plain O(n^2) coefficient loops and defining identities",
 "C28": "recurrence tables, subset sums, enumeration",
 "C29": "permutation expansion, enumeration of all vectors and spans",
 "C30": "exact rational predicates on grids, triangle cover, slice integration",
 "C31": "truth tables, rectangle scans, connectivity recomputed at each query, direct scans of ranges",
 "C32": "direct definitions with wide integers; explicit lists of live objects",
 "C33": "independent printers, evaluator and renderer",
 "C34": "mex definition of nim product, function values at every point",
}
out = [open(HERE + "/tools/design_head.md").read()]
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
out.append("\n## 3. The properties\n\nFor each: the reference model (oracle), the explored groups with bounds (thorough bounds in parentheses) and the size of the quick exploration (states / comparisons) on the unchanged tree.\n")
for p in props:
    i = p["id"]; out.append(f"\n### {i} {p['title']}\n\nOracle: {ORACLE[i]}.\n")
    ef = f"{HERE}/evidence/{i}.json"
    if os.path.exists(ef):
        e = json.load(open(ef)); c = e["coverage"]
        out.append(f"\nQuick cost: about {max(5, round(e['wall_s'] / 5) * 5)} s on 8 cores; {c['states']} states, {c['transitions']} comparisons, {c['traces_validated_against_impl']} executions.\n\n")
        for g in c["groups"]: out.append(f"* `{g['unit']}/{g['group']}`: {g['bounds'] or 'see source'} — {g['states']} / {g['transitions']}\n")
rows = ["| planted change | check that catches it | what it breaks |\n|---|---|---|\n"]
for d in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    m = json.load(open(d)); rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} |\n")
out.append("\n" + open(HERE + "/tools/design_tail.md").read().replace("@SEEDS@", "".join(rows)))
open(HERE + "/DESIGN.md", "w").write("".join(out))
