#!/usr/bin/env python3
"""Write /verif/MANIFEST.json for the properties that have a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; generated scripts replayed into the code and recorded executions validated by a TLC trace spec"
NOTES = {
 "C01": "Finite fields: every operation on every pair of elements (exhaustive). Rationals: a fixed set of pairs plus seeded register programs, exact beyond 64-bit products through BigNat. Trusts TLC and == / one() to name values.",
 "C02": "Design model exhaustive for multisets of <= 5 terms on 3 rows over F_3 incl. the coalescing loop; one script per transition of that graph plus random programs over 7 fields and 40 index/filtration type pairs, heaps of up to 1,100 terms.",
 "C03": "Laws of the view algebra exhaustive for 2x2 matrices over F_2 and F_3; every program of <= 2 adaptors replayed, random nestings beyond (columns up to 1,100 entries, 4,200 columns when thorough).",
 "C04": "As C03, with programs that weigh towards adaptors: filtrations, bases, sub-bases, index views, look-ups and smart pointers.",
 "C05": "Every interleaving of opening, advancing and dropping iterators over small caches and products of caches is replayed; random histories up to 1,030 columns (4,200 when thorough) with a recording matrix underneath.",
 "C06": "As C03, with programs that weigh towards reversal; per-dimension and total bases, filtered columns, pivots, look-ups.",
 "C07": "Design model: on every 3x3 matrix over F_2 and 2x2 over F_3 the stepwise algorithm refines the decomposition and terminates. Recorded runs on all of those, random ones up to 140 columns, chains of hundreds of additions, wide inputs of thousands.",
 "C08": "Design model: whatever reduced columns are taken, the pairing is the rank pairing (exhaustive on small matrices). Recorded diagrams are compared with ranks computed by the trace specification.",
 "C09": "ClrAlgo is exhaustive for all graded complexes of <= 5 cells over F_2 and 4 over F_3, partial dimension ranges included; recorded runs on those, random ones up to 140 cells and wide ones of thousands.",
 "C10": "As C09; diagrams of both algorithms are compared with the rank pairing, and with partial ranges.",
 "C11": "The requests of both algorithms and of random adaptor programs are recorded and each is checked against what the specification allows at that point.",
 "C12": "Codec exhaustive for few points, sampled up to the representable limit with exact big numbers; bases for every small distance matrix, random ones up to 300 points and dimension 9.",
 "C13": "Every view over every field on all simplices of up to 5 points, every small distance matrix, random ones up to 300 points and 12 vertices.",
 "C14": "Barcode by ranks from the definition, on every small distance matrix, all routes and fields, spheres and a projective plane (field dependent), up to 50 points (75 when thorough) in degree 0.",
 "C15": "The compiled program on generated CSV texts; its output is parsed into multisets and compared with the barcode by ranks; numbers at many scales and formats.",
 "C16": "Omega_2 from the kernel definition against the cells the code reaches, on all digraphs with 3 nodes and two times, random ones up to 11 nodes, large sparse, wheel and bundle digraphs.",
 "C17": "Bars by ranks from the definition on all digraphs with 3 nodes over 4 weights, random ones up to 14 nodes, wheels up to 92, bundles of two-paths, sparse graphs of 300 nodes.",
 "C18": "Each representative is certified by the trace specification (cycle, birth, death by spans), on the inputs of C17 with emphasis on graphs with many finite bars.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "lib", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH,
                       "level": "model_checking", "level_note": NOTES.get(i, "Exhaustive on the stated small instances, sampled beyond them.")})
    else:
        na.append({"property": i, "reason": "not built yet: the check for this property is still under construction"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the harness crates use only public items of /repo. Seed and tier come from VERIF_SEED / VERIF_TIER."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
