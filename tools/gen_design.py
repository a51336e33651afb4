#!/usr/bin/env python3
"""Writes DESIGN.md: fixed text (tools/design_head.md, design_tail.md), per property sections from properties.jsonl, the
oracles below and the bounds annotated in the harnesses, and the planted changes of seeded/ with tools/caught.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
"C01": "A plain array of last written values (the map itself). Edits are chosen symbolically (kind, position), values are symbolic reals with zero allowed; after every history presence, counts per row and in total, values read by at/has/iterators are compared with the array.",
"C02": "The list of present positions in row-major (row, column) order computed from the model array; the real iterators are walked and compared; writes and erasures through iterators are followed by a full comparison.",
"C03": "The same operation on plain arrays by definition; results compared as polynomials, presence and counts checked against the values (cancellation included), operands compared with their copies, aliased operands included.",
"C04": "A model of each object (dimensions and contents) updated by definition; every operation pair on dense, fixed, sparse and vectors; the executor checks every load and store against live storage and the heap balance at the end.",
"C05": "Entrywise textbook definitions on plain arrays; equality of polynomials, so all real or complex entries are covered at once.",
"C06": "Index exchange and sign of imaginary parts by definition on plain arrays; double application; presence.",
"C07": "Definitions of the vector operations by explicit sums; complex included; equality with sizes and all elements.",
"C08": "Fold over all elements with the comparison written out; queries compared with the existence of such an element; special values NaN and infinities are symbolic choices.",
"C09": "All shape combinations within the bound; an operation must throw a library exception exactly when the shapes are incompatible, operands unchanged, no access out of range.",
"C10": "Definitions evaluated on plain arrays by an independent computation; predicate equals definition on every path.",
"C11": "Definitions of the named matrices (exact rationals for Hilbert and its inverse); offsets as free 32 bit numbers.",
"C12": "Independent specification of the breadth first numbering evaluated on the returned order, for every pattern (presence bits are the symbolic part).",
"C13": "Index definition of permutation and conjugation; corresponding solutions of a system and its permuted form.",
"C14": "Multiplying back: P A = L U as rational function identity, factors' shapes, pivot choice maximal, singular report exactly when no pivot above the tolerance.",
"C15": "Leibniz expansion; product with the inverse is the identity from both sides.",
"C16": "Residual of the original system is zero.",
"C17": "Product with own adjoint; rejection exactly when a leading minor is not positive.",
"C18": "Product restricted to the pattern; factors confined to the pattern; inverse by multiplication.",
"C19": "Textbook update computed componentwise beside the run; sweep count from the stop rule.",
"C20": "Exact solution characterised by zero residual after n steps; step bound and stop rule.",
"C21": "Affine map of the reference simplex; determinant expansion; barycentric functions.",
"C22": "Squared distances to the centre equal; longest side; midpoint, orthogonality, unit length and side of the normal.",
"C23": "Scalar products zero, unit length, sign of the determinant.",
"C24": "Quantified definition over all pairs of elements and faces, evaluated on the mesh; symbolic choice of all triangle sets.",
"C25": "Reference-counted model of the shared parts; the executor reports double free, use after free and leaks on every path.",
"C26": "Grid points by definition with symbolic extents; area sum; rim by index.",
"C27": "Nodal conditions, partition of unity, derivatives by formal differentiation (finite algebra on symbolic points), interpolation of symbolic polynomials.",
"C28": "Node sets per element and face, numbering a bijection, coordinates midpoints.",
"C29": "Moments of the simplex in closed form with symbolic polynomial coefficients (bounded by 1), tolerance 1e-7 or finer; every node inside the reference domain.",
"C30": "Own recogniser of well-formed text; number tokens are compared with the value of the same token text; totality by path exhaustion with memory checks; listed single faults with the exception each must raise.",
"C31": "Stand-in parser handing out any description (symbolic coordinates and indices), the real loader is executed on it; a second unit runs the vendored parser on well-formed text.",
"C32": "A small XML reader parses the written text back and compares it with the mesh; numbers are carried symbolically through the text.",
"C34": "Own scanner of the written text; numbers are carried symbolically through the text and compared with the entries.",
"C35": "Extremes found by the harness with its own comparisons on plain arrays; the square of the returned root equals the sum.",
"C36": "Identities of the Galerkin method (rational identities in the free vertex for order 1; linear in the polynomial coefficients with tolerance 1e-6 for order 2, because the tabulated quadrature constants are rounded); solutions compared with the polynomial.",
"C33": "Exact integer or rational definitions; results that fit the type must be exact, all argument values within the bound (bit-precise floating point in mode fp).",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
o = [open(V + "/tools/design_head.md").read().rstrip(), "", "## 5. Property by property", "",
     "Every property is decided by the same machinery (section 2). Listed are the oracle and the harness entries with their bounds; parameters are those of the quick tier, thorough ones in brackets.", ""]
for p in props:
    o += ["### %s %s" % (p["id"], p["title"]), "", "Anchors: " + ", ".join(f.replace("src/", "") for f in p["anchors"]["files"]) + ".", "", "Oracle: " + ORACLE[p["id"]], ""]
    for f in sorted(glob.glob(V + "/harness/" + p["id"] + "*.cpp")):
        for l in open(f):
            m = re.match(r"\s*// SV:\s*(\{.*\})\s*$", l)
            if m:
                e = json.loads(m.group(1))
                q, t = e.get("quick", []), e.get("thorough", [])
                s = "- `%s`%s" % (e["entry"], " (bit-precise floating point)" if e.get("mode") == "fp" else "")
                if any(q):
                    s += " " + " ".join(",".join(map(str, x)) for x in q)
                if any(t):
                    s += " [" + " ".join(",".join(map(str, x)) for x in t) + "]"
                s += ": " + e.get("bound", "")
                o.append(s)
                for a in e.get("assume", []):
                    o.append("  - assumes: " + a)
    o.append("")
o += ["## 6. Planted changes", "", "Each is in seeded/<id>/ with patch, demonstration and what it needs; all were confirmed in a scratch clone (builds, stable tests pass, demonstration fails with the patch only). Last column: result of the quick check of the property.", "",
      "| id | property | needs | quick check |", "|---|---|---|---|"]
res = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    i = os.path.basename(d)
    o.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), res.get(i, "")))
o += ["", open(V + "/tools/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(o))
