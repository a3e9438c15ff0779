#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json: a check for every checks/cNN.py, a reason for every other property."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RANK = "abstract interpretation of the resolved program over complete finite order/sign partitions"
TECH = {
 "C01": RANK, "C02": RANK, "C03": RANK, "C04": RANK, "C05": RANK,
 "C06": "abstract interpretation of the resolved program over bounds n + f with n an arbitrary integer and f an arbitrary fraction, decided by linear inequalities",
 "C18": "abstract interpretation of the resolved program over arbitrary integer and fractional parts, decided by linear inequalities",
 "C19": "abstract interpretation of the resolved program over arbitrary integer and fractional parts, decided by linear inequalities",
 "C20": "abstract interpretation of the resolved program over opaque bits with state splitting",
 "C21": "abstract interpretation of the resolved program over opaque bits and terms with state splitting",
 "C22": "abstract interpretation of the resolved program over opaque bits with state splitting",
 "C23": "abstract interpretation of the resolved program over opaque membership bits with state splitting",
 "C17": "flow-sensitive lock-set and lock-order analysis over the resolved program in its thread-safe configuration",
 "C24": "abstract interpretation of the resolved program over all prefix relations of opaque channel names and all levels",
 "C25": "abstract interpretation over an interval domain with unit tables and grammar expressions read from the resolved program",
 "C12": "abstract interpretation of equality operators and hash functions with hash values as terms over uninterpreted hashes of numbers, ids and strings",
 "C16": "abstract interpretation of the pools and managers over creation and release histories",
 "C26": "abstract interpretation of the resolved program over integers residue + size * J with J an arbitrary integer",
 "C27": "fixpoint of the reachable abstract states under the public operations",
 "C14": "abstract interpretation of the resolved program over opaque field coefficients with zero/non-zero state splitting",
 "C15": "abstract interpretation of the resolved program over opaque field coefficients, results compared as polynomial identities",
 "C10": "abstract interpretation of the resolved program over opaque ordered coefficients with state splitting, answers compared with the documented order",
 "C11": "abstract interpretation of the resolved program over all pairs of exponent vectors of bounded size",
 "C13": "abstract interpretation of the resolved program over opaque field coefficients with zero/non-zero state splitting",
 "C09": RANK,
 "C35": "abstract interpretation of the resolved program over an enclosure domain: every interval carries the expressions it is known to contain",
 "C36": "abstract interpretation of the resolved program over opaque non-zero coefficients, answers compared with the terms written out",
 "C08": "abstract interpretation of the resolved program over opaque coefficients with integrality and fraction facts, results compared as solution sets",
 "C07": "exhaustive constant propagation over enumeration tables",
}
TRUST = "trusts the exporter, the abstract interpreter and the models of standard library and GMP primitives"


def bounded(what):
    return "static verdict for every class of coefficient and value behaviour, but for operands of bounded size only: %s; %s" % (what, TRUST)


NOTE = {
 "C02": "static verdict for every class of a finite partition that is complete for the operations the code applies; containing an integer: the integer parts of the bounds are at most three apart, else arbitrary; " + TRUST,
 "C06": "static verdict for arbitrary bounds whose integer parts are at most four apart (three for the Stern-Brocot variant, which is followed for its first seven undetermined comparisons); the median of a boost interval is modelled; " + TRUST,
 "C18": "static verdict for all rationals whose numerator and denominator are an integer root plus any fraction; roots of degree 2 to 4; the integer roots of GMP are modelled; root functions of double are not analysed; " + TRUST,
 "C19": "static verdict for operands of every sign that are 0, 1 or any larger integer plus any fraction; powers 0 to 9; reciprocals of single-term values; double is not analysed; " + TRUST,
 "C05": "static verdict for every class of a finite order/sign partition; powers are analysed for exponents 0 to 8 only; " + TRUST,
 "C08": bounded("polynomials of up to three terms of degree at most three, integer variables tested at the seven multiples around the threshold; coprime scaling and definiteness of multi-term polynomials are taken as given"),
 "C10": bounded("polynomials of up to three terms of degree at most two in two variables"),
 "C11": bounded("monomials in three variables with exponents at most two"),
 "C13": bounded("polynomials of up to four terms of degree at most three, one public operation (a few pairs of operations) from any admissible state"),
 "C14": bounded("univariate polynomials of up to five coefficients, one public operation from any admissible state"),
 "C15": bounded("univariate polynomials of up to five coefficients, multivariate ones of up to four terms of degree at most three"),
 "C17": "flow-sensitive, path-insensitive verdict for every call path from the analysed entry points; " + TRUST,
 "C20": bounded("bit widths 1 to 5, 8, 63 to 66, 70 and 130, opaque bits"),
 "C21": bounded("operand widths 1 to 3 and the term shapes each constructor inspects"),
 "C22": bounded("the storage sizes enumerated by the check, all bits opaque"),
 "C23": bounded("instances of up to four sets and four elements"),
 "C24": bounded("channel paths of up to four components, three of the eight levels"),
 "C35": bounded("polynomials of up to three terms with exponents at most three in two variables; single interval operations are taken as sound (C03, C05), roots are not analysed"),
 "C36": bounded("polynomials of up to four terms of degree at most three in three variables, 13 uninterpreted and 29 bit-vector terms; definiteness without the sum-of-squares search, refuted by dominating terms and the value at zero only"),
 "C12": "static verdict for pairs of polynomials of up to 3 terms of degree at most 2 in two variables (4 terms over 8 monomials), univariate polynomials with up to 4 coefficients, nested ones with up to 2, all shapes of intervals, bitsets with up to 3 stored bits, bit-vector values up to width 4, functions, instances, terms and equalities over the listed contents; not formulas, rational functions and algebraic numbers (not compilable here); " + TRUST,
 "C16": "static verdict for histories of up to three creations over the contents listed in the check (16 sorts, 24 functions, 11 instances, 29 bit-vector terms, 18 bit-vector constraints, 26 monomials, 78 constraints) and one release between creations; when a reference count drops to zero is the library's shared pointer and not analysed; formulas do not compile here; " + TRUST,
 "C26": "static verdict for the field sizes 2, 3, 4, 5, 7, 8, 9 with all residues and eight larger ones with the residues next to 0 and half the size; integer operands are arbitrary; " + TRUST,
 "C27": bounded("histories with at most six live ids; the fixpoint over these states is complete"),
}
DEFAULT_NOTE = "static verdict for every class of a finite partition that is complete for the operations the code applies; " + TRUST
NA = {
 "C28": "divisibility and factorisation quantify over all polynomials; no sound static argument in reach bounds them",
 "C29": "existence and number of real roots is a numerical fact about runtime values",
 "C30": "ideal membership of unbounded runtime values; not visible in the shape of the code",
 "C31": "equality with determinants of runtime matrices of unbounded size",
 "C32": "the formula code cannot be type-checked in this configuration (it needs CoCoA headers that are not installed), so there is no resolved program to analyse",
 "C33": "round trips through grammars over unbounded texts; the grammar code also does not compile here",
 "C34": "rounding errors depend on concrete floating point values",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 /verif/check.py " + i, "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH[i], "level": "other", "level_note": NOTE.get(i, DEFAULT_NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "no static check built for it yet")})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the analysis reads the unmodified sources", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Static analysis only; see DESIGN.md. Findings on the original tree are in known-findings.txt."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
