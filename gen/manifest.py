"""Writes MANIFEST.json from properties.jsonl, the checks present and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
 "H01": "typestate over an interprocedural abstract interpretation of every public mutator",
 "H02": "cache-staleness typestate: transitive read sets of cached values against stores, along every path",
 "H03": "dependence analysis: labels of memoised values and their guards against the labels of the key",
 "H04": "relational abstract interpretation of call histories; symbolic terms of the objective at the solver call",
 "H05": "relational abstract interpretation: state after reset compared with constructed state",
 "H06": "relational abstract interpretation: no label of an earlier argument survives a second call",
 "H07": "frame (effect) analysis: components stored to or mutated by each public operation",
 "T01": "label-flow (taint) analysis from components to solver arguments and solver rows",
 "T02": "symbolic terms and signs of the cone program built at each solver API call, per configuration",
 "T03": "path-enumerating abstract interpretation of the exporters over symbolic coefficients (zero and sign cases split lazily); the abstract text is parsed by the rules of the format and compared with the specification",
 "T04": "path-enumerating abstract interpretation of the exporters over symbolic coefficients (polynomial sign domain); the abstract file is parsed by the rules of the format, senses and values compared with the specification",
 "T05": "block-level abstract interpretation of sparse matrix assembly (symbolic segment lengths), per configuration and component subset",
 "S01": "symbolic sign/constant analysis of direction handling",
 "V01": "path-enumerating abstract interpretation of the presentations over symbolic coefficients; text read back and compared term by term",
 "M01": "path-enumerating abstract interpretation of the conversions over symbolic coefficients with a model of sparse matrices; forms compared entry by entry",
 "S02": "path-enumerating abstract interpretation of the bound-to-constraint conversions over symbolic bounds (polynomial sign domain)",
 "S03": "accumulation analysis of certificate entries (read-modify-write against replace) and presence of contributions",
 "O01": "mutation-effect analysis with access-path ownership (arguments, defaults, module data)",
 "O02": "mutation-effect and aliasing analysis of the shared scenario object",
 "E01": "read-set analysis of __eq__/__hash__/__lt__ against stores to identity fields",
 "E02": "abstract interpretation of the monomial factories over equality patterns of atoms, lookup tables tracked",
 "F01": "path-condition analysis of result stores and solver exits",
 "F02": "must-raise analysis with an unknown option constant; effects before the raise",
 "F03": "dominance (must-precede) analysis of guards over solver calls and stores",
 "C01": "decision-table extraction by abstract evaluation over a finite pointwise predicate domain",
 "C02": "decision-table extraction by abstract evaluation over a finite pointwise predicate domain",
 "K01": "path-enumerating abstract interpretation of value setting over symbolic values (missing, zero and other cases split lazily); what is known afterwards compared with the products of the values",
 "K02": "abstract interpretation of the marginalisation over a domain of distributions whose axes carry roles, outcomes and settings symbolic",
 "A01": "abstract interpretation of the canonicalisation on abstract words for every commutation relation of a few operators, compared with the reachable rearrangements",
 "A02": "path-enumerating abstract interpretation over symbolic copy indices (equality patterns split lazily)",
 "A03": "path-enumerating abstract interpretation over unknown overlap relations (edges split lazily)",
 "A04": "path-enumerating abstract interpretation over symbolic copies, parties, settings and outcomes (equality patterns split lazily)",
 "A05": "abstract interpretation of the construction on abstract generating sets for every commutation relation of a few operators; entries compared with the classes of equal products",
 "A06": "abstract interpretation of discovery and application of symmetries on abstract scenarios and moment matrices; orbits compared with the group of relabellings",
 "A07": "abstract interpretation of the construction of the program and of the generated rows for every compatibility relation of a few measurements; rows compared as functions of all outcomes",
 "A08": "abstract interpretation of the enumeration on every graph of up to five vertices; result compared with the sets of pairwise adjacent vertices",
 "A09": "abstract interpretation of the constructor on scenarios with unknown arrows and kinds of nodes; every table compared with the scenario",
 "A10": "abstract interpretation of the column construction on operators with unknown relations and products; the resulting products compared with the specification",
 "A11": "abstract interpretation of condition discovery and of the construction of the tables on columns and moment matrices with unknown entries",
 "A12": "abstract interpretation of the program constructors on scenarios with unknown arrows and kinds of sources; every table compared with the scenario",
 "A13": "abstract interpretation of constructor and generation of the program on scenarios with unknown arrows and kinds of sources; variables, rows and conditions compared with the events of the inflation",
 "A14": "abstract interpretation of constructor and relaxation on scenarios with unknown arrows and kinds of sources; columns, entries, moments, bounds and equalities compared with the classes of products",
 "N07": "abstract interpretation of the searches against a program with unknown verdicts and certificates (every critical value, split lazily); result compared with the verdicts",
 "N10": "abstract interpretation of naming and reading on programs of small scenarios; every moment read back, products in every order",
 "G01": "name-binding analysis of both import configurations",
}
NOTE = {}
DEFAULT_NOTE = ("Sound up to the abstraction on the constructs it interprets: an obligation whose construct the abstract interpreter does not "
                "understand is reported undecided in the evidence and raises no alarm. Trusts the models of builtins, numpy and scipy.sparse in sa/lib.py.")
NA = {
 "N01": "Quantifies over attainable quantum correlations and numerical optima; no static argument over the source bounds them.",
 "N09": "Equality of numerical optima of two solver formulations.",
}


def main():
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "checks", i + ".py")):
            checks.append({"property": i, "quick_cmd": f"python3 /verif/check.py {i}", "thorough_cmd": f"python3 /verif/check.py {i} --thorough",
                           "technique": "static analysis: " + TECH[i], "level": "other", "level_note": NOTE.get(i, DEFAULT_NOTE)})
        else:
            na.append({"property": i, "reason": NA.get(i, "No check is registered for it yet.")})
    json.dump({"version": 1, "setup_cmd": "python3 -c \"import ast, sys; assert sys.version_info >= (3, 9)\"", "checks": checks, "not_applicable": na,
               "notes": "Pure Python (standard library only); no hooks in /repo; nothing of /repo is imported or executed by any check."},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not applicable")


main()
