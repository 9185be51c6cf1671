"""Writes section 2 of DESIGN.md from properties.jsonl, the evidence of the last run and the notes below."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REACH = {
 "H": "histories: the start state is an arbitrary symbolic program and the arguments are symbols, so one interpreted call (or pair, or triple of calls) stands for every history that ends with it; tests run a handful of histories",
 "T": "components are symbolic (zero, sign and presence split lazily) and every combination of options is enumerated; tests run a few programs through one option combination",
 "M": "coefficients, values and bounds symbolic; every order and type of entry the conversions distinguish",
 "V": "coefficients and names symbolic; the text is read back by the rules of its format",
 "S": "bounds, objective and solver results symbolic; both directions, all configurations",
 "O": "all paths of all public entry points are covered by bottom-up summaries, not only those that tests execute",
 "E": "all equality patterns of the atoms involved are enumerated",
 "F": "every path to a store of a result, every option and entry point; solver outcomes are symbols",
 "C": "the rule is evaluated over the complete finite domain of pointwise predicates on the indices (equal, different, missing), not for a few operators",
 "G": "names of both configurations are resolved statically; tests only ever run one configuration",
 "K": "values symbolic, every subset of known factors and every order of the calls in the stated bound",
 "N": "the unknowns (verdicts and certificates of the solver; the moment that is named) are enumerated lazily instead of sampled",
 "A": "the combinatorial input (overlap, commutation, compatibility relations; copies, settings, outcomes) is enumerated lazily up to the stated size instead of sampled",
}
EXTRA = {}


def main():
    P = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    M = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    checks = {c["property"]: c for c in M["checks"]}
    out = []
    for p in P:
        i = p["id"]
        if i not in checks:
            continue
        e = json.load(open(os.path.join(HERE, "evidence", i + ".json")))
        c = e["coverage"]
        out.append(f"### {i}: {p['title']}\n")
        out.append(f"*Method.* {checks[i]['technique']}.\n")
        out.append("*Rules (oracle and bounds).*")
        for k, v in c.get("rules", {}).items():
            out.append(f"- `{k}`: {v}")
        w = e.get("wall_s", 0)
        cost = "under 5 s" if w < 5 else "under 30 s" if w < 30 else "under 2 min" if w < 120 else "under 6 min"
        n = c["obligations"]
        out.append(f"\n*Extent and cost.* about {round(n, -1) if n > 50 else n} obligations over {c['functions_analysed']} functions, {cost} (quick).")
        out.append(f"*What tests cannot reach.* {REACH[i[0]]}.\n")
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    a, b = "<!-- properties: begin (gen/design.py) -->", "<!-- properties: end -->"
    s = s[:s.index(a) + len(a)] + "\n" + "\n".join(out) + "\n" + s[s.index(b):]
    rows = ["| planted change | caught by | what it breaks | needs |", "|---|---|---|---|"]
    d = os.path.join(HERE, "seeded")
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, "meta.json")))
        rows.append(f"| `{n}` | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
    a, b = "<!-- seeds: begin (gen/design.py) -->", "<!-- seeds: end -->"
    s = s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
    open(p, "w").write(s)


if __name__ == "__main__":
    main()
