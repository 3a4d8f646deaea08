"""Writes DESIGN.md from the registry, the constants of each check, the findings file and the last evidence (python3 tools/design.py)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import registry  # noqa: E402

# how the expected value of each check is obtained, independently of the code under test
ORACLE = {
    "C01": "scalar loops over rounds written from the papers' formulas (`mc/ref_discrete.py`), in exact dyadic arithmetic so that ties at thresholds are decided exactly",
    "C02": "the exact expectation: sum over the complete log space of probability x estimate, against the exactly computed policy value",
    "C03": "numpy-free percentiles of the means of the scripted resamples; the per-round estimates are recovered from degenerate resamples, so no private method is called",
    "C04": "scalar formulas per stratum, with labels treated as opaque",
    "C05": "scalar formulas per slate, rows grouped by slate id whatever their order",
    "C06": "scalar kernels and formulas; numerical integration for kernel normalisation",
    "C07": "posterior-weight definition with a tabular classifier; selection rule re-implemented as interval intersection over plain lists",
    "C08": "the plain estimator at each candidate, plus an independent evaluation of the MSE / SLOPE criterion",
    "C09": "each estimator called alone with its own inputs",
    "C10": "the fault menu itself: a faulty input must raise, the same input repaired must not",
    "C11": "a reference automaton holding the list of accepted observations; exploration probabilities obtained by summing over all random outcomes",
    "C12": "batch ridge regression solved from scratch on the accepted observations",
    "C13": "an independent Newton solver for each Laplace step",
    "C14": "a reference delay queue (list of (due, reward, action, context))",
    "C15": "the definition of replay evaluation as a ten-line loop; identically seeded copies of real policies",
    "C16": "the closed-form blend of the interval endpoints as a function of the global round index",
    "C17": "the configured functions applied to the contexts the owned random source produced",
    "C18": "field-by-field reconstruction of the log from the programmed draws; under real seeds, whether two streams carry the same bits (this part is over a listed set of seeds)",
    "C19": "inverse-CDF sampling with exact rationals; softmax/sigmoid by overflow-safe scalar evaluation",
    "C20": "the reduction rebuilt row by row from the label table",
    "C21": "the text file the check itself wrote; each row carries a unique propensity",
    "C22": "enumeration of all slates and click histories of the declared model",
    "C23": "what the recording base model saw and returned, decoded back to rounds; hand-written cross-fit with real models",
    "C24": "as C23, for classifiers",
    "C25": "tabular backward dynamic programming over slate prefixes",
    "C26": "the documented reductions, decoded from a recording classifier / lookup-table regressor",
    "C27": "a small numpy implementation of forward pass, gradient and each optimiser (`mc/nnref.py`), replayed over every mini-batch order",
    "C28": "scalar evaluation of the documented polynomial/bilinear form; for larger sparse rewards the coefficients are solved back from the values",
    "C30": "the fault menu itself, as C10",
    "C32": "fresh estimators called on their own inputs",
    "C31": "the same call on a fresh object in a forked process that has done nothing else",
    "C29": "scalar formulas, Student quantiles from the incomplete beta function",
}

HEAD = open(os.path.join(HERE, "tools", "design_head.md")).read()
TAIL = open(os.path.join(HERE, "tools", "design_tail.md")).read()


def main():
    out = [HEAD.rstrip(), "", "## 3. Properties: how each is decided", ""]
    for p in registry.P:
        m = importlib.import_module("mc.checks." + p["id"].lower())
        ev = {}
        f = os.path.join(HERE, "evidence", p["id"] + ".json")
        if os.path.exists(f):
            ev = json.load(open(f)).get("coverage", {})
            wall = json.load(open(f)).get("wall_seconds") or json.load(open(f)).get("wall_s")
        out += ["### %s %s" % (p["id"], p["title"]), "",
                "*Specified.* " + p["statement"], "",
                "*Enumerated.* " + m.RULE + ".", "",
                "*Oracle.* " + ORACLE[p["id"]] + ".", "",
                "*Bounds.* quick: %s. thorough: %s." % (m.BOUNDS["quick"], m.BOUNDS["thorough"])]
        if m.ASSUMPTIONS:
            out.append("*Assumed.* " + "; ".join(m.ASSUMPTIONS) + ".")
        if ev:
            out.append("*Size (quick).* about %s states, %s transitions, %s traces compared with the implementation." % tuple("{:,}".format(ev.get(k, 0)) for k in ("states", "transitions", "traces_validated_against_impl")))
        out += ["*Why tests cannot.* " + p["why"] + ". *Anchored in* " + ", ".join("`%s`" % x for x in p["files"]) + ".", ""]
    out += ["## 4. Defects found in the repository", "",
            "Each was reported by a check on the original tree, reproduced on the real code, and repaired with one `fix:` commit in /repo (list also in `known_findings.jsonl`):", ""]
    for l in open(os.path.join(HERE, "known_findings.jsonl")):
        if l.startswith("{"):
            d = json.loads(l)
            if d["status"] == "fixed":
                out.append("- %s %s" % (d["id"], d["line"][len("fixed: property="):]))
    out += ["", "Recorded, not repaired (the check prints a KNOWN-FINDING line and exits 0):", ""]
    for l in open(os.path.join(HERE, "known_findings.jsonl")):
        if l.startswith("{"):
            d = json.loads(l)
            if d["status"] == "known":
                out.append("- %s %s: %s" % (d["id"], d["property"], d["what"]))
    out += ["", TAIL.rstrip(), ""]
    seeds = os.path.join(HERE, "seeded")
    if os.path.isdir(seeds) and os.listdir(seeds):
        out += ["### Changes kept in `seeded/`", "", "| change | needs | caught by |", "|---|---|---|"]
        for s in sorted(os.listdir(seeds)):
            d = json.load(open(os.path.join(seeds, s, "meta.json")))
            out.append("| %s | %s | %s |" % (s, d["needs"].replace("|", "/"), d["property"]))
        out.append("")
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
    print(len(out), "blocks")


if __name__ == "__main__":
    main()
