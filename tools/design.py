"""Writes DESIGN.md from tools/design_head.md, tools/spec.py, the harnesses, known_findings.json and seeded/*/meta.json."""
import glob, importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path[:0] = [here, root, "/repo"]
sys.dont_write_bytecode = True
import spec  # noqa: E402

COST = dict(P01=24, P02=30, P03=17, P04=60, P05=45, P06=90, P07=65, P08=48, P09=36, P10=90, P11=50, P12=49, P13=70, P14=30, P15=30,
            P16=45, P17=25, P18=67, P19=55, P20=9, P21=33, P22=9, P23=9, P24=69, P25=69, P26=10, P27=11, P28=26, P29=11, P31=15,
            P32=45, P33=55, P34=12, P35=11, P36=10)


def consts(f):
    m = importlib.import_module("harness." + os.path.basename(f)[:-3])
    return {"BOUNDS": m.BOUNDS, "ASSUMPTIONS": getattr(m, "ASSUMPTIONS", None), "H": [(h[0], h[2]) for h in m.HARNESSES]}


def short(v):
    if isinstance(v, (tuple, list)) and (len(v) > 4 or len(repr(v)) > 60):
        return "%d kinds" % len(v)
    return v


kf = json.load(open(os.path.join(root, "known_findings.json")))
seeded = {}
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    seeded.setdefault(j["property"], []).append((os.path.basename(os.path.dirname(m)), j))
out = [open(os.path.join(here, "design_head.md")).read().rstrip(), ""]
out += ["## Properties, one by one", "",
        "*Params* are the harness bounds of the quick tier and, after `->`, of the thorough tier. *Cost* is the quick check alone on 8 cores.",
        "The statement of each property is in properties.jsonl; what is below is how it is decided.", ""]
for p in spec.P:
    pid = p["id"]
    f = os.path.join(root, "harness", pid.lower() + ".py")
    out.append("### %s %s" % (pid, p["title"]))
    out.append("")
    if not os.path.exists(f):
        out += ["Not applicable: %s" % p["na"], ""]
        continue
    c = consts(f)
    out.append("Over: %s." % p["qtext"])
    out.append("")
    out.append("Tests do not settle it: %s." % p["why"].rstrip("."))
    out.append("")
    hs = []
    for name, t in c["H"]:
        q = ", ".join("%s=%s" % (k, short(v)) for k, v in sorted(t.get("quick", {}).items()))
        th = ", ".join("%s=%s" % (k, short(v)) for k, v in sorted(t.get("thorough", {}).items()))
        hs.append("`%s`%s" % (name, " (%s%s)" % (q, " -> " + th if th != q else "") if q or th else ""))
    out.append("Harnesses (harness/%s.py): %s. Cost about %d s." % (pid.lower(), "; ".join(hs), COST.get(pid, 0)))
    out.append("")
    out.append("Bounds: %s." % c.get("BOUNDS", "").rstrip("."))
    a = c.get("ASSUMPTIONS")
    if a:
        out.append("")
        out.append("Assumptions: %s." % "; ".join(a) .rstrip(".") if isinstance(a, (list, tuple)) else "Assumptions: %s." % a.rstrip("."))
    out.append("")
    out.append("Anchors: %s." % "; ".join("%s (`%s`)" % (x, y) for x, y in p["mech"]))
    if pid in seeded:
        out.append("")
        out.append("Planted changes it catches: " + ", ".join(n for n, _ in seeded[pid]) + ".")
    out.append("")
out += ["## Planted changes (seeded/) and the check that catches each", "", "| change | check | what it needs |", "|---|---|---|"]
for pid in sorted(seeded):
    for n, j in seeded[pid]:
        out.append("| %s | %s | %s |" % (n, pid, " ".join(j["needs"].split()).replace("|", "\\|")))
out += ["", "## Defects found and repaired (\"fix:\" commits in /repo)", "",
        "Each was first reported by the check named (a counterexample replayed on the real code), or found while reading the code against "
        "the statement and then added to the check; the check reports it again if it returns.", ""]
for x in kf["fixed"]:
    x = x[len("fixed: property="):]
    pid, com, what = x.split(" ", 2)
    out.append("- %s `%s` %s" % (pid, com, what))
out += ["", "## Known findings (recorded, not repaired)", ""]
for x in kf["findings"]:
    out.append("- **%s** (%s): %s" % (x["id"], x["property"], x["what"]))
out += ["", open(os.path.join(here, "design_tail.md")).read().rstrip(), ""]
text = "".join(c if c == "\n" or c >= " " else repr(c)[1:-1] for c in "\n".join(out))
open(os.path.join(root, "DESIGN.md"), "w").write(text)
