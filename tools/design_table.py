#!/opt/venv/bin/python
"""Regenerates the per-property section of DESIGN.md from the harness docstrings, their assumptions and the numbers of the
last runs (quick: evidence/<ID>.json; thorough: tools/thorough_runs.txt, lines written by the check itself)."""
import importlib.util, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, V + "/stubs")
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import meta

thor = {}
try:
    for l in open(V + "/tools/thorough_runs.txt"):
        m = re.search(r"(\w\d\d) thorough: configs=(\d+) states=(\d+) transitions=(\d+) traces=(\d+) exhaustive=(\w+) wall=([\d.]+)s", l)
        if m:
            thor[m[1]] = m.groups()[1:]
except FileNotFoundError:
    pass
out = []
for p in meta.PROPS:
    i = p["id"]
    spec = importlib.util.spec_from_file_location("p_" + i, f"{V}/props/{i}.py")
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    out.append(f"### {i} — {p['title']}\n")
    out.append(f"* What is run against what: {' '.join((mod.__doc__ or '').split())}")
    out.append(f"* Quantified over: {p['quant']}")
    out.append(f"* Why tests cannot settle it: {p['why']}")
    a = getattr(mod, "ASSUMPTIONS", [])
    if a:
        out.append("* Bounds and assumptions: " + "; ".join(a) + ".")
    try:
        e = json.load(open(f"{V}/evidence/{i}.json"))
        c = e["coverage"]
        if e["tier"] == "quick":
            cs = c.get("configurations", [])
            capped = [x["name"] for x in cs if x.get("capped")]
            out.append(f"* Quick: {len(cs)} configurations, {c['states']:,} states, {c['transitions']:,} transitions, "
                       f"{c['traces_validated_against_impl']:,} traces ({c.get('clock_edges_replayed_in_pysim', 0):,} clock edges) replayed in the simulator, "
                       f"{e['wall_s']:.0f} s. " + ("Reachable product space exhausted in every configuration." if not capped else
                       "State cap reached (rest covered by depth-first dives) in: " + ", ".join(capped[:12]) + (" ..." if len(capped) > 12 else "") + "."))
    except FileNotFoundError:
        pass
    if i in thor:
        t = thor[i]
        out.append(f"* Thorough: {t[0]} configurations, {int(t[1]):,} states, {int(t[2]):,} transitions, {int(t[3]):,} traces, "
                   f"exhaustive={t[4]}, {float(t[5]):.0f} s (with 5 worker processes, next to other work).")
    out.append("")
d = open(V + "/DESIGN.md").read()
B, E = "<!-- generated: tools/design_table.py -->", "<!-- end generated -->"
assert B in d and E in d
d = d[:d.index(B) + len(B)] + "\n\n" + "\n".join(out) + "\n" + d[d.index(E):]
open(V + "/DESIGN.md", "w").write(d)
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    rows.append(f"| {s} | {m['property']} | {m['needs']} |")
B, E = "<!-- generated: seeds -->", "<!-- end seeds -->"
d = d[:d.index(B) + len(B)] + "\n\n" + "\n".join(rows) + "\n\n" + d[d.index(E):]
open(V + "/DESIGN.md", "w").write(d)
