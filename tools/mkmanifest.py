"""Writes MANIFEST.json from the table of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TR = "TLA+ specification of the dump format, indexing and reports (Conform.tla), trace validation of the real program with TLC"
CONF = ("Every generated dump is parsed by the specification record by record and everything observed of the real code is compared with what the specification "
        "says; bounded to the generated dumps (random JVMs from VERIF_SEED up to some 20 KB, every record kind, both id sizes). Trusts TLC, the output parsers and that the dump generator reaches the interesting cases.")
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="sh setup.sh", checks=[], not_applicable=[])
for p in props:
    if p in CLAIMS:
        t, n = CLAIMS[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 run.py %s quick" % p, thorough_cmd="python3 run.py %s thorough" % p, technique=t, level="model_checking", level_note=n))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA[p]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
