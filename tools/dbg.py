"""dbg.py C08 k 'TLA expression over s (state before) and e (failing event)' -- evaluate on violation k of the replay."""
import json, sys, os, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import tlc
prop, k, expr = sys.argv[1], int(sys.argv[2]), sys.argv[3]
v = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "evidence", f"replay_{prop}.json")))["violations"][k]
evs = [{a: b for a, b in e.items() if a != "tb" and a[0] != "_"} for e in v["trace"]]
evs = evs[:evs.index({a: b for a, b in v["event"].items() if a != "tb" and a[0] != "_"}) + 1] if v["event"] in v["trace"] else evs
with tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False) as f:
    f.write(json.dumps({"ev": evs}) + "\n")
mod = f"""---- MODULE DBG ----
EXTENDS {v['module']}, Json, TLC
VARIABLE x
tr == ndJsonDeserialize("{f.name}")[1].ev
s == FoldLeft(Apply, S0(tr), SubSeq(tr, 1, Len(tr) - 1))
e == tr[Len(tr)]
Init == x = 0 /\\ PrintT(<<"DBG", {expr}>>)
Next == UNCHANGED x
====
"""
r = tlc.run("DBG", mod, "INIT Init\nNEXT Next\n", timeout=100)
o = r["out"]
i = o.find('<<"DBG"') if '<<"DBG"' in o else o.find("Error")
j = o.find('<< "DBG"')
print(json.dumps(v["event"].get("o"))[:1500])
print(o[max(i, j):][:3000])
