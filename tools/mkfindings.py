"""known_findings.json = tools/known.json (open findings) + the fix: commits of /repo (fixed findings)."""
import json, subprocess, re, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # subject substring -> properties; checked in order
 "past the end of the received bytes": "P04 P03", "byte values over their common": "P20", "different date-times": "P20 P10", "order date-times": "P20 P10", "compare integers exactly": "P20 P10", "uninitialised fields into a parsed": "P20",
 "rbusValue_ToString": "P20", "retain the new element": "P20", "bound the number of tokens": "P03 P01", "removing an alias only": "P01 P07", "sibling of the table row": "P01 P19", "was a table": "P01 P07", "without owner can be registered": "P01 P07 P17",
 "impossible message lengths": "P03", "without payload": "P03", "no memory for": "P03", "malformed subscribe, hello": "P03", "addressed to the broker": "P03", "direct server survives": "P03 P18", "direct server keeps": "P18 P03", "timed out leaves the pending": "P02", "retrying forever": "P02 P17"}
def main():
    known = json.load(open(V + "/tools/known.json")); fixed = []
    for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "4391de7..HEAD"], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        h, s = l.split(" ", 1)
        if not s.startswith("fix:"): continue
        m = re.search(r"\[(P\d\d(?: P\d\d)*)\]", s); props = m.group(1) if m else next((v for k, v in PROP.items() if k in s), None)
        if not props: sys.exit("no property for: " + s)
        for p in props.split(): fixed.append({"property": p, "status": "fixed", "commit": h, "what": f"fixed: property={p} {h} {re.sub(r' *.P[0-9 P]*.$', '', s[5:])}" if m else f"fixed: property={p} {h} {s[5:]}"})
    json.dump({"findings": known + fixed}, open(V + "/known_findings.json", "w"), indent=1)
main()
