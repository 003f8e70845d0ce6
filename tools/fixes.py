"""known_findings.json: tools/fixes.py writes the 'fixed' list from /repo's fix: commits and FIX below"""
import json, subprocess
V = "/verif/known_findings.json"
FIX = {  # start of the commit message -> property, what failed
 "vec_insert_one used a position": ("C01", "inserting one element at a position while the storage has to grow wrote through the stale position"),
 "bounded string copy and character count": ("C02", "a bounded source was read one byte past its bound; the bounded copy returned one less than it copied"),
 "replacing an empty search string": ("C02", "replacing an empty search text never ended"),
 "padded text comparison was not transitive": ("C03", "'a' = 'a\\t' = 'a  ' comparisons in the padded modes were not transitive and disagreed with the padded hash"),
 "padded keys of blanks only": ("C03", "keys of blanks only hashed untrimmed in the padded modes, so '' and ' ' were different keys"),
 "moving an empty block in or out": ("C06", "block transfers of nothing moved a whole buffer of garbage"),
 "fifo_receivable wrapped around": ("C07", "with two producers and a buffer filled past the margin the free-space count wrapped and elements were overwritten"),
 "fifo_get_or_wait held the lock": ("C07", "the consumer slept holding the lock its producer needs: deadlock"),
 "waiting on either of two fifos": ("C07", "waiting on either of two queues could deadlock or lose the wake-up"),
 "graph traversal overflowed": ("C08", "the traversal work queue overflowed on graphs with shared successors and nodes were lost"),
}
try:
    exec(open("/verif/tools/fixes2.py").read())
except FileNotFoundError:
    pass
k = json.load(open(V)) if __import__("os").path.exists(V) else {"findings": [], "fixed": []}
k["fixed"] = []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "495a305..HEAD"], text=True).splitlines()
for l in log:
    h, m = l.split(" ", 1)
    m = m[5:]
    e = [v for s, v in FIX.items() if m.startswith(s)]
    assert e, l
    k["fixed"].append("fixed: property=%s %s %s" % (e[0][0], h, e[0][1]))
json.dump(k, open(V, "w"), indent=1)
open(V, "a").write("\n")
