#!/usr/bin/env python3
"""plant.py ID PROPERTY crate[,crate] 'needs' 'what it breaks' < demo.rs
Turns the uncommitted change of /repo into /verif/seeded/ID and undoes it."""
import sys, os, json, subprocess
id_, prop, crates, needs, breaks = sys.argv[1:6]
d = f"/verif/seeded/{id_}"
REPO = os.environ.get("REPO", "/repo")
diff = subprocess.check_output(["git", "-C", REPO, "diff"], text=True)
assert diff.strip(), "no change in /repo"
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
deps = "\n".join(
    '%s = "%s"' % tuple(c.split("=")) if "=" in c else f'{c} = {{ path = "$repo/crates/{c}" }}' for c in crates.split(",")
)
open(d + "/demo.sh", "w").write(open("/verif/tools/demo_template.sh").read().replace("@DEPS@", deps))
os.chmod(d + "/demo.sh", 0o755)
open(d + "/demo.rs", "w").write(sys.stdin.read())
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
