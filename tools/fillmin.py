"""Print min={} lines at about 40% of what the last run of each named check observed."""
import json, sys
for i in sys.argv[1:]:
    o = json.load(open(f"/verif/evidence/{i}.json"))["coverage"]["observed"]
    def rnd(x):
        x *= 0.4
        p = 10 ** max(0, len(str(int(x))) - 1)
        return int(x // p * p)
    print(i, "min=" + json.dumps({k: rnd(v) for k, v in o.items() if rnd(v) > 0}))
