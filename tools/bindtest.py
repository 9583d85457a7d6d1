#!/usr/bin/env python3
"""Does the trace specification notice?  Takes histories recorded from the real
library, changes one observation in each, and counts how many TLC rejects under
what the property enforces.  Not part of any check.

  bindtest.py C05 [C06 ...]        (all properties by default)
"""
import glob, json, os, random, subprocess, sys, shutil, tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, plan

SIZE = dict(b8=1, b16=2, b32=4, b64=8, d8=1, d16=2, d32=4, d64=8)
RADIX = dict(d8=100, d16=10 ** 4, d32=10 ** 9, d64=10 ** 19)
ASPECT_OF = dict(cmp="r", insp="i", split="i", show="t", law="l")


def digits(t, hexs):
    b = bytes.fromhex(hexs)
    n = SIZE[t]
    return [int.from_bytes(b[i:i + n], "little") for i in range(0, len(b), n)]


def hexof(t, ds):
    return b"".join(d.to_bytes(SIZE[t], "little") for d in ds).hex()


def corruptions(ev, k, rnd):
    """(class, changed copy of event k) for everything that can be changed about it"""
    e = ev[k]
    r = []

    def add(cls, **f):
        x = json.loads(json.dumps(e))
        x.update(f)
        r.append((cls, x))
    if e["o"] == "ok":
        add("o", o="panic", w=[], r=[])
    else:
        add("o", o="ok", w=[[e.get("d", e.get("a", 1)) or 1, "b8", "01"]])
    for i, (reg, t, h) in enumerate(e["w"]):
        ds = digits(t, h)
        rad = RADIX.get(t, 256 ** SIZE[t])
        cls = "v" if e["o"] == "ok" else "s"

        def put(cls, ds):
            w = json.loads(json.dumps(e["w"]))
            w[i][2] = hexof(t, ds)
            add(cls, w=w)
        if ds:
            j = rnd.randrange(len(ds))
            nd = list(ds)
            nd[j] = (nd[j] + rnd.choice([1, rad - 1, rad // 2])) % rad
            if nd != ds and nd[-1] != 0:
                put(cls, nd)
            put("c", ds + [0])
            if t in RADIX:
                nd = list(ds)
                nd[j] = rad
                put("c", nd)
        put(cls, ds + [1])
        if e.get("g"):
            if any(x.get("g") == e["g"] for x in ev[:k]):
                nd = (ds or [0]) + [1]
                put("a" , nd)
                put("n" , nd)
    add("f", fr=[1])
    if e["op"] in ASPECT_OF:
        a = ASPECT_OF[e["op"]]
        if isinstance(e["r"], str):
            s = e["r"]
            j = rnd.randrange(len(s) + 1)
            add(a, r=s[:j] + rnd.choice("0x+ 9f") + s[j:])
        elif e["r"]:
            x = list(e["r"])
            j = rnd.randrange(len(x))
            x[j] = 1 - x[j] if x[j] in (0, 1) else x[j] + 1
            add(a, r=x)
    return r


def run(prop):
    p = plan.PLAN[prop]
    for d in glob.glob(os.path.join(check.BUILD, "verif-%s-*" % prop)):
        shutil.rmtree(d)
    r = subprocess.run([sys.executable, os.path.join(check.VERIF, "tools", "check.py"), prop, "--tier", "quick"],
                       env=dict(os.environ, VERIF_KEEP="1"), stdout=subprocess.PIPE, text=True)
    assert r.returncode == 0, r.stdout
    d = glob.glob(os.path.join(check.BUILD, "verif-%s-*" % prop))[0]
    lines = open(os.path.join(d, "trace.ndjson")).read().splitlines()
    shutil.rmtree(d)
    rnd = random.Random(int(prop[1:]))
    rnd.shuffle(lines)
    work = tempfile.mkdtemp(dir=check.BUILD, prefix="bind-")
    what, n = {}, {}
    trace = os.path.join(work, "t.nd")
    with open(trace, "w") as f:
        for l in lines:
            if len(what) >= 6000 or len(l) > 20000:
                continue
            h = json.loads(l)
            k = rnd.randrange(len(h["ev"]))
            for cls, e in corruptions(h["ev"], k, rnd):
                if cls not in p["enforce"]:
                    continue
                key = (cls, e["op"])
                if n.get(key, 0) >= 60:
                    continue
                n[key] = n.get(key, 0) + 1
                cid = "m%d" % len(what)
                what[cid] = (cls, e, h["id"])
                f.write(json.dumps(dict(id=cid, ev=h["ev"][:k] + [e] + h["ev"][k + 1:])) + "\n")
    # judge() insists on exact counts only when nothing is rejected
    rej = {x[0] for x in check.judge(work, trace, p["enforce"])[0]}
    shutil.rmtree(work)
    missed = [(c, what[c]) for c in what if c not in rej]
    print("%s enforce=%s: %d of %d changed observations rejected; %s" %
          (prop, p["enforce"], len(rej), len(what), " ".join("%s:%d" % (a, sum(v for k, v in n.items() if k[0] == a)) for a in p["enforce"])), flush=True)
    seen = {}
    for c, (cls, e, cid) in missed:
        key = (cls, e["op"])
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= 2:
            print("   not rejected: class %s %s in %s" % (cls, json.dumps(e)[:400], cid), flush=True)
    print("   ", seen)


if __name__ == "__main__":
    for prop in sys.argv[1:] or sorted(plan.PLAN):
        run(prop)
