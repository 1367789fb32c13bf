#!/usr/bin/env python3
"""Creates golden/*.xz: repositories written by one build (NB_REPO, here the
original version) together with what every backup in them has to restore. They
are committed; no check runs this."""
import glob, lzma, os, random, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + "/lib", HERE + "/checks"]
import build, cfggen, harness, metafmt, refmodel, sandbox, scen, world


def golden(name, ctx, rng, seed):
    kw = dict(special=0, weird=0.05, odd_times=0.1, big=0.01)
    if name == "names":
        kw.update(weird=0.9)
    if name == "attributes":
        kw.update(odd_times=0.8)
    if name in ("many-backups", "crowd"):
        kw.update(big=0, links=0.05)
    s = scen.Scene(ctx, rng, **kw)
    n = 4
    s.gen.fill(rng.randrange(6, 12), 3)
    s.simple_config(b"track")
    if name == "many-backups":
        n = 45
    elif name == "sizes":
        for k in (0, 1, 19, 20, 21, 22, 255, 256, 4095, 4096, 4097, 65535, 65536, 70000, 300001):
            world.write(s.src + b"/size-%d" % k, (b"%d." % k * k)[:k])
    elif name == "crowd":
        for k in range(600):
            world.write(s.src + b"/n%d" % k, b"content %d of the crowd, long enough" % (k % 50))
    elif name == "deep":
        p = s.src
        for k in range(60):
            p += b"/d%d" % k
            os.mkdir(p)
            world.write(p + b"/file", b"deep %d" % k * k)
    for k in range(n):
        if k:
            s.mutate(rng.randrange(1, 5) if n < 10 else 1)
        if name in ("policies", "rules"):
            if name == "rules" or k % 2 == 0:
                s.config(cfggen.config(rng, s))
        if name == "removals" and k == 2:
            for x in os.listdir(s.src)[:4]:
                world.rmtree(s.src + b"/" + x)
        if name == "sizes" and k:
            for x in (0, 20, 21, 4096):
                world.write(s.src + b"/size-%d" % x, b"%d" % k * (x + rng.randrange(3)))
        r, ch = s.full_backup()
        if r.rc:
            return None
        if not s.has_meta():
            return None
        for p, (st, pol) in metafmt.expected_tree(s.meta(), 0).items():
            if pol or st.type != metafmt.DIR:
                assert not scen.state_ent_diff(st, world.entry(p)), p
    if name == "nothing-left":
        world.rmtree(s.src)
        os.mkdir(s.src)
        s.full_backup()
    if name == "leftovers":
        world.write(s.repo + b"/tmp-file", b"half written")
        world.write(s.repo + b"/lockfile", b"")
        os.makedirs(s.repo + b"/0/12")
        world.write(s.repo + b"/0/12/" + b"3" * 37 + b"x20x0", b"unreferenced file of an aborted run")
    m = s.meta()
    if len(m.times) < 3 or len(m.paths()) < 12:
        return None
    files = {}
    for p, e in world.snap(s.repo, content=True).items():
        if p != s.repo:
            files[p[len(s.repo) + 1:]] = None if e.type == world.D else world.read(p)
    want = [{p: (tuple(st), pol) for p, (st, pol) in metafmt.expected_tree(m, b).items()} for b in range(len(m.times))]
    return {"name": name, "files": files, "times": m.times, "expected": want, "src": s.src, "nodes": len(m.paths()),
            "config": s.cfg_text, "needed": sorted(metafmt.needed_blobs(m))}


NAMES = ["plain", "policies", "policies-2", "names", "attributes", "sizes", "removals", "nothing-left", "leftovers", "many-backups", "crowd", "deep", "rules", "rules-2", "types"]


def main():
    exe = open(build.build("plain"), "rb").read()
    sup = open(build.helper("nbsup"), "rb").read()
    for f in glob.glob(HERE + "/golden/*.xz"):
        os.remove(f)

    def worker(wid, send):
        os.makedirs(harness.BIN)
        for n, d in (("plain", exe), ("nbsup", sup)):
            with open(harness.BIN + "/" + n, "wb") as f:
                f.write(d)
            os.chmod(harness.BIN + "/" + n, 0o755)
        for name in NAMES[wid::8]:
            for seed in range(1000):
                ctx = harness.Ctx("golden", "quick")
                ctx.missing = set()
                world.rmtree(b"/tmp/w") if os.path.lexists(b"/tmp/w") else None
                os.makedirs(b"/tmp/w")
                try:
                    g = golden(name[:-2] if name[-2:] == "-2" else name, ctx, random.Random("%s %d" % (name, seed)), seed)
                except (harness.Violation, AssertionError, OSError) as e:
                    print(name, seed, repr(e)[:300])
                    g = None
                if g:
                    send({"name": name, "g": g, "seed": seed})
                    break

    def got(m):
        if "g" not in m:
            print(m)
            return True
        data = lzma.compress(repr(m["g"]).encode())
        with open(HERE + "/golden/" + m["name"] + ".xz", "wb") as f:
            f.write(data)
        print(m["name"], m["seed"], len(data), m["g"]["nodes"], len(m["g"]["times"]))
        return False
    print(sandbox.run_workers(worker, 8, got))


main()
