"""Runs the cases of a check in confined workers and turns what the monitors
saw into a verdict, an evidence file and replay files."""
import collections, fcntl, hashlib, json, locale, os, random, shutil, signal, subprocess, sys, time, traceback

import build, metafmt, sandbox
import world  # noqa: F401  (loaded before confinement)
import metafmt, refmodel, posixfs, scen, cfggen  # noqa: F401

VERIF = build.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
WORKERS = int(os.environ.get("NB_WORKERS", "8"))
ROOT = "/tmp/w"           # per-case tmpfs inside a worker
BIN = "/tmp/bin"


class Violation(Exception):
    def __init__(self, key, msg, detail=None):
        Exception.__init__(self, msg)
        self.key, self.msg, self.detail = key, msg, detail or {}


class Hang(Exception):
    pass


class HarnessError(Exception):
    pass


class Run:
    __slots__ = ("rc", "out", "err", "args", "evs")

    def __init__(self, rc, out, err, args):
        self.rc, self.out, self.err, self.args = rc, out, err, args

    def brief(self):
        return {"args": [repr(a) for a in self.args], "rc": self.rc, "stdout": repr(self.out[-1500:]),
                "stderr": repr(self.err[-3000:])}


def san_env(extra=None):
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "HOME": "/tmp",
         "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=1:max_allocation_size_mb=4000",
         "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
         "MSAN_OPTIONS": "abort_on_error=1:halt_on_error=1:allocator_may_return_null=1"}
    if extra:
        e.update(extra)
    return e


class Ctx:
    """What a case gets: fresh scratch space, the program, counters and a way to fail."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.counts = collections.Counter()
        self.sets = collections.defaultdict(set)
        self.trail = []
        self.timeout = 60.0
        self.tmpn = 0
        self.default, self.env, self.umask = "plain", {}, 0o022

    # -- observations ---------------------------------------------------
    def count(self, key, n=1):
        self.counts[key] += n

    def seen(self, name, key):
        self.sets[name].add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def fail(self, key, msg, **detail):
        raise Violation(key, msg, detail)

    # -- running the program --------------------------------------------
    def exe(self, variant=None):
        return BIN + "/" + (variant or self.default)

    def weaken(self, keep):
        """From here on, checksums are 0 but for the bytes at the positions KEEP, in
        the program and in what it is compared with. False: that is not possible."""
        self.default, self.env = "weak", {"NB_WEAK_BYTES": ",".join(map(str, sorted(keep)))}
        top = ROOT.encode() + b"/weaken" if isinstance(ROOT, str) else ROOT + b"/weaken"
        os.makedirs(top + b"/repo")
        world.write(top + b"/file", b"x" * 30)
        world.write(top + b"/repo/config", b"[copy]\n" + top + b"/file\n")
        self.nb(top + b"/repo", expect=None)
        world.KEEP = frozenset(keep)
        h = world.b2(b"x" * 30).hex()
        ok = os.path.lexists(top + ("/repo/%s/%s/%sx1ex0" % (h[0], h[1:3], h[3:])).encode())
        if not ok:
            self.default, self.env, world.KEEP = "plain", {}, None
        world.rmtree(top)
        return ok

    def collide(self):
        """From here on, the keys of all string tables have one of two hash values."""
        self.default = "weaksip"
        self.count("cases_with_colliding_tables")

    def blocks(self, rng, variant="blk"):
        """From here on, all files claim another preferred block size."""
        self.default = variant
        self.env = {"NB_BLKSIZE": str(rng.choice([1, 7, 512, 1000, 4095, 8192, 8192, 131072, 1 << 20, 4 << 20]))}
        self.count("cases_with_other_block_sizes")

    def start(self, args, variant=None, cwd=None, user=None, env=None, sup=None, stdin=subprocess.PIPE,
              stdout=subprocess.PIPE, stderr=subprocess.PIPE, pass_fds=(), chroot=None, limits=None, exe=None, close=()):
        variant = variant or self.default
        if self.env:
            env = {**self.env, **(env or {})}
        argv = [exe or self.exe(variant)] + [a if isinstance(a, bytes) else a.encode() for a in args]
        if sup is not None:
            argv = [BIN + "/nbsup"] + [s if isinstance(s, bytes) else str(s).encode() for s in sup] + [b"--"] + argv

        def pre():
            sandbox.libc.prctl(1, signal.SIGKILL, 0, 0, 0)
            if chroot is not None:
                os.chroot(chroot)
                os.chdir("/")
            if cwd is not None:
                os.chdir(cwd)
            if limits:
                import resource
                for k, v in limits.items():
                    resource.setrlimit(getattr(resource, k), v)
            os.umask(self.umask)
            for fd in close:
                os.close(fd)
            if user is not None:
                os.setgroups([])
                os.setresgid(user, user, user)
                os.setresuid(user, user, user)
        return subprocess.Popen(argv, stdin=stdin, stdout=stdout, stderr=stderr, env=san_env(env), preexec_fn=pre,
                                start_new_session=True, pass_fds=pass_fds)

    def nb(self, *args, stdin=b"y\n", crash_ok=False, expect=None, timeout=None, **kw):
        """Runs the program to its end. A crash, a sanitizer report or an
        exit status other than 0 and 1 is a violation wherever it happens."""
        if isinstance(stdin, str):
            stdin = stdin.encode()
        p = self.start(args, **kw)
        self.count("program_runs")
        try:
            out, err = p.communicate(stdin, timeout=timeout or self.timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.kill()
            out, err = p.communicate()
            self.trail.append({"args": [repr(a) for a in args], "timeout": True})
            raise Hang("no end after %ss: %r" % (timeout or self.timeout, args))
        rc = p.returncode
        r = Run(rc, out, err, args)
        self.trail.append(r.brief())
        del self.trail[:-12]
        if kw.get("sup") is not None and rc >= 128 and rc < 192:
            rc = r.rc = -(rc - 128)
        if kw.get("sup") is not None and rc in (249, 250):
            raise HarnessError("supervisor failed: %r %r" % (args, err[-400:]))
        if not crash_ok:
            self.check_sane(r)
        if expect is not None and rc != expect:
            self.fail("unexpected-status", "exit status %d instead of %d" % (rc, expect), run=r.brief())
        return r

    def check_sane(self, r):
        # an allocation which is refused is no error of the program
        err = b"\n".join(l for l in r.err.split(b"\n") if b"WARNING: MemorySanitizer failed to allocate" not in l and
                         b"WARNING: AddressSanitizer failed to allocate" not in l)
        if b"Sanitizer" in err or b"runtime error:" in err:
            self.fail("sanitizer", "sanitizer report", run=r.brief())
        if r.rc not in (0, 1):
            self.fail("crash", "ended with status %d" % r.rc, run=r.brief())
        if r.rc == 1 and b"nb: error:" not in r.err and b"(y/n)" not in r.out:
            self.fail("silent-failure", "failed without an error message", run=r.brief())

    def fuzz(self, variant, seeds, runs, seed, max_len=6000, words=(), judge=True):
        """Runs a libFuzzer binary; what it reports is a violation."""
        if variant in self.missing:
            return None
        d = self.tmpfile()
        os.mkdir(d)
        try:
            os.mkdir(d + "/corpus")
            os.mkdir(d + "/scratch")
            for k, s in enumerate(seeds):
                with open(d + "/corpus/s%d" % k, "wb") as f:
                    f.write(s)
            with open(d + "/dict", "wb") as f:
                for w in words:
                    f.write(b'"' + b"".join(b"\\x%02x" % c for c in w) + b'"\n')
            p = self.start((["-dict=" + d + "/dict"] if words else []) + ["-runs=%d" % runs, "-seed=%d" % seed, "-max_len=%d" % max_len, "-rss_limit_mb=3500", "-malloc_limit_mb=0", "-timeout=120",
                            "-verbosity=1", "-print_final_stats=1", "-artifact_prefix=" + d + "/", d + "/corpus"], variant=variant, cwd=d,
                           env={"FUZZ_DIR": d + "/scratch", **({} if judge else {"FUZZ_UB": "1"}), "ASAN_OPTIONS":
                                "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=300:abort_on_error=1:handle_abort=1"})
            out, err = p.communicate(b"", timeout=850)
            self.count("program_runs")
            if p.returncode != 0:
                art = [n for n in os.listdir(d) if n.startswith(("crash-", "timeout-", "oom-", "leak-"))]
                if not art:
                    raise HarnessError("fuzzer failed: %r %r" % (out[-800:], err[-3000:]))
                data = open(d + "/" + art[0], "rb").read()
                if art[0].startswith(("timeout-", "oom-")):
                    raise Hang("fuzzer stopped with %s: %r" % (art[0], data[:3000]))
                note = [l for l in out.split(b"\n") if l.startswith(b"MONITOR")] + [l for l in err.split(b"\n") if b"ERROR: " in l or b"runtime error" in l or
                                                                                    l.startswith(b"SUMMARY")]
                self.fail("fuzz", "%s: %s" % (variant, b"; ".join(note).decode(errors="replace")[:500]), input=data.hex(), stderr=repr(err[-4000:]))
            for l in out.decode(errors="replace").splitlines():
                if l.startswith("OBSERVED"):
                    for kv in l.split()[1:]:
                        k, v = kv.split("=")
                        self.count("fuzz_" + k, int(v))
            self.count("fuzz_runs", runs)
            corpus = os.listdir(d + "/corpus")
            for n in corpus:
                self.seen("fuzz_corpus", n)
            return len(corpus)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def tmpfile(self):
        self.tmpn += 1
        return "/tmp/aux%d" % self.tmpn


def _known():
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    o = json.loads(line)
                    if o.get("status") == "known":
                        out.append(o)
    return out


def case_rng(prop, i):
    return random.Random("%s:%d:%d" % (prop, SEED, i))


def _jsonable(o):
    if isinstance(o, bytes):
        return repr(o)
    if isinstance(o, dict):
        return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_jsonable(v) for v in o]
    if isinstance(o, (set, frozenset)):
        return sorted((_jsonable(v) for v in o), key=repr)
    if isinstance(o, (int, float, str, bool)) or o is None:
        return o
    return repr(o)


def run_case(mod, prop, i, tier):
    """Runs one case in a worker; returns a message."""
    os.makedirs(ROOT, exist_ok=True)
    sandbox.mount_tmpfs(ROOT)
    ctx = Ctx(prop, tier)
    world.KEEP = None
    msg = {"kind": "case", "case": i, "verdict": "held"}
    t = time.time()
    try:
        os.chdir("/tmp")
        sample = mod.case(ctx, i, case_rng(prop, i))
        msg["sample"] = _jsonable(sample)
    except Violation as v:
        msg.update(verdict="violated", key=v.key, msg=v.msg, detail=_jsonable(v.detail), trail=ctx.trail)
    except Hang as h:
        msg.update(verdict="hang", key="hang", msg=str(h), detail={}, trail=ctx.trail)
    except metafmt.Bad as e:
        msg.update(verdict="violated", key="bad-metadata", msg="metadata is not well-formed: %s" % e, detail={"trace": traceback.format_exc()[-1500:]}, trail=ctx.trail)
    except FileNotFoundError as e:
        if isinstance(e.filename, bytes) and os.path.basename(e.filename) in (b"metadata", b"config") and e.filename.startswith(b"/tmp/w/"):
            msg.update(verdict="violated", key="lost", msg="%r of a repository is gone" % e.filename, detail={"trace": traceback.format_exc()[-1500:]}, trail=ctx.trail)
        else:
            msg.update(verdict="error", text=traceback.format_exc(), trail=ctx.trail)
    except Exception:
        msg.update(verdict="error", text=traceback.format_exc(), trail=ctx.trail)
    finally:
        os.chdir("/tmp")
        try:
            sandbox.umount(ROOT)
        except OSError:
            pass
        for n in os.listdir("/tmp"):
            if n.startswith("aux"):
                try:
                    os.unlink("/tmp/" + n)
                except OSError:
                    pass
    msg["counts"], msg["sets"], msg["secs"] = dict(ctx.counts), {k: set(v) for k, v in ctx.sets.items()}, time.time() - t
    return msg


def main(mod, argv):
    prop = mod.PROP
    t0 = time.time()
    locale.setlocale(locale.LC_ALL, "C")
    only = None
    tier, seed_replay = TIER, None
    if len(argv) >= 2 and argv[0] == "--replay":
        with open(argv[1]) as f:
            rp = json.load(f)
        global SEED
        SEED, tier, only = rp["seed"], rp["tier"], rp["case"]
    elif len(argv) >= 2 and argv[0] == "--case":
        only = int(argv[1])
    ncases = mod.CASES[tier] if only is None else only + 1
    if os.environ.get("NB_CASES"):
        ncases = int(os.environ["NB_CASES"])

    missing, unportable = set(), []
    Ctx.missing = missing
    try:
        blobs = {}
        for v in mod.VARIANTS:
            try:
                path = build.build(v)
            except build.Unavailable as e:
                missing.add(v)
                print("NOTE property=%s %s was left out: %s" % (prop, v, str(e)[:400]))
                continue
            except build.Unportable as e:
                missing.add(v)
                unportable.append({"kind": "case", "case": -1, "key": "unportable", "msg": "the program cannot be built for %s: %s" % (v, str(e)[-600:]), "detail": {}, "trail": []})
                continue
            except build.BuildError as e:
                # a harness which uses internal functions may not fit to a changed tree
                if v not in getattr(mod, "OPTIONAL", {}) or "error:" not in str(e):
                    raise
                missing.add(v)
                print("NOTE property=%s %s does not fit to this tree and was left out" % (prop, v))
                continue
            with open(path, "rb") as f:
                blobs[v] = f.read()
        with open(build.helper("nbsup"), "rb") as f:
            blobs["nbsup"] = f.read()
    except build.BuildError as e:
        print("ERROR property=%s cannot build: %s" % (prop, e))
        return 2
    if hasattr(mod, "prepare"):
        mod.prepare()

    def worker(wid, send):
        os.makedirs(BIN)
        for name, data in blobs.items():
            with open(BIN + "/" + name, "wb") as f:
                f.write(data)
            os.chmod(BIN + "/" + name, 0o755)
        for i in ([only] if only is not None else range(wid, ncases, WORKERS)):
            m = run_case(mod, prop, i, tier)
            if m["verdict"] == "hang":
                # decide on a repetition with a far more generous watchdog
                old = Ctx.__init__

                def slow(self, p, t):
                    old(self, p, t)
                    self.timeout = 200.0
                Ctx.__init__ = slow
                m2 = run_case(mod, prop, i, tier)
                Ctx.__init__ = old
                m = m2
            send(m)

    counts, sets = collections.Counter(), collections.defaultdict(set)
    samples, viol, errors, known_hit, inconclusive, slowest = [], list(unportable), [], {}, 0, (0, None)
    known = _known()
    done = [0]

    def on_message(m):
        nonlocal slowest
        if m["kind"] == "error":
            errors.append(m["text"])
            return True
        done[0] += 1
        counts.update(m["counts"])
        for k, v in m["sets"].items():
            sets[k] |= v
        slowest = max(slowest, (m["secs"], m["case"]))
        if m["verdict"] == "held":
            if m.get("sample") is not None and (len(samples) < 3 or m["case"] < 3):
                samples.append(m["sample"])
            return False
        if m["verdict"] == "error":
            # go on for a while: what confused this case may be a violation which another one can tell
            errors.append("case %d: %s\n%s" % (m["case"], m["text"], json.dumps(m["trail"][-2:], indent=1)))
            return len(errors) >= 40
        for k in known:
            if k["property"] == prop and k["key"] == m["key"] and k.get("match", "") in json.dumps(m["detail"]) + m["msg"]:
                known_hit[k["id"]] = k
                return False
        viol.append(m)
        return len(viol) >= int(os.environ.get("NB_MAXVIOL", "1"))

    nworkers = 1 if only is not None else min(WORKERS, ncases)
    status = sandbox.run_workers(worker, nworkers, on_message) if not viol else []
    if any(s != 0 for s in status) and not errors and not viol:
        errors.append("worker ended with %r" % (status,))
    total = 1 if only is not None else ncases
    if not viol and not errors and done[0] != total:
        errors.append("only %d of %d cases were run" % (done[0], total))

    need = getattr(mod, "REQUIRED", {})
    if not viol and not errors and only is None and not os.environ.get("NB_CASES"):
        waived = {k for v in missing for k in getattr(mod, "OPTIONAL", {}).get(v, ())}
        for k, least in need.items():
            if k not in waived and counts[k] < least:
                errors.append("the workload observed %s=%d, expected at least %d" % (k, counts[k], least))

    cov = {"evaluations": counts.get("evaluations", 0) or done[0],
           "distinct_nontrivial": len(sets.get("nontrivial", ())),
           "rule": mod.RULE, "samples": samples[:4], "cases": done[0],
           "observed": {k: counts[k] for k in sorted(counts)},
           "distinct": {k: len(v) for k, v in sorted(sets.items())},
           "slowest_case_s": round(slowest[0], 2), "known_findings_seen": sorted(known_hit)}
    if mod.LEVEL == "other":
        cov["explanation"] = mod.RULE
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": mod.LEVEL, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only is None:
        tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp%d" % os.getpid())
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))

    for k in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viol:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        for m in viol:
            path = os.path.join("replay", "%s-%d-%d.json" % (prop, SEED, m["case"]))
            with open(os.path.join(VERIF, path), "w") as f:
                json.dump({"property": prop, "seed": SEED, "tier": tier, "case": m["case"], "key": m["key"],
                           "msg": m["msg"], "detail": m["detail"], "trail": m["trail"]}, f, indent=1)
            print("# %s: %s" % (m["key"], m["msg"]))
            if os.environ.get("NB_VERBOSE"):
                print(json.dumps(m["detail"], indent=1)[:6000])
                print(json.dumps(m["trail"][-3:], indent=1)[:6000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR property=%s %s" % (prop, e))
        return 2
    print("%s held: %d cases, %d evaluations, %d distinct non-trivial, %.1fs (slowest case %.1fs #%s)" % (
        prop, done[0], cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, slowest[0], slowest[1]))
    return 0
