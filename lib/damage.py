"""Damages stored files of a repository."""
import os, socket
import metafmt, world

KINDS = ["missing", "short", "empty", "long", "flip", "flipfirst", "fliplast", "zero", "other", "dir", "fulldir", "fifo", "dangling", "loop", "socket",
         "swap", "parentgone", "parentfile", "rotate"]
# what leaves the size as it is
QUIET = ["flip", "flipfirst", "fliplast", "zero", "rotate", "swap"]


def stored(repo, meta):
    return sorted(metafmt.needed_blobs(meta))


def damage(rng, repo, blobs, kinds=KINDS):
    """Damages one of the stored files. Returns (kind, blob) or None."""
    b = rng.choice(blobs)
    p = repo + b"/" + b
    k = rng.choice(kinds)
    try:
        st = os.lstat(p)
    except OSError:
        return None
    if not os.path.isfile(p) or os.path.islink(p):
        return None
    n = st.st_size
    if n == 0:
        return None
    times = (st.st_atime_ns, st.st_mtime_ns)
    if k == "missing":
        os.unlink(p)
    elif k == "short":
        os.truncate(p, rng.choice([n - 1, rng.randrange(n), min(n - 1, 4096), n // 2]))
    elif k == "empty":
        os.truncate(p, 0)
    elif k == "long":
        with open(p, "ab") as f:
            f.write(rng.randbytes(rng.choice([1, 1, 5, 5000])))
    elif k in ("flip", "flipfirst", "fliplast"):
        i = 0 if k == "flipfirst" else n - 1 if k == "fliplast" else rng.randrange(n)
        with open(p, "r+b") as f:
            f.seek(i)
            c = f.read(1)[0]
            f.seek(i)
            f.write(bytes([c ^ (1 << rng.randrange(8))]))
    elif k == "zero":
        d = world.read(p)
        if not d.strip(b"\0"):
            return None
        world.write(p, b"\0" * n)
    elif k == "rotate":
        d = world.read(p)
        if d == d[1:] + d[:1]:
            return None
        world.write(p, d[1:] + d[:1])
    elif k == "other":
        world.write(p, rng.randbytes(rng.choice([n, n, n + 1, 21])))
    elif k in ("dir", "fulldir"):
        os.unlink(p)
        os.mkdir(p)
        if k == "fulldir":
            world.write(p + b"/x", b"y" * n)
    elif k == "fifo":
        os.unlink(p)
        os.mkfifo(p)
    elif k == "socket":
        os.unlink(p)
        try:
            s = socket.socket(socket.AF_UNIX)
            s.bind(p)
            s.close()
        except OSError:
            pass
    elif k == "dangling":
        os.unlink(p)
        os.symlink(b"nowhere", p)
    elif k == "loop":
        os.unlink(p)
        os.symlink(os.path.basename(p), p)
    elif k == "swap":
        same = [x for x in blobs if x != b and os.path.isfile(repo + b"/" + x) and not os.path.islink(repo + b"/" + x)
                and os.lstat(repo + b"/" + x).st_size == n]
        q = repo + b"/" + rng.choice(same or blobs)
        if q == p or not os.path.isfile(q) or os.path.islink(q) or world.read(p) == world.read(q):
            return None
        os.rename(p, p + b"~")
        os.rename(q, p)
        os.rename(p + b"~", q)
    elif k == "parentgone":
        world.rmtree(os.path.dirname(p))
    elif k == "parentfile":
        d = os.path.dirname(p)
        world.rmtree(d)
        world.write(d, b"in the way")
    if k in QUIET and rng.random() < 0.5:
        os.utime(p, ns=times)
    return k, b


def healthy(repo, blob):
    """Whether a stored file is what its name says."""
    h, size, slot = blob.split(b"x")
    try:
        e = world.entry(repo + b"/" + blob)
    except OSError:
        return False
    return e.type == world.F and e.size == int(size, 16) and e.digest.hex().encode() == h.replace(b"/", b"")
