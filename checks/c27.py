"""C27: nothing is changed without the user's explicit consent.

Runs with something to do are given every kind of answer; while the question
waits, and after a refusal, repository and file system are compared with what
they were. Accepted runs must have done their work."""
import os, pty, select, socket, subprocess, time

import crash, harness, metafmt, scen, sup, world

PROP = "C27"
VARIANTS = ["plain"]
CASES = {"quick": 500, "thorough": 3000}
LEVEL = "exploration"
RULE = ("one evaluation = one run of a backup or restore with changes, given one sequence of answers (bytes of any value and length, with and without "
        "end of input); non-trivial: the question was asked; distinct by scenario, command and answers")
REQUIRED = {"runs_accepted": 1500, "runs_refused": 2500, "questions": 10000, "waiting_states_compared": 1000, "repeated_questions": 3000, "terminal_runs": 250, "input_errors": 400}
ASSUMPTIONS = ["line ends are newline, carriage return and null-byte, as in the tests of the repository"]

YES, NO = (b"y", b"yes"), (b"n", b"no")
OTHER = [b"", b"Y", b"YES", b"Yes", b"N", b"No", b"NO", b"ye", b"yess", b"yes ", b" yes", b" y", b"y ", b"yy", b"nn", b"non", b"none", b"yn", b"ny",
         b"y/n", b"\xff", b"\xffy", b"y\xff", b"\xff\xff\xff\xff", b"1", b"0", b"true", b"ok", b"j", b"ja", b"oui", b"q", b"quit", b"y\ty", b"\x00y"[1:] + b"?",
         b"yes\x7f", b"\x80", b"\xc3\xbf", b"y\x01", b"\x1by", b"no no", b"yesno", b"noyes", b"e", b"es", b"o", b"proceed", b"%s%n%d", b"y" * 3, b"y" * 4,
         b"y" * 5, b"abc", b"abcd", b"abcde", b"y\x0b", b"n\x0c", b"'y'", b"\\y", b"y\\n", b"-y", b"--yes"]


def answers(rng):
    """A byte string for standard input."""
    out = []
    for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3, 6])):
        k = rng.random()
        if k < 0.7:
            out.append(rng.choice(OTHER))
        elif k < 0.9:
            out.append(bytes(rng.choice([x for x in range(256) if x not in (0, 10, 13)]) for _ in range(rng.randrange(12))))
        else:
            out.append(rng.choice([b"y", b"n", b"x", b"yes", b" ", b"\xff"]) * rng.choice([7, 63, 64, 65, 1023, 4096, 70000, 1 << 20]))
    out = [x for x in out if x not in YES + NO]
    sep = [rng.choice([b"\n", b"\n", b"\n", b"\r", b"\0", b"\r\n", b"\n\n"]) for _ in out]
    data = b"".join(x + s for x, s in zip(out, sep))
    k = rng.random()
    end = rng.choice([b"\n", b"\n", b"\n", b"\r", b"\0", b"", b"\r\n"])
    if k < 0.35:
        data += rng.choice(YES) + end
    elif k < 0.6:
        data += rng.choice(NO) + end
    elif k < 0.75:
        data += rng.choice(NO + YES)[:rng.randrange(3)]
    if rng.random() < 0.3 and end:
        data += rng.choice([b"y\n", b"n\n", b"yes", b"no\n", b"\xff"])
    return data


def verdict(data):
    """What the program must make of standard input: (accepted, questions)."""
    n, cur, q = 0, b"", 1
    i = 0
    while True:
        j = min((x for x in (data.find(c, i) for c in (b"\n", b"\r", b"\0")) if x >= 0), default=-1)
        if j < 0:
            line, last = data[i:], True
        else:
            line, last = data[i:j], False
        if last and not line:
            return False, q
        if line in YES:
            return True, q
        if line in NO:
            return False, q
        q += 1
        i = len(data) if last else j + 1


def everything():
    return world.snap(scen.BASE)


def unchanged(ctx, before, what, run=None, repo=b"/tmp/w/repo"):
    after = everything()
    bad = []
    for p in sorted(set(before) | set(after)):
        if p == repo + b"/lockfile" or p == repo:
            continue
        a, b = before.get(p), after.get(p)
        if a is None or b is None:
            bad.append("%r was %s" % (p, "created" if a is None else "removed"))
        else:
            d = world.untouched(a, b)
            if d:
                bad.append("%r: %s" % (p, ", ".join(d)))
    if bad:
        ctx.fail("changed-without-consent", "%s: %s" % (what, "; ".join(bad[:5])), run=run.brief() if run else None)


def wait_prompt(fd, question, buf, upto, limit=60):
    """Reads from FD until the question was asked UPTO times (or the end)."""
    t = time.time() + limit
    while buf.count(question) < upto:
        ready, _, _ = select.select([fd], [], [], max(0, t - time.time()))
        if not ready:
            raise harness.Hang("question %d did not come: %r" % (upto, buf[-300:]))
        try:
            b = os.read(fd, 1 << 16)
        except OSError:
            b = b""
        if not b:
            return buf, True
        buf += b
    return buf, False


def case(ctx, i, rng):
    restore = i % 2 == 1
    s = crash.pending_backup(ctx, rng, size=(2, 7), most=2, policies=False)
    if s is None:
        return None
    if restore:
        s.normalise()
        if s.backup(expect=None).rc != 0:
            return None
        meta = s.meta()
        s.mutate(rng.randrange(1, 5))
        scen.hostile(s, meta, 0, rng.randrange(0, 3), victims=False)
        scen.unfollow(meta, 0, rng, strong=True)
        scen.notice_restore(meta, 0, rng)
        args = [s.repo, b"%d" % 0] + ([s.src] if rng.random() < 0.5 else [])
        q = b"restore? (y/n) "
    else:
        args = [s.repo]
        q = b"proceed? (y/n) "
    keep = scen.BASE + b"-keep"
    base = ctx.nb(*args, stdin=b"", expect=None)
    if q not in base.out:
        return None
    if base.rc != 1:
        ctx.fail("proceeded", "the end of input counts as consent", run=base.brief())
    want_body = sorted(base.out[:base.out.index(q)].split(b"\n"))
    seen = []

    def done():
        """Whether the work was done: a repetition has nothing to do, or less."""
        if restore:
            m = s.meta()
            for p, (st, pol) in metafmt.expected_tree(m, 0).items():
                if len(args) > 2 and not scen.under(p, args[2]):
                    continue
                if st.type == metafmt.DIR and pol == 0:
                    continue
                try:
                    d = scen.state_ent_diff(st, world.entry(p))
                    if d:
                        ctx.trail.append({"differs": [repr(p), d]})
                        return False
                except OSError:
                    return False
            return True
        return crash.load(ctx, s.repo) is not None and world.read(s.repo + b"/metadata") != before_meta

    try:
        if os.path.lexists(keep):
            world.rmtree(keep)
        world.copy_tree(scen.BASE, keep)

        def back():
            for n in os.listdir(scen.BASE):
                world.rmtree(scen.BASE + b"/" + n)
            for n in os.listdir(keep):
                world.copy_tree(keep + b"/" + n, scen.BASE + b"/" + n)
        before_meta = world.read(s.repo + b"/metadata") if s.has_meta() else None
        dirty = False
        for k in range(14 if ctx.tier == "quick" else 60):
            if dirty:
                back()
                dirty = False
            before = everything()
            data = answers(rng)
            ok, nq = verdict(data)
            ctx.count("evaluations")
            ctx.seen("nontrivial", (i, data))
            ctx.count("repeated_questions", nq - 1)
            mode = rng.choice(["pipe", "pipe", "pipe", "file", "steps", "tty", "error"])
            if mode == "tty" and (len(data) > 1000 or any(c in data for c in b"\0\r\x03\x04\x1c\x1a\x7f\x15\x16\x17\x12\x11\x13\x0f")):
                mode = "pipe"
            if mode == "error":
                # at its end, reading fails: what was begun is no answer
                data = data[:60000]
                cut = max(data.rfind(c) for c in (b"\n", b"\r", b"\0")) + 1
                if rng.random() < 0.4:
                    data = data[:cut] + rng.choice(YES + NO)
                ok, nq = verdict(data[:cut])
            seen.append((mode, data[:40], ok)); ctx.trail.append({"given": [mode, repr(data[:200])]})
            if mode == "pipe":
                r = ctx.nb(*args, stdin=data, expect=None)
                got = r.out.count(q)
            elif mode == "error":
                a, b = socket.socketpair()
                b.send(b"unread")
                a.send(data)
                a.setblocking(False)
                p = ctx.start(args, stdin=b)
                a.close()
                b.close()
                out, err = p.communicate(timeout=60)
                r = harness.Run(p.returncode, out, err, args)
                got = r.out.count(q)
                ctx.count("input_errors")
            elif mode == "file":
                world.write("/tmp/auxin", data)
                with open("/tmp/auxin", "rb") as f:
                    p = ctx.start(args, stdin=f)
                    out, err = p.communicate(timeout=60)
                r = harness.Run(p.returncode, out, err, args)
                got = out.count(q)
            elif mode == "steps":
                # answer by answer, looking at everything while the question waits
                p = ctx.start(args)
                parts, j = [], 0
                while j < len(data):
                    e = min((x for x in (data.find(c, j) for c in (b"\n", b"\r", b"\0")) if x >= 0), default=len(data) - 1)
                    parts.append(data[j:e + 1])
                    j = e + 1
                buf, end = b"", False
                for n, part in enumerate(parts + [None]):
                    buf, end = wait_prompt(p.stdout.fileno(), q, buf, n + 1)
                    if end:
                        break
                    if n < 2 or part is None:
                        unchanged(ctx, before, "while question %d waits for an answer (answered so far: %r)" % (n + 1, parts[:n]))
                        ctx.count("waiting_states_compared")
                    if n + 1 >= nq or part is None or part[-1] not in b"\n\r\0":
                        break
                    try:
                        p.stdin.write(part)
                        p.stdin.flush()
                    except BrokenPipeError:
                        break
                rest = b"".join(parts[n:])
                out, err = p.communicate(rest, timeout=60)
                r = harness.Run(p.returncode, buf + out, err, args)
                got = r.out.count(q)
            else:
                m, sl = pty.openpty()
                import termios
                a = termios.tcgetattr(sl)
                a[3] &= ~termios.ECHO
                termios.tcsetattr(sl, termios.TCSANOW, a)
                p = ctx.start(args, stdin=sl)
                os.close(sl)
                buf = b""
                for n, line in enumerate(data.split(b"\n")):
                    buf, end = wait_prompt(p.stdout.fileno(), q, buf, n + 1)
                    if end:
                        break
                    last = n == data.count(b"\n")
                    # end of file comes as a control character, twice after a started line
                    os.write(m, line + (b"\n" if not last else b"\x04\x04" if line else b"\x04"))
                    if last and line and line not in YES + NO:
                        buf, end = wait_prompt(p.stdout.fileno(), q, buf, n + 2)
                        if not end:
                            os.write(m, b"\x04")
                out, err = p.communicate(timeout=60)
                os.close(m)
                r = harness.Run(p.returncode, buf + out, err, args)
                got = r.out.count(q)
                ctx.count("terminal_runs")
            ctx.count("questions", got)
            ctx.check_sane(r)
            what = "answers %r (%s)" % (data[:100], mode)
            if sorted(r.out[:max(0, r.out.find(q))].split(b"\n")) != want_body:
                ctx.fail("report", "the changes were not shown before the question: " + what, run=r.brief())
            if got != nq:
                ctx.fail("questions", "%d questions instead of %d: %s" % (got, nq, what), run=r.brief())
            if ok:
                dirty = True
                ctx.count("runs_accepted")
                if r.rc != 0:
                    ctx.fail("not-done", "consent was given but the run failed: " + what, run=r.brief())
                if not done():
                    ctx.fail("not-done", "consent was given but the work was not done: " + what, run=r.brief())
            else:
                ctx.count("runs_refused")
                if r.rc != 1:
                    ctx.fail("proceeded", "exit status %d without consent: %s" % (r.rc, what), run=r.brief())
                unchanged(ctx, before, "refused, " + what, r)
    finally:
        if os.path.lexists(keep):
            world.rmtree(keep)
    return {"restore": restore, "answers": seen[:6]}
