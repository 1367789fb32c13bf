"""Runs the program with its output on a terminal."""
import os, pty, re, select, time

END = b"\x1eEND\x1e"


def run(ctx, args, stdin=b"y\n", check=True, **kw):
    """Returns a Run whose output is the text as a reader sees it in the end."""
    import harness
    m, sl = pty.openpty()
    p = ctx.start(args, stdout=sl, **kw)
    ctx.count("program_runs")
    ctx.count("terminal_runs")
    try:
        p.stdin.write(stdin)
        p.stdin.close()
    except BrokenPipeError:
        pass
    p.stdin = None
    out, marked, limit = b"", False, time.time() + ctx.timeout
    while END not in out:
        if not marked and p.poll() is not None:
            # nothing of what was written before can come after this
            os.write(sl, END)
            marked = True
        if select.select([m], [], [], 0.002)[0]:
            out += os.read(m, 65536)
        elif time.time() > limit:
            p.kill()
            raise harness.Hang("no end on a terminal: %r" % (args,))
    os.close(sl)
    os.close(m)
    _, err = p.communicate(timeout=60)
    raw = out[:out.index(END)]
    out = plain(raw)
    r = harness.Run(p.returncode, out, err, args)
    ctx.trail.append(r.brief())
    del ctx.trail[:-12]
    if check:
        ctx.check_sane(r)
        colours = re.findall(rb"\x1b\[([0-9;]*)m", raw)
        if colours and colours[-1].strip(b"0;"):
            ctx.fail("colour", "the terminal is left with the colour %r" % colours[-1], run=r.brief())
        ctx.count("terminal_colours", len(colours))
    return r


def plain(out):
    out = out.replace(b"\r\n", b"\n")
    out = re.sub(rb"\x1b\[[0-9;]*m", b"", out)
    # a line which was overprinted is gone
    while True:
        new = re.sub(rb"[^\n]*\n\x1b\[1F\x1b\[2K", b"", out, count=1)
        if new == out:
            return out
        out = new
