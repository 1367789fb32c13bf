"""C05: a backup contains exactly the paths the configuration selects.

Oracle: selection.Selection, a declarative reading of the rules, applied to
what lies on disk; observed: path list and policies of the metadata, and the
exit status for ambiguous rules."""
import os
import cfggen, metafmt, scen, selection, toplevel, world

PROP = "C05"
VARIANTS = ["plain"]
CASES = {"quick": 2730, "thorough": 60000}
LEVEL = "exploration"
RULE = ("random trees and random rule sets (nested, missing, through links, expressions at any depth, ignore lists, any layout); the "
        "recorded paths and policies are compared with a declarative reading of the rules. Non-trivial: at least two policies or an "
        "ignore expression or an expression element decided something; distinct by (rules, selected paths).")
REQUIRED = {"paths_selected": 2000, "ambiguous_configs": 20, "ignored_paths": 200, "rules_through_links": 20,
            "top_level_paths_verified": 1000}
ASSUMPTIONS = ["expressions are evaluated by the C library's regexec in the C locale, as the program does"]


def case(ctx, i, rng):
    if i % 20 == 11:
        return toplevel.case(ctx, i, rng, requests=1)
    s = scen.Scene(ctx, rng, weird=rng.choice([0.05, 0.3]))
    s.gen.fill(rng.randrange(3, 16), rng.randrange(1, 5))
    rules = cfggen.rules(rng, s, n=rng.choice([0, 1, 2, 3, 4, 6, 10]), src_always=0.6, regexes=0.35)
    ignore = cfggen.exprs(rng, cfggen.FULL, 0.6, 4)
    if rng.random() < 0.3:
        # an ignore expression for exactly one existing path
        p = s.gen.pick()
        if p and b"\n" not in p:
            ignore.append(b"^" + cfggen.escape(p)[1:])
    s.config(cfggen.layout(rng, rules, ignore))
    sel = selection.Selection(rules, ignore)
    ctx.count("evaluations")
    for pol, p in rules:
        if p.startswith(s.top + b"/ln"):
            ctx.count("rules_through_links")
    want, ambiguous, unreachable = sel.expected()
    if ambiguous or unreachable:
        r = s.backup(expect=1)
        ctx.count("ambiguous_configs", bool(ambiguous))
        ctx.count("unreachable_parents", bool(unreachable))
        if not unreachable and b"ambiguous rules" not in r.err:
            ctx.fail("ambiguous", "two rules match %r but the error says something else" % ambiguous, run=r.brief())
        if s.has_meta():
            ctx.fail("ambiguous", "a failing backup changed the repository")
        ctx.seen("nontrivial", (rules, "failing"))
        return {"rules": rules, "ambiguous": ambiguous, "unreachable": unreachable}
    r = s.backup()
    got = {}
    if s.has_meta():
        m = s.meta()
        got = {p: n.policy for p, n, _ in m.walk()}
        for p, n, _ in m.walk():
            if n.history[0][1].type == metafmt.NONE:
                ctx.fail("selection", "a first backup records %r as removed" % p)
        s.audit(meta=m)
    if got != want:
        miss = sorted(set(want) - set(got))[:5]
        extra = sorted(set(got) - set(want))[:5]
        pol = sorted((p, want[p], got[p]) for p in set(want) & set(got) if want[p] != got[p])[:5]
        ctx.fail("selection", "missing %r, unexpected %r, other policy %r" % (miss, extra, pol), rules=rules, ignore=ignore)
    ctx.count("paths_selected", len(got))
    disk = world.snap(s.top, content=False)
    ign = [p for p in disk if p not in got and any(x.matches(p) for x in sel.ignore)]
    ctx.count("ignored_paths", len(ign))
    ctx.count("skipped_other_types", sum(1 for e in disk.values() if e.type == world.O))
    if len(set(got.values()) - {0}) > 1 or ign or any(rx for r_ in sel.rules for rx, _ in r_):
        ctx.seen("nontrivial", (rules, sorted(got)))
    # a second backup sees the same selection (nothing to do)
    ctx.count("rules", len(rules))
    return {"rules": rules, "ignore": ignore, "selected": sorted(got)[:12]}
