"""What is explored for each property."""
import os

import adapt as adapt_gen
import resolve as resolve_gen
import returns as returns_gen
import shapes as shapes_gen
import share as share_gen
import sigs as sigs_gen
from run import known_findings

ASSUMPTIONS = [
    "linux/amd64, go1.23, code built with -gcflags='all=-l -N' as mockey requires",
    "functions are not patched while another goroutine runs them (mockey's documented restriction without mockey_stw)",
    "calls of originals are not preempted and do not grow the stack (see known-findings.txt)",
]
EXTRA_ASSUMPTIONS = {}
NOTE = ("TLA+ specification model-checked with TLC; behaviours enumerated and sampled from it by TLC replayed into the real code",
        "The specification's invariants are checked exhaustively in a bounded scope; the code is compared with the specification after every "
        "step of all enumerated short behaviours and of random long ones, each bound to different real functions. No claim beyond the explored "
        "behaviours. Assumes linux/amd64, go1.23, -gcflags='all=-l -N'.")
NOTES = {}

STRUCT = ["ChainsAreScopes", "HeldOnce", "OnePerContext", "OffIsZero", "Counters", "RemoveUndoesInstall", "RemovesCommute",
          "Idempotent", "BackToOrigin", "VRemovesCommute", "VUndo", "SeqValid", "SeqCyclic"]
MCS = {  # focus: (quick constants, thorough constants)
    "scopes": ((2, 1, 1, 2, 3, 1), (2, 1, 1, 3, 4, 1)),
    "vars": ((1, 2, 1, 2, 3, 1), (1, 1, 1, 3, 3, 1)),
    "parts": ((1, 4, 1, 3, 2, 1), (1, 4, 1, 3, 3, 1)),
    "calls": ((2, 1, 2, 1, 2, 2), (2, 1, 2, 2, 2, 2)),
    "nest": ((1, 1, 1, 2, 2, 1), (1, 1, 2, 2, 3, 2)),
    "seq": ((2, 1, 1, 2, 1, 3), (2, 1, 1, 2, 2, 5)),
    "flight": ((1, 1, 2, 2, 2, 2), (1, 1, 2, 3, 2, 2)),
}


def mc(r, focus, sharing="none"):
    nf, nv, ng, mm, ms, mn = MCS[focus][0 if r.quick() else 1]
    r.model_check("MC", {"Sharing": '"%s"' % sharing, "NF": nf, "NV": nv, "NG": ng, "Focus": '"%s"' % focus, "MaxMocks": mm, "MaxScopes": ms, "MaxN": mn},
                  STRUCT, constraint="Constraint", name=focus, timeout=800)


def T(L, mocks, scopes):
    return {"L": L, "MaxMocks": mocks, "MaxScopes": scopes}


TREES = {  # focus: quick, thorough
    "stack": (T(6, 2, 2), T(8, 3, 2)),
    "scopes": (T(5, 2, 2), T(6, 2, 3)),
    "vars": (T(5, 2, 2), T(7, 2, 2)),
    "parts": (dict(T(5, 2, 2), NV=4), dict(T(7, 2, 2), NV=4)),
    "remock": (T(5, 2, 1), T(7, 2, 1)),
    "reconf": (T(4, 1, 0), T(6, 1, 0)),
    "seq": (T(5, 2, 0), T(7, 2, 0)),
    "flight": (T(5, 2, 1), T(7, 2, 1)),
    "conds": (T(4, 1, 0), T(5, 1, 0)),
}


def tree(r, focus):
    return r.tree(focus, TREES[focus][0 if r.quick() else 1])


def gen(r, profile, quick, thorough, depth=40):
    return r.generate(profile, quick if r.quick() else thorough, depth)


def standard(mcs, trees, profile, nquick=250, nthorough=4000, depth=40, args=(), reps=1):
    def plan(r):
        for m in mcs:
            mc(r, m)
        r.driver()
        chunks = []
        for t in trees:
            chunks += tree(r, t)
        chunks += gen(r, profile, nquick, nthorough, depth)
        sample(r, chunks)
        r.replay(chunks, args=args, reps=reps)
    return plan


def sample(r, chunks):
    import json
    for p, lo, hi in chunks[:1] + chunks[-1:]:
        with open(p) as f:
            l = f.readline()
        if l:
            r.cov["samples"].append([dict(o=s["o"], outcome=s["r"], ran=s["ev"]) for s in json.loads(l)][:12])


CONC_INV = ["AsIfSequential", "AsBulk", "OutcomesAgree", "InOrder", "AllDrawn", "Bounds", "CountedFirst"]


def conc(r):
    """Heavy concurrency: calls in tight loops with exact totals, and recorded windows checked against ConcTrace."""
    for ng, n in ([(2, 2)] if r.quick() else [(3, 1), (2, 3), (3, 2)]):
        r.model_check("Conc", {"NF": 3, "NV": 1, "NG": ng, "MaxN": n}, CONC_INV, name="conc", timeout=800)
    r.replay(r.generate("CONC", 3 if r.quick() else 25, 40, ng=8))
    r.check_traces()


def together(r):
    """Patch and UnPatch of one mock by eight goroutines at once."""
    r.replay(r.generate("PATCH", 150 if r.quick() else 1500, 60, ng=8))


def parts(r):
    """A variable and a part of it, both mocked."""
    mc(r, "parts")
    r.replay(tree(r, "parts") + r.generate("PARTS", 100 if r.quick() else 2000, 40, consts={"NV": 4}))


def deep(r):
    """Many contexts in one another, and many mocks in effect at once."""
    r.replay(r.generate("DEEP", 3 if r.quick() else 30, 600))


def flight(r):
    """Calls under way while their mock is removed or changed, and calls of origin functions from outside."""
    mc(r, "flight")
    r.replay(tree(r, "flight") + gen(r, "FLIGHT", 150, 3000))


CONVEY_INV = ["Nested", "Owned", "Executed", "Restored", "CEmit"]


def trees(r):
    """Trees of nested PatchConvey contexts on one goroutine, executed path by path as goconvey does."""
    c = {"NF": 4, "NV": 3, "NG": 3, "D": 1000, "Profile": '"CONVEY"', "MaxLen": 200}
    kw = dict(init="CInit", nxt="CNext")
    all = dict(c, Exh="TRUE", MaxItems=4 if r.quick() else 5, MaxNodes=3, MaxRoots=1)
    chunks = r.table("Convey", all, CONVEY_INV, **kw)
    chunks += r.generate("CONVEY", 150 if r.quick() else 3000, 300, module="Convey", consts=dict(c, Exh="FALSE", MaxItems=24, MaxNodes=8, MaxRoots=2), inv=CONVEY_INV, **kw)
    r.replay(chunks)


USUAL = {"variant": "", "env": None}  # the configuration in which behaviours are replayed


def adapt(r, how=USUAL, size=None):
    """Which functions fit a target, and which arguments they get: all cases, on real functions."""
    n, pairs = size or ((2, 12) if r.quick() else (3, 20))
    v = "adapt" + how["variant"]
    f = os.path.join(r.dir, "adapt_gen.go")
    r.cov["type_pairs"] = [" / ".join(p) for p in adapt_gen.write(f, n, r.seed, pairs)]
    r.generated[v] = [f]
    r.replay(r.table("Adapt", {"N": n}, ["OneWay", "FormsFit", "NonGeneric", "TypesKept", "Emit"]), variant=v, env=how["env"], args=["-mode", "adapt"])


def sigs(r):
    """Behaviours on functions and methods with random signatures."""
    n = 32 if r.quick() else 200
    lines = r.simulate("Sigs", {}, n, 30)
    f = os.path.join(r.dir, "sigs_gen.go")
    ks = sigs_gen.write(lines, f)
    r.generated["sigs"] = [f]
    r.cov["signatures"] = len(ks)
    chunks = gen(r, "C13", 250, 3000)
    sample(r, chunks)
    r.replay(chunks, variant="sigs", args=["-kinds", ",".join(k[0] for k in ks)])


def returns(r, how=USUAL, reps=None):
    """What Return delivers, for all lists of result types and values."""
    chunks = r.table("Returns", {"Depth": 1 if r.quick() else 2}, ["Reflexive", "Symmetric", "Methods", "Numbers", "NilFits", "Emit"])
    f = os.path.join(r.dir, "returns_gen.go")
    returns_gen.write(open(chunks[0][0]).read().splitlines(), f)
    v = "returns" + how["variant"]
    r.generated[v] = [f]
    for i in range(reps or (8 if r.quick() else 100)):
        r.replay(chunks, variant=v, env=how["env"], args=["-mode", "returns", "-base", str(1000 * i)])


CODE_INV = ["CallsFollowStack", "NothingElse", "Restored", "Executable", "OneWritable", "CopyIsAllowed", "WholeInstructions", "RejectedUntouched", "OneByOne"]


def codepatch(r):
    """Patching at the level of bytes and pages."""
    edges = "{0, 1, 2, 3, 4, 5, 6, 7, 8}"
    small = {"J": 5, "Lens": "{1, 2, 3}", "MaxP": 3, "MaxS": 2, "Edges": edges, "EmitOn": "FALSE"}
    r.model_check("CodePatch", dict(small, L=5 if r.quick() else 7, Shape='"histories"'), CODE_INV, name="histories")
    r.model_check("CodePatch", dict(small, L=2, Shape='"layouts"'), CODE_INV, name="layouts")
    big = {"J": 12, "Lens": "{1, 3, 5, 8, 10}" if r.quick() else "{1, 2, 3, 4, 5, 6, 7, 8, 9, 10}", "MaxP": 1, "MaxS": 0, "EmitOn": "TRUE"}
    chunks = r.table("CodePatch", dict(big, L=1, Shape='"layouts"', Edges="{999}"), CODE_INV + ["Emit"])
    big = {"J": 12, "Lens": "{1, 5, 7}", "MaxP": 3, "MaxS": 2, "EmitOn": "TRUE"}
    chunks += r.table("CodePatch", dict(big, L=5 if r.quick() else 6, Shape='"histories"', Edges="{999, 3, 11}"), CODE_INV + ["Emit"])
    r.replay(chunks, args=["-mode", "codepatch"])


def shapes(r, how=None):
    """Which instantiations a generic mock is in effect for: all pairs of calls."""
    chunks = r.table("Shapes", {"Big": "TRUE"}, ["OwnCalls", "Everywhere", "SameItem", "SameLayout", "Coarsest", "Emit"])
    f = os.path.join(r.dir, "shapes_gen.go")
    shapes_gen.write(open(chunks[0][0]).read().splitlines(), f)
    if how:
        v = "shapes" + how["variant"]
        r.generated[v] = [f]
        return r.replay(chunks, variant=v, env=how["env"], args=["-mode", "shapes"])
    r.generated["shapes"] = [f]
    r.replay(chunks, variant="shapes", args=["-mode", "shapes"], reps=8 if r.quick() else 200)
    r.generated["shapes-race"] = [f]  # the race detector's calls in the code of instantiations
    r.replay(chunks, variant="shapes-race", args=["-mode", "shapes"], reps=1 if r.quick() else 20)


def shared(r):
    """Histories of instantiations that share code."""
    for sharing in ["pair"] if r.quick() else ["pair", "pairs", "trio"]:
        for focus in ("scopes", "calls"):
            mc(r, focus, sharing)
    for sharing in ("pair", "pairs", "trio"):
        v = "share" + sharing
        f = os.path.join(r.dir, v + "_gen.go")
        ks = share_gen.write(sharing, 20 if r.quick() else 60, r.seed, f)
        r.generated[v] = [f]
        chunks = r.generate("C16", 60 if r.quick() else 1200, 40, sharing=sharing)
        if sharing == "pair":
            for focus in ("remock", "scopes"):
                chunks += r.tree(focus, dict(TREES[focus][0 if r.quick() else 1], Sharing='"pair"'))
            sample(r, chunks)
        r.replay(chunks, variant=v, args=["-sharing", "-kinds", ",".join(ks)])


RESOLVE_INV = ["FirstInOrder", "OnlyOne", "Callable", "OwnMembers", "Emit"]
ALL_US = '{"none", "val", "ptr", "func", "nilfunc", "data"}'


def resolve(r):
    """Which implementation GetMethod names: families of types with anonymous fields."""
    for nn, links, us in [(3, 1, '{"none"}'), (2, 2, ALL_US)] + ([] if r.quick() else [(3, 2, '{"none"}')]):
        r.model_check("Resolve", {"NN": nn, "MaxLinks": links, "Us": us, "EmitOn": "FALSE"}, RESOLVE_INV, name="%d types" % nn, timeout=800)
    families(r, [(2, 150), (4, 300), (6, 150)] if r.quick() else [(2, 600), (3, 2000), (4, 2000), (5, 2000), (6, 2000), (8, 600)])


def families(r, sizes, how=USUAL):
    for nn, n in sizes:
        lines = r.simulate("Resolve", {"NN": nn, "MaxLinks": 3, "Us": ALL_US, "EmitOn": "TRUE"}, n, 15 * nn)
        p, f = (os.path.join(r.dir, "resolve%d%s" % (nn, x)) for x in (".txt", "_gen.go"))
        with open(p, "w") as o:
            o.write("\n".join(lines) + "\n")
        resolve_gen.write(lines, f)
        v = "resolve%d%s" % (nn, how["variant"])
        r.generated[v] = [f]
        r.cov["behaviours"]["families of %d types" % nn] = n
        r.replay([(p, 0, n)], variant=v, env=how["env"], args=["-mode", "resolve"])


ORIGIN = ["origin-stack-growth", "origin-relative-call", "origin-closure", "origin-other-receiver"]


def then(*plans):
    def plan(r):
        for p in plans:
            p(r)
    return plan


def scenarios(names, **kw):
    return lambda r: r.scenarios(names, known_findings(r.prop), **kw)


DEBUG = {"MOCKEY_DEBUG": "true"}


def configurations(r):
    """C18: the same behaviours under every configuration"""
    mc(r, "scopes")
    chunks = tree(r, "stack") + tree(r, "vars") + gen(r, "ALL", 60, 1500)
    sample(r, chunks)
    r.driver(), r.driver("stw")
    for name, variant, env in (("default", "", {}), ("debug", "", DEBUG), ("stw", "stw", {}), ("stw and debug", "stw", DEBUG)):
        n = r.cov["traces_validated_against_impl"]
        r.replay(chunks, variant=variant, env=env)
        r.cov.setdefault("configurations", {})[name] = r.cov["traces_validated_against_impl"] - n
    # patching at the level of bytes and pages, with the world stopped
    big = {"J": 12, "Lens": "{1, 5, 7}", "MaxP": 3, "MaxS": 2, "EmitOn": "TRUE"}
    chunks = r.table("CodePatch", dict(big, L=4 if r.quick() else 6, Shape='"histories"', Edges="{999, 3, 11}"), CODE_INV + ["Emit"])
    one = {"J": 12, "Lens": "{1, 5, 7}" if r.quick() else "{1, 3, 5, 8, 10}", "MaxP": 1, "MaxS": 0, "EmitOn": "TRUE"}
    chunks += r.table("CodePatch", dict(one, L=1, Shape='"layouts"', Edges="{999}"), CODE_INV + ["Emit"])
    r.replay(chunks, variant="stw", args=["-mode", "codepatch"])
    r.replay(chunks, variant="stw", env=DEBUG, args=["-mode", "codepatch"])
    # everything else
    for how in [{"variant": "", "env": DEBUG}] if r.quick() else [{"variant": v, "env": e} for v, e in (("", DEBUG), ("-stw", None), ("-stw", DEBUG))]:
        adapt(r, how, (1, 12) if r.quick() else None)
        returns(r, how, 1 if r.quick() else 8)
        families(r, [(3, 100)] if r.quick() else [(3, 600), (5, 600)], how)
        shapes(r, how)
    slow = ["slow-output-%d" % i for i in range(1, 9)]
    r.scenarios(slow, {}, env=DEBUG)
    r.scenarios(slow, {}, "stw", DEBUG)


def startup(r):
    """Programs built and started in every way."""
    import json, subprocess
    vals = '{"unset", "false", "true", "", "0", "FALSE", "no", "1"}'
    chunks = r.table("Startup", {"Check": vals, "Debug": vals if not r.quick() else '{"unset", "true", "false", "1"}'},
                     ["SameResults", "NotSilent", "NoFalseWarning", "Quiet", "Said", "Emit"], init="Init", nxt="Next")
    cases = [json.loads(l) for l in open(chunks[0][0])]
    scopes = ["github.com/bytedance/mockey/..."] + ([] if r.quick() else ["all"])
    builds = sorted({(s, tuple(sorted(c["flags"])), c["stw"]) for s in scopes for c in cases})
    exes = dict(zip(builds, r.pool.map(lambda b: startup_program(r, *b), builds)))

    def one(job):
        i, k, c = job
        for n in range(3):
            what = startup_case(r, exes[k], c, "%s/res%d" % (r.dir, i))
            if not what:
                return None
        return what, k, c
    jobs = [(i, k, c) for i, (k, c) in enumerate((k, c) for k in exes for c in cases if (tuple(sorted(c["flags"])), c["stw"]) == k[1:])]
    for bad in r.pool.map(one, jobs):
        if bad:
            raise r.violation("startup", {"build": bad[1], "case": bad[2]}, bad[0])
    r.cov["traces_validated_against_impl"] += len(jobs)
    r.cov["steps_validated_against_impl"] += 5 * len(jobs)
    r.cov["samples"] = cases[:6]
    r.log("ran %d programs" % len(jobs))


def startup_program(r, scope, flags, stw):
    return r.program("start", "%s=%s" % (scope, " ".join(flags)), stw, "start-%s-%s-%s" % (scope.strip(".").replace("/", "_"), "".join(flags), stw))


def startup_case(r, exe, c, out):
    import subprocess
    env = {k: v for k, v in r.env.items() if k not in ("MOCKEY_CHECK_GCFLAGS", "MOCKEY_DEBUG")}
    env.update({k: v for k, v in (("MOCKEY_CHECK_GCFLAGS", c["check"]), ("MOCKEY_DEBUG", c["debug"])) if v != "unset"})
    p = subprocess.run([exe, out], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    said = (p.stdout + p.stderr).decode("utf8", "replace")
    res = open(out).read() if os.path.exists(out) else None
    if os.path.exists(out):
        os.remove(out)
    if p.returncode != 0 or res != "[%s]" % " ".join(map(str, c["res"])):
        return "the program ended with %s and gave %s instead of %s: %s" % (p.returncode, res, c["res"], said[-300:])
    if ("gcflags" in said.lower()) != c["warned"]:
        return "%s warning about gcflags: %r" % ("no" if c["warned"] else "a", said[-300:])
    rest = [l for l in said.splitlines() if "gcflags" not in l.lower() and l.strip()]
    if (rest != []) != c["talked"]:
        return "%s debug output: %r" % ("no" if c["talked"] else "there is", said[-300:])


PLANS = {
    "C13": then(sigs, adapt),
    "C14": then(codepatch, lambda r: r.replay(gen(r, "C02", 25, 800, 60), args=["-deep"])),
    "C15": then(resolve, scenarios(["method-in-interface-pointer", "method-behind-nil", "method-cycle"])),
    "C16": then(shapes, shared, scenarios(["origin-other-instance"])),
    "C17": returns,
    "C01": then(trees, standard(["scopes"], ["scopes"], "C01"), parts, deep),
    "C02": then(standard(["scopes"], ["stack"], "C02", args=["-deep"]), together),
    "C03": standard(["calls", "nest"], ["conds"], "C03", 350),
    "C04": then(standard(["calls"], ["conds"], "C04", 350), conc),
    "C05": then(standard(["calls"], ["stack"], "C05", 350), flight, conc, scenarios(ORIGIN)),
    "C06": then(standard(["calls"], ["conds"], "C06", 350), conc),
    "C07": then(standard(["seq"], ["seq"], "C07", 350), conc),
    "C08": then(standard(["vars"], ["vars"], "C08"), parts, together),
    "C09": then(standard(["scopes"], ["remock"], "C09"), scenarios(["remock-inside-generic"])),
    "C10": then(standard(["scopes"], ["reconf"], "C10"), adapt),
    "C11": then(standard(["scopes"], ["scopes"], "C11"), parts),
    "C12": then(standard(["scopes", "nest"], ["reconf"], "C12"), flight),
    "C18": configurations,
    "C20": startup,
    "C19": then(standard(["scopes"], [], "C19", 150), deep),
}
