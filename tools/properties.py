"""What each check runs."""
import json, os

from driver import SPEC, CheckError, NoHooks

ALL = "grid,small,medium,poly,polyc,shape,collinear,multi,nest,large"


# --------------------------------------------------------------------------------------------- parts

def controls(run, module="TriangulationTrace", file="controls.ndjson", spec="Spec"):
    """The trace specification itself must accept correct executions and reject corrupted ones, for the right reason."""
    cfg = "SPECIFICATION %s\nCONSTANT Watch = {}\nINVARIANTS Detected\nCHECK_DEADLOCK FALSE\n" % spec
    run.model("controls-" + module, module, cfg, env={"TRACES": os.path.join(SPEC, file)})


def oracle(run):
    """The tiling oracle against a direct definition, for all sets of triangles over a catalogue of polygon sets."""
    f = "tiles-quick.ndjson" if run.quick else "tiles-thorough.ndjson"
    run.model("tiles", "TilesMC", "SPECIFICATION Spec\nINVARIANTS InputsValid OracleSound\nCHECK_DEADLOCK FALSE\n", env={"CATALOGUE": os.path.join(SPEC, f)})


def core(run, watch, name="core", quick=dict(), thorough=dict(), **kw):
    opts = dict(scale=100, keep=300, modes=3, seconds=150)
    opts.update(kw)
    opts.update(quick if run.quick else thorough)
    out, stats = run.harness(name, "core", **opts)
    run.add_stats(stats)
    run.validate(name, "TriangulationTrace", watch, out)
    return out


def huge(run, watch, kinds=("strip", "cells", "nest"), quick=None, **kw):
    """Inputs of many thousand vertices, many rings or deep nesting, of kinds whose validity is checked in linear time."""
    controls(run, "HugeTrace", "controls-huge.ndjson")
    run.model("certificates", "HugeMC", "SPECIFICATION Spec\nCONSTANTS MaxColumns = %d\nMaxHeight = %d\nINVARIANTS Sound\nCHECK_DEADLOCK FALSE\n" % ((3, 1) if run.quick else (3, 3)))
    sizes = {"strip": "300,1100,2200,4500,9000,20000,40000,70000,140000", "cells": "70,300,1100,3000", "nest": "12,40,70,140,300,1100"} if run.quick else \
            {"strip": "300,600,1100,2200,4500,9000,18000,40000,70000,140000,300000,600000,1100000", "cells": "40,70,140,300,600,1100,2200,4500,9000,70000", "nest": "12,20,40,70,140,300,600,1100,2200,4500"}
    if quick and run.quick:
        sizes.update(quick)
    out, stats = run.harness("huge", "huge", seconds=60 if run.quick else 1200, shown=1 if run.quick else 2, shown_below=30000 if run.quick else 80000, **{k: sizes[k] for k in kinds}, **kw)
    run.add_stats(stats)
    run.validate("huge", "HugeTrace", watch, out)


def seidel(run):
    """The construction of the trapezoidation, at algorithm level, refines the decomposition."""
    base = "SPECIFICATION Spec\nCONSTANTS Width = %d\nHeight = %d\nCorners = %d\nRefreshes = {TRUE, FALSE}\nINVARIANTS InputsValid NoFailure CellsExact VerticesFound PointsFound Adjacent DividersOrdered TopFound Complete\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n"
    env = {"CATALOGUE": os.path.join(SPEC, "tiles-quick.ndjson" if run.quick else "seidel-thorough.ndjson")}
    run.model("seidel", "SeidelMC", base % (0, 0, 0), env=env)
    if not run.quick:
        run.model("seidel-grid4", "SeidelMC", base % (3, 3, 4), env=env)
        run.model("seidel-grid5", "SeidelMC", base % (3, 3, 5), env=env)


def sweep(run):
    """The traversal and the ear cutting, at algorithm level, refine the run a user observes, whatever the builder returns."""
    base = "SPECIFICATION Spec\nCONSTANTS Width = %d\nHeight = %d\nCorners = %d\nErrors = {%s}\nINVARIANTS NoStuckCall NothingLeft RunsToEnd ChainsInside ChainsFall\nPROPERTIES Refines Terminates\nCHECK_DEADLOCK FALSE\n"
    env = {"CATALOGUE": os.path.join(SPEC, "tiles-quick.ndjson" if run.quick else "cells-thorough.ndjson")}
    run.model("sweep", "SweepMC", base % (0, 0, 0, '"e1", "e2", "panic"'), env=env)
    if not run.quick:
        run.model("sweep-grid4", "SweepMC", base % (3, 3, 4, '"e1", "e2"'), env=env)
        run.model("sweep-grid5", "SweepMC", base % (3, 3, 5, ''), env=env)


def violated(run, watch):
    """Inputs which break the preconditions: the library may fail, even late, but keeps to the protocol."""
    controls(run, "LifecycleTrace", "controls-lifecycle.ndjson")
    run.model("lifecycle", "LifecycleMC", "SPECIFICATION ProtocolSpec\nCONSTANT MaxCalls = %d\nINVARIANT Protocol\nCHECK_DEADLOCK FALSE\n" % (7 if run.quick else 11))
    run.model("lifecycle-runs", "LifecycleMC", "SPECIFICATION RunSpec\nCONSTANT MaxCalls = 0\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n")
    out, stats = run.harness("violated", "violated", **(dict(scale=50, keep=300, seconds=40) if run.quick else dict(scale=3000, keep=20, seconds=1200)))
    run.add_stats(stats)
    run.validate("violated", "LifecycleTrace", watch, out, expected_extra_states=0)


# --------------------------------------------------------------------------------------------- checks

def c01(run):
    controls(run)
    oracle(run)
    sweep(run)
    out = core(run, ["index", "corners", "tiling", "success"], families=ALL, quick=dict(scale=300, keep=250), thorough=dict(scale=20000, keep=60, seconds=1500))
    huge(run, ["index", "corners", "tiling", "success"])
    run.agree("sweep-agreement", "SweepTrace", out, {"init", "fan", "ext", "build", "fail", "ret"}, 150 if run.quick else 3000)
    return "model_checking"


def c02(run):
    controls(run)
    core(run, ["success"], families=ALL, quick=dict(scale=500, keep=150, modes=2), thorough=dict(scale=40000, keep=30, modes=2, seconds=2400))
    huge(run, ["success"])
    return "model_checking"


def c03(run):
    controls(run)
    core(run, ["winding", "tiling"], families=ALL, quick=dict(scale=150, keep=300, modes=12), thorough=dict(scale=6000, keep=100, modes=12, seconds=1500))
    huge(run, ["winding", "tiling"], quick=dict(strip="300,2200,9000,40000", cells="300,1100", nest="12,70,300"))
    # the predefined formats, reversed or not
    sessions(run, ["winding", "tiling"], dict(depth=1, scale=200, keep=60, seconds=60), dict(depth=2, scale=3000, keep=10, seconds=600))
    adapters(run, ["declared"])
    return "model_checking"


def c04(run):
    controls(run)
    core(run, ["tiling", "success"], families="nest,multi,poly,polyc,large", quick=dict(scale=800, keep=150), thorough=dict(scale=60000, keep=20, seconds=1500))
    huge(run, ["tiling", "success"], ("cells", "nest"))
    return "model_checking"


def c05(run):
    controls(run)
    core(run, ["protocol"], families=ALL, quick=dict(scale=100, keep=400, modes=16), thorough=dict(scale=4000, keep=100, modes=16, seconds=1500))
    adapters(run, ["calls"])
    violated(run, ["protocol"])
    return "model_checking"


def c06(run):
    controls(run)
    opts = dict(scale=100, keep=60, seconds=100) if run.quick else dict(scale=6000, keep=20, seconds=1500)
    out, stats = run.harness("faults", "faults", **opts)
    run.add_stats(stats)
    run.validate("faults", "TriangulationTrace", ["protocol", "error", "cleanup"], out)
    adapters(run, ["result", "cleanup"])
    violated(run, ["protocol", "error", "cleanup"])
    return "model_checking"


def behaviours(run, r, least):
    """The behaviours a model run printed, for replay"""
    path = os.path.join(run.dir, "behaviours.ndjson")
    seen = set()
    with open(path, "w") as f:
        for line in r["out"].splitlines():
            if line.startswith('"BEHAVIOUR '):
                b = json.loads(line)[len("BEHAVIOUR "):]
                if b not in seen:
                    seen.add(b)
                    f.write(b + "\n")
    if len(seen) < least:
        raise CheckError("the specification printed only %d behaviours" % len(seen))
    return path


def adapters(run, watch):
    """into_fan_format and reverse_winding, driven by all behaviours of the specification and by whole runs."""
    controls(run, "AdapterTrace", "controls-adapters.ndjson")
    calls, vertices = (4, 3) if run.quick else (5, 3)
    r = run.model("adapters", "AdaptersMC", "SPECIFICATION Spec\nCONSTANTS MaxCalls = %d\nNumVertices = %d\nEmit = TRUE\nINVARIANTS RequirementsMet InnerLegal SameTriangles SameEnd OuterLegal Printed\nCHECK_DEADLOCK FALSE\n" % (calls, vertices), workers=1)
    profile = "lite" if run.quick else "release"
    out, stats = run.harness("adapters-replay", "replay", binary="adapters", profile=profile, behaviours=behaviours(run, r, 1000), vertices=vertices, keep=60 if run.quick else 20, seconds=200)
    run.add_stats(stats)
    run.validate("adapters-replay", "AdapterTrace", watch, out)
    out, stats = run.harness("adapters-runs", "runs", binary="adapters", profile=profile, keep=60 if run.quick else 20, **(dict(scale=100, seconds=100) if run.quick else dict(scale=5000, seconds=600)))
    run.add_stats(stats)
    run.validate("adapters-runs", "AdapterTrace", watch, out)


def formats(run, watch, quick, thorough):
    controls(run, "FormatTrace", "controls-format.ndjson")
    calls, vertices = (4, 3) if run.quick else (5, 3)
    r = run.model("formats", "FormatsMC", "SPECIFICATION Spec\nCONSTANTS MaxCalls = %d\nNumVertices = %d\nEmit = TRUE\nINVARIANTS Requirements Printed\nCHECK_DEADLOCK FALSE\n" % (calls, vertices), workers=1)
    profile = "lite" if run.quick else "release"
    opts = quick if run.quick else thorough
    out, stats = run.harness("replay", "replay", binary="formats", profile=profile, behaviours=behaviours(run, r, 1000), vertices=vertices, keep=opts["replay_keep"], seconds=300)
    run.add_stats(stats)
    run.validate("replay", "FormatTrace", watch, out, expected_extra_states=0)
    out, stats = run.harness("runs", "runs", binary="formats", profile=profile, scale=opts["scale"], keep=opts["keep"], seconds=opts["seconds"])
    run.add_stats(stats)
    run.validate("runs", "FormatTrace", watch, out, expected_extra_states=0)


def c07(run):
    formats(run, ["append", "restore"], dict(replay_keep=60, scale=150, keep=150, seconds=120), dict(replay_keep=20, scale=10000, keep=15, seconds=1500))
    # runs which fail for the library's own reasons, on inputs which break the preconditions
    out, stats = run.harness("violated", "violated", binary="formats", profile="lite" if run.quick else "release", **(dict(scale=50, keep=200, seconds=40) if run.quick else dict(scale=3000, keep=15, seconds=1200)))
    run.add_stats(stats)
    run.validate("violated", "FormatTrace", ["append", "restore"], out, expected_extra_states=0)
    return "model_checking"


def c08(run):
    formats(run, ["append", "shape", "decode", "delimiter"], dict(replay_keep=60, scale=150, keep=150, seconds=120), dict(replay_keep=20, scale=10000, keep=15, seconds=1500))
    return "model_checking"


def c09(run):
    controls(run, "StreamTrace", "controls-stream.ndjson")
    run.model("reader", "StreamsMC", "SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANTS ReaderIsGroup KeepsVertices NoEmptyRing MaximalRuns SeparatorsIdempotent RejectDocumented\nCHECK_DEADLOCK FALSE\n" % (10 if run.quick else 13))
    opts = dict(length=12, random=3000, keep=150, seconds=100) if run.quick else dict(length=17, random=100000, keep=30, seconds=1500)
    out, stats = run.harness("streams", "streams", binary="streams", profile="lite" if run.quick else "release", **opts)
    run.add_stats(stats)
    run.validate("streams", "StreamTrace", ["reject", "untouched", "protocol", "success", "index", "tiling"], out)
    return "model_checking"


def c10(run):
    controls(run, "IndexTrace", "controls-index.ndjson")
    run.model("indices", "IndicesMC", "SPECIFICATION Spec\nCONSTANT Bound = %d\nINVARIANTS NoAlias Identified RoundTrip InRange\nCHECK_DEADLOCK FALSE\n" % (2 if run.quick else 4))
    opts = dict(scale=150, keep=50, seconds=120) if run.quick else dict(scale=6000, keep=4, seconds=1500)
    out, stats = run.harness("index", "index", binary="index", profile="lite" if run.quick else "release", **opts)
    run.add_stats(stats)
    run.validate("index", "IndexTrace", ["index", "lookup", "conversion", "success", "corners", "tiling"], out)
    violated(run, ["index"])
    # more vertices, and more rings, than 16 bits can count
    huge(run, ["index", "tiling", "corners", "success"], ("strip", "cells"), quick=dict(strip="300,9000,70000,140000", cells="300,3000,70000"), lists="nested,index32")
    return "model_checking"


def sessions(run, watch, quick, thorough):
    """Histories of runs over one trapezoidation, with recording builders and predefined formats."""
    controls(run, "SessionTrace", "controls-session.ndjson")
    out, stats = run.harness("sessions", "sessions", binary="sessions", profile="lite" if run.quick else "release", **(quick if run.quick else thorough))
    run.add_stats(stats)
    run.validate("sessions", "SessionTrace", watch, out)


def c11(run):
    run.model("sessions", "SessionMC", "SPECIFICATION Spec\nCONSTANTS\n Pts <- Triangle\n Ids = {1, 2}\n Runs = %d\n Longest = 1\n Results = {\"ok\", \"e1\", \"panic\"}\nINVARIANTS Agreement Complete WholeTiles KnownComplete\nPROPERTIES Isolated Grows\nCHECK_DEADLOCK FALSE\n" % (2 if run.quick else 3))
    sessions(run, ["reuse", "success", "tiling", "winding", "protocol", "error", "cleanup"],
             dict(depth=3, scale=300, keep=60, seconds=120), dict(depth=4, scale=1500, keep=10, seconds=1500))
    violated(run, ["reuse"])
    return "model_checking"


def c12(run):
    controls(run, "SnapshotTrace", "controls-snapshot.ndjson")
    seidel(run)
    run.model("cells", "DecompositionMC", "SPECIFICATION Spec\nINVARIANTS InputsValid Count Partition Proper\nPROPERTY Local\nCHECK_DEADLOCK FALSE\n",
              env={"CATALOGUE": os.path.join(SPEC, "tiles-quick.ndjson" if run.quick else "cells-thorough.ndjson")})
    opts = dict(scale=100, keep=40, seconds=100) if run.quick else dict(scale=5000, keep=2, seconds=1500, grid_orders=2000)
    try:
        out, stats = run.harness("snapshots", "snapshots", binary="snapshots", **opts)
    except NoHooks:
        # the decomposition cannot be looked at: only its consequences are left
        run.assumptions.append("the decomposition itself could not be recorded in this tree; only the success and the tiling of whole runs were checked")
        return core_only(run)
    run.add_stats(stats)
    run.validate("snapshots", "SnapshotTrace", ["insertion", "cells", "location", "completion"], out)
    run.agree("seidel-agreement", "SeidelTrace", out, {"snap", "ret"}, 200 if run.quick else 3000)
    return "model_checking"


def core_only(run):
    core(run, ["success", "tiling"], families=ALL, quick=dict(scale=300, keep=250), thorough=dict(scale=10000, keep=60, seconds=1500))
    return "model_checking"


def c13(run):
    controls(run, "NumbersTrace", "controls-numbers.ndjson", "PlacedSpec")
    run.model("formats", "FloatsMC", "SPECIFICATION Spec\nCONSTANTS Grid = {%s}\nLowest = 4\nHighest = 2\nShifts = {%s}\nShears = {%s}\nP = 6\nINVARIANTS Enough\nCHECK_DEADLOCK FALSE\n"
              % (("0,1,2", "2,5", "0,1") if run.quick else ("0,1,2,3", "1,3,5", "0,1,2")))
    opts = dict(scale=150, keep=100, seconds=120) if run.quick else dict(scale=20000, keep=2, seconds=1500)
    out, stats = run.harness("numbers", "numbers", binary="numbers", profile="lite" if run.quick else "release", **opts)
    run.add_stats(stats)
    run.validate("numbers", "NumbersTrace", ["success", "tiling", "corners", "index"], out, spec="PlacedSpec")
    return "model_checking"


def c14(run):
    controls(run, "WorkTrace", "controls-work.ndjson")
    run.model("growth", "WorkMC", "SPECIFICATION Spec\nINVARIANTS Verdict\nCHECK_DEADLOCK FALSE\n")
    opts = dict(sizes="1024,4096,16384,65536", runs=16, seconds=300, instruction_sizes="512,2048,8192,32768", instruction_runs=4) if run.quick else dict(sizes="1024,4096,16384,65536,262144,1048576", runs=32, seconds=3000, instruction_sizes="512,2048,8192,32768,131072,524288", instruction_runs=8)
    out, stats = run.harness("work", "work", binary="work", **opts)
    run.add_stats(stats)
    run.validate("work", "WorkTrace", ["work"], out, expected_extra_states=0)
    return "model_checking"


def c15(run):
    controls(run, "InputTrace", "controls-inputs.ndjson")
    run.model("lists", "InputsMC", "SPECIFICATION Spec\nCONSTANTS MaxPolys = 3\nMaxTotal = %d\nINVARIANTS Sound ReadAsHeld\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n" % (4 if run.quick else 6))
    opts = dict(scale=400, keep=120, seconds=100) if run.quick else dict(scale=20000, keep=40, seconds=1200)
    out, stats = run.harness("inputs", "inputs", binary="inputs", profile="lite" if run.quick else "release", **opts)
    run.add_stats(stats)
    watch = ["order", "separation", "count", "lookup", "panic"]
    run.validate("inputs", "InputTrace", watch, out)
    # very many, and very long, polygons
    controls(run, "LongInputTrace", "controls-longinputs.ndjson")
    run.model("long-lists", "LongInputsMC", "SPECIFICATION Spec\nCONSTANTS MaxBlocks = %d\nMaxCount = 2\nMaxLength = 2\nMaxStretches = %d\nINVARIANTS Same SameLookup\nCHECK_DEADLOCK FALSE\n" % ((2, 3) if run.quick else (3, 4)))
    out, stats = run.harness("long", "long", seconds=60, binary="inputs", profile="lite" if run.quick else "release", scale=2 if run.quick else 100)
    run.add_stats(stats)
    run.validate("long", "LongInputTrace", watch, out, expected_extra_states=0)
    return "model_checking"


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15}
