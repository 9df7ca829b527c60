"""Calls leave their arguments alone, give the same again, and what they returned stays."""

import importlib
import os
import shutil

import numpy as np

from vlib import gen, pure
from vlib.core import Ctx, Family, Violation, case_rng

PROPERTY = "C21"
RULE = (
    "the workloads of the other properties, with every call of an oracle into the code watched: arguments before and after, the same call again with copies of the "
    "arguments at once and after the rest of the case, results looked at again at the end. Distinct by workload and case; non-trivial: a case with watched calls"
)
ASSUMPTIONS = ["arguments that are documented as outputs may change", "results equal to 1e-9, rounding may depend on where an array lies"]
CHECKS = ["C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C19", "C20"]
SHARE = {"C14": 0.12, "C09": 0.15, "C10": 0.15, "C11": 0.1, "C12": 0.2, "C19": 0.15, "C07": 0.15, "C05": 0.05, "C15": 0.04, "C13": 0.15}

WATCH = pure.Watch()
MODS = {}


def make(check, fam):
    def case(ctx, rng, i):
        mod = MODS[check]
        inner = Ctx(check, ctx.tier, ctx.seed, os.path.join(ctx.scratch, check))
        os.makedirs(inner.scratch, exist_ok=True)
        WATCH.start(np.random.default_rng([i, 7]))
        c0 = dict(WATCH.counts)
        inner.run({f.name: f for f in mod.FAMILIES}[fam], i)  # the verdict of that oracle is another property's
        problems = WATCH.finish()
        for k, v in WATCH.counts.items():
            ctx.seen(k, v - c0.get(k, 0))
        for n in WATCH.names:
            ctx.seen("function " + n)
        WATCH.names = set()
        ctx.events["checks"] += WATCH.counts.get("calls", 0) - c0.get("calls", 0)
        if problems:
            key, msg = problems[0]
            raise Violation(key, msg, {"all": problems[:10]})
        ctx.sig(check, fam, i)

    return case


def load():
    from vlib import frames, gen, scene, tracks

    out = []
    for c in CHECKS:
        m = MODS[c] = importlib.import_module(f"checks.{c.lower()}")
        for f in m.FAMILIES:
            share = SHARE.get(c, 0.06)
            out.append(Family(f"{c}.{f.name}", make(c, f.name), max(2, int(f.quick * share)), max(4, int(f.thorough * share * 0.5))))
    for m in [*MODS.values(), frames, gen, scene, tracks]:
        WATCH.instrument(m)
    return out


# documented outputs and objects that are there to be changed
pure.OUTPUTS.update({
    ("track", "predict"): ("output",), ("track", "sort_candidates_by_freq"): ("foundpix",), ("track", "candsearch_in_pix_rest"): ("p",),
    ("track", "register_closest_neighbs"): ("reg",), ("track", "reset_foundpix_array"): ("arr",), ("track", "copy_foundpix_array"): ("dest",),
    ("track", "sort"): ("a", "b"), ("track", "add_particle"): ("frm", "cand_inds"), ("track", "track_forward_start"): ("tr",), ("track", "trackcorr_c_loop"): ("run_info",),
    ("track", "trackcorr_c_finish"): ("run_info",), ("track", "trackback_c"): ("run_info",),
    ("correspondences", "py_correspondences"): ("img_pts",), ("image_processing", "subtract_img"): ("img_new",),
    ("multimed", "init_mmlut"): ("cal",), ("orientation", "full_calibration"): ("cal",), ("orientation", "external_calibration"): ("cal",),
    ("orientation", "raw_orient"): ("cal",), ("orientation", "orient"): ("cal", "cal_in"),
})
# numbers the targets in their order when asked to
pure.OUTPUTS_IF[("tracking_frame_buf", "match_coords", "targs")] = "reset_numbers"


def rerun(ctx, rng, i):
    """Runs of the tracking: the same again, and two at a time."""
    from openptv_python import track as tr
    from vlib import frames as fr
    from vlib import tracks as tk

    d = os.path.join(ctx.scratch, "rerun")
    shutil.rmtree(d, ignore_errors=True)
    s = [tk.make_scene(rng, T=int(rng.integers(4, 7))) for _ in range(2)]
    dirs = []

    def put(k, name):
        s[k].dir = os.path.join(d, name)
        tk.write_scene(np.random.default_rng(i), s[k], s[k].dir)
        dirs.append(s[k].dir)
        keep = state_of(s[k])
        run = tk.new_run(s[k])
        ctx.check(state_of(s[k]) == keep, "rerun:given", "a new run changed the parameters or cameras it was given")
        return run

    def state_of(sc):
        return [repr(v) for v in (sc.spar.first, sc.spar.last, sc.tpar, sc.vpar, sc.cpar)] + [gen.cal_state(c) for c in sc.cals]

    def steps(k, run):
        yield tr.track_forward_start(run)
        for t in range(s[k].first, s[k].last):
            yield tr.trackcorr_c_loop(run, t)
        yield tr.trackcorr_c_finish(run, s[k].last)

    def all_of(k, run):
        for _ in steps(k, run):
            pass
        return fr.listing(s[k].dir), run.npart, run.nlinks

    given = [state_of(sc) for sc in s]
    alone = [all_of(k, put(k, f"alone{k}")) for k in range(2)]
    again = all_of(0, put(0, "again"))
    ctx.check(again == alone[0], "rerun:same", lambda: f"the same run gives other results ({s[0].kind}): {[n for n in again[0] if again[0][n] != alone[0][0].get(n)]}, {again[1:]} and {alone[0][1:]}")
    if not s[0].tpar.add:  # over its own results
        s[0].dir = dirs[-1]
        twice = all_of(0, tk.new_run(s[0]))
        ctx.check(twice == alone[0], "rerun:over", lambda: f"a run over its own results gives others ({s[0].kind}): {[n for n in twice[0] if twice[0][n] != alone[0][0].get(n)]}")
        ctx.seen("runs over results")
    both = [put(k, f"both{k}") for k in range(2)]
    gens = [steps(k, both[k]) for k in range(2)]
    live = [0, 1]
    while live:
        k = live[int(rng.integers(len(live)))]
        try:
            next(gens[k])
        except StopIteration:
            live.remove(k)
    for k in range(2):
        ctx.check(state_of(s[k]) == given[k], "rerun:given", "a run changed the parameters or cameras it was given")
        got = fr.listing(os.path.join(d, f"both{k}")), both[k].npart, both[k].nlinks
        ctx.check(got == alone[k], "rerun:two", lambda: f"a run in step with another gives other results ({s[k].kind}): {[n for n in got[0] if got[0][n] != alone[k][0].get(n)]}")
    ctx.seen("interleaved runs")
    ctx.sig(s[0].true)


FAMILIES = load() + [Family("rerun", rerun, 40, 1000)]
MONITORS = {"calls": 20000, "repeated at once": 5000, "repeated later": 3000, "altered": 1000, "results held": 2000, "interleaved runs": 20, "runs over results": 5,
            **{"function " + f: 1 for f in (
                "calibration.read_ori", "correspondences.py_correspondences", "epi.epi_mm", "epi.epi_mm_2D", "find_candidate.find_candidate", "image_processing.prepare_image",
                "imgcoord.img_coord", "imgcoord.image_coordinates", "multimed.move_along_ray", "multimed.volumedimension", "orientation.full_calibration",
                "orientation.match_detection_to_ref", "orientation.point_position", "orientation.point_positions", "orientation.weighted_dumbbell_precision",
                "ray_tracing.ray_tracing", "segmentation.target_recognition", "sortgrid.sortgrid", "track.candsearch_in_pix", "track.sorted_candidates_in_volume",
                "trafo.dist_to_flat", "trafo.arr_pixel_to_metric")}}
