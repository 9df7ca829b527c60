"""Supervisor: forks the master, which imports the code under test and forks the workers.

Exit 0: held on everything explored.  Exit 1: a VIOLATION line.  Exit 2: inconclusive / error.
"""

import argparse
import importlib
import json
import os
import select
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.environ.get("VERIF_DIR", "/verif")
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_CPU_LIMIT = float(os.environ.get("VERIF_CASE_CPU", "240"))


def cpu_of(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            p = f.read().rsplit(")", 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return None


def quiet_fds(path):
    """The code under test prints a lot; keep it out of the verdict."""
    sys.stdout.flush()
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
    os.dup2(fd, 1)


def worker(mod, prop, tier, seed, jobs, out, prog, scratch, wid, budget, t0, stopfile):
    from vlib.core import Ctx

    d = os.path.join(scratch, f"w{wid}")
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    ctx = Ctx(prop, tier, seed, d)
    fams = {f.name: f for f in mod.FAMILIES}
    known = {k["key"] for k in known_findings() if k["property"] == prop}
    done = 0
    trunc = 0
    for fam, i in jobs:
        if time.time() - t0 > budget:
            trunc = len(jobs) - done
            break
        if os.path.exists(stopfile):
            break
        with open(prog, "w") as f:
            f.write(f"{fam} {i}")
        ok = ctx.run(fams[fam], i)
        done += 1
        if not ok and ctx.violations[-1]["key"] not in known and not os.environ.get("VERIF_ALL"):
            open(stopfile, "w").close()
            break
    res = ctx.dump()
    res["truncated"] = trunc
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)


def master(prop, tier, seed, scratch, t0, only):
    quiet_fds(os.path.join(scratch, "noise.txt"))
    sys.path.insert(0, REPO)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    import openptv_python

    where = os.path.realpath(os.path.dirname(openptv_python.__file__))
    if where != os.path.realpath(os.path.join(REPO, "openptv_python")):
        raise SystemExit(f"wrong package imported: {where}")
    from vlib.core import Ctx

    budget = getattr(mod, "BUDGET", {"quick": 240, "thorough": 800})[tier]
    nw = getattr(mod, "WORKERS", 8)
    jobs = []
    if only:
        fam, i = only.rsplit(":", 1)
        jobs = [(fam, int(i))]
        nw = 1
    else:
        for f in mod.FAMILIES:
            n = f.quick if tier == "quick" else f.thorough
            jobs += [(f.name, k, k / max(n, 1)) for k in range(n)]
        # interleave the families so that a truncated run still touches all of them
        jobs.sort(key=lambda j: j[2])
        jobs = [(a, b) for a, b, _ in jobs]
    if hasattr(mod, "warm") and not only:
        with open(os.path.join(scratch, "progress.master"), "w") as f:
            f.write("warm -1")
        d = os.path.join(scratch, "warm")
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        try:
            mod.warm(Ctx(prop, tier, seed, d))
        except Exception:
            # whatever went wrong will show again in the cases
            traceback.print_exc(file=sys.stdout)
    stopfile = os.path.join(scratch, "stop")
    pids = {}
    t1 = time.time()
    for w in range(nw):
        out = os.path.join(scratch, f"out.{w}")
        prog = os.path.join(scratch, f"progress.{w}")
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                worker(mod, prop, tier, seed, jobs[w::nw], out, prog, scratch, w, budget, t1, stopfile)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        pids[pid] = (w, out, prog)
    results, extra = [], []
    last = {p: (None, cpu_of(p) or 0.0) for p in pids}
    while pids:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.05)
            for p, (w, out, prog) in list(pids.items()):
                try:
                    with open(prog) as f:
                        cur = f.read()
                except OSError:
                    cur = None
                c = cpu_of(p) or 0.0
                if cur != last[p][0]:
                    last[p] = (cur, c)
                elif c - last[p][1] > CASE_CPU_LIMIT:
                    fam, i = (cur or "? 0").rsplit(" ", 1)
                    extra.append(
                        dict(key="no-termination", family=fam, index=int(i), data={},
                             msg=f"one call used more than {CASE_CPU_LIMIT:.0f} s of processor time without returning")
                    )
                    os.kill(p, signal.SIGKILL)
                    open(stopfile, "w").close()
                    last[p] = (cur, c + 1e9)
            continue
        w, out, prog = pids.pop(pid)
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
        if os.WIFSIGNALED(st):
            sg = os.WTERMSIG(st)
            if sg in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
                try:
                    with open(prog) as f:
                        fam, i = f.read().rsplit(" ", 1)
                except (OSError, ValueError):
                    fam, i = "?", "0"
                extra.append(dict(key=f"signal:{sg}", family=fam, index=int(i), data={},
                                  msg=f"the process running the code under test died with signal {sg}"))
            elif not any(e["key"] == "no-termination" for e in extra):
                extra.append(dict(key="worker-lost", family="?", index=0, data={}, msg=f"worker ended by signal {sg}",
                                  inconclusive=True))
        elif os.WEXITSTATUS(st) != 0:
            extra.append(dict(key="worker-error", family="?", index=0, data={}, msg="worker failed", inconclusive=True))
    final = {}
    if hasattr(mod, "finish") and not only:
        final = mod.finish(results) or {}
    with open(os.path.join(scratch, "master.json.tmp"), "w") as f:
        json.dump({"results": results, "extra": extra, "rule": mod.RULE, "monitors": mod.MONITORS,
                   "assumptions": getattr(mod, "ASSUMPTIONS", []), "final": final, "njobs": len(jobs)}, f)
    os.rename(os.path.join(scratch, "master.json.tmp"), os.path.join(scratch, "master.json"))


def known_findings():
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only", help="family:index")
    ap.add_argument("--thorough", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if a.thorough:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = a.only
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        seed, tier, only = r["seed"], r["tier"], f'{r["family"]}:{r["index"]}'
    t0 = time.time()
    scratch = os.environ.get("VERIF_SCRATCH") or tempfile.mkdtemp()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setpgid(0, 0)
            master(prop, tier, seed, scratch, t0, only)
            code = 0
        except SystemExit as e:
            print(e, file=sys.stderr)
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            os._exit(code)
    limit = {"quick": 840, "thorough": 4000}[tier]
    st = None
    while time.time() - t0 < limit:
        p, s = os.waitpid(pid, os.WNOHANG)
        if p:
            st = s
            break
        time.sleep(0.05)
    if st is None:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        print(f"INCONCLUSIVE property={prop}: no verdict within {limit} s")
        return 2
    mj = os.path.join(scratch, "master.json")
    rep = None
    if os.path.exists(mj):
        with open(mj) as f:
            rep = json.load(f)
    elif os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE):
        rep = {"results": [], "rule": "", "monitors": {}, "assumptions": [], "final": {}, "njobs": 0,
               "extra": [dict(key=f"signal:{os.WTERMSIG(st)}", family="warm", index=-1, data={},
                              msg="the code under test crashed the process while it was being warmed up")]}
    else:
        print(f"INCONCLUSIVE property={prop}: the check itself failed (status {st})")
        return 2
    events, stats, hashes, samples, viol = Counter(), {}, set(), [], []
    evals = trunc = 0
    for r in rep["results"]:
        events.update(r["events"])
        hashes.update(r["hashes"])
        samples += r["samples"]
        viol += r["violations"]
        evals += r["evaluations"]
        trunc += r["truncated"]
        for k, (lo, hi) in r["stats"].items():
            a0, b0 = stats.get(k, (lo, hi))
            stats[k] = (min(a0, lo), max(b0, hi))
    viol += [e for e in rep["extra"] if not e.get("inconclusive")]
    viol += rep["final"].get("violations", [])
    broken = [e for e in rep["extra"] if e.get("inconclusive")]
    events.update(rep["final"].get("events", {}))
    hashes.update(rep["final"].get("hashes", []))
    known = [k for k in known_findings() if k["property"] == prop]
    new, old = [], {}
    for v in viol:
        hit = next((k for k in known if k["key"] == v["key"] and k.get("family", v["family"]) == v["family"]), None)
        if hit:
            old[hit["key"]] = hit
        else:
            new.append(v)
    samples = samples[:4] or [{"case": "none sampled"}]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(hashes), "rule": rep["rule"], "samples": samples,
            "observed_events": dict(sorted(events.items())),
            "measured": {k: [lo, hi] for k, (lo, hi) in sorted(stats.items())},
            "not_run_for_time": trunc,
        },
        "assumptions": rep["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if only is None:
        path = os.path.join(VERIF, "evidence", f"{prop}.json")
        with open(path + ".tmp", "w") as f:
            json.dump(evidence, f, indent=1)
        os.rename(path + ".tmp", path)
    for k in old.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if new:
        v = new[0]
        rp = os.path.join(VERIF, "evidence", f"{prop}.replay.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": seed, "tier": tier, **v,
                       "how": f"cd /verif && ./run.sh {prop} --replay {rp}"}, f, indent=1)
        for v in new[: 3 if not os.environ.get("VERIF_ALL") else 1000]:
            print(f"[{prop}] {v['family']}:{v['index']} {v['key']}: {v['msg']}"[:1500])
            if only and v.get("data"):
                print(v["data"].get("traceback", json.dumps(v["data"])[:3000]))
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    if broken:
        print(f"INCONCLUSIVE property={prop}: {broken[0]['msg']}")
        return 2
    if only is None:
        for name, least in rep["monitors"].items():
            if events.get(name, 0) < least:
                print(f"INCONCLUSIVE property={prop}: monitor '{name}' judged {events.get(name, 0)} events, needs {least}")
                return 2
    print(f"OK property={prop} tier={tier} seed={seed} cases={evals} distinct={len(hashes)} "
          f"checks={events.get('checks', 0)} wall={time.time() - t0:.1f}s" + (f" truncated={trunc}" if trunc else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
