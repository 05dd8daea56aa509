"""Build, explore, replay and report: the driver shared by all checks."""
import os, sys, re, json, time, glob, shutil, subprocess, tempfile, random, math, multiprocessing, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from irsym.parse import parse, Unsupported
from irsym.engine import Engine

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = shutil.which("clang") or "clang-18"
LINK = shutil.which("llvm-link") or shutil.which("llvm-link-18") or "llvm-link-18"
OPT = shutil.which("opt") or shutil.which("opt-18") or "opt-18"
CF = ["-std=c99", "-ffp-contract=off", "-fno-builtin", "-fno-math-errno", "-w", "-I" + REPO + "/include",
      "-I" + VERIF + "/rt", "-I" + VERIF + "/harness", '-DVERSION="2.0b2"', '-DLICENSE="GNU Lesser General Public License v3.0"']


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd)[:300] + "\n" + r.stdout[-3000:])
    return r.stdout


class Job:
    def __init__(s, name, harness, entry, mode="real", stubs=(), mathstubs=(), params=None, choose=None, covers=(),
                 bounds="", tier="quick", limit=600, validate=True, msan=False, native_extra=(), **opts):
        s.name, s.harness, s.entry, s.mode = name, harness, entry, mode
        s.stubs, s.mathstubs = tuple(stubs), tuple(mathstubs)
        s.params, s.choose = params or {}, choose or {}
        s.covers, s.bounds, s.tier, s.limit, s.validate, s.opts = tuple(covers), bounds, tier, limit, validate, opts
        s.native_extra = native_extra


def compile_ir(work, harness, extra=(), sources=None, defs=()):
    """clang -O0 -> llvm-link -> mem2reg, from /repo's current sources"""
    out = []
    srcs = sources if sources is not None else sorted(glob.glob(REPO + "/src/*.c"))
    d = os.path.join(work, "ir_" + os.path.basename(harness).replace(".", "_"))
    os.makedirs(d, exist_ok=True)
    procs = []
    for f in list(srcs) + [harness] + list(extra):
        o = os.path.join(d, f.replace("/", "_") + ".ll")
        out.append(o)
        procs.append((f, subprocess.Popen(
            [CLANG, "-O0", "-Xclang", "-disable-O0-optnone", *CF, *defs, "-S", "-emit-llvm", f, "-o", o],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for f, p in procs:
        t, _ = p.communicate()
        if p.returncode:
            raise BuildError(f"clang failed on {f}\n{t[-3000:]}")
    a = os.path.join(d, "all.ll")
    sh([LINK, "-S", *out, "-o", a])
    m = os.path.join(d, "m2r.ll")
    sh([OPT, "-S", "-passes=mem2reg", a, "-o", m])
    return parse(open(m).read())


def native_build(work, harness, entry, stubs, san, sources=None, defs=(), extra=()):
    """the same harness and the same /repo sources compiled to machine code; stubs are interposed by renaming"""
    tag = re.sub(r"\W", "_", f"{os.path.basename(harness)}_{entry}_{'_'.join(stubs)}_{san}")
    d = os.path.join(work, "nat_" + tag)
    exe = os.path.join(d, "exe")
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    sf = {"asan": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
                   "-fno-sanitize=float-divide-by-zero,function"],
          "msan": ["-fsanitize=memory"], "": []}[san]
    srcs = sources if sources is not None else sorted(glob.glob(REPO + "/src/*.c"))
    out, procs = [], []
    for f in list(srcs) + [harness] + list(extra):
        o = os.path.join(d, f.replace("/", "_") + ".ll")
        out.append(o)
        procs.append((f, subprocess.Popen(
            [CLANG, "-O1", "-g", "-Xclang", "-disable-llvm-passes", *CF, *defs, *sf, "-S", "-emit-llvm", f, "-o", o],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for f, p in procs:
        t, _ = p.communicate()
        if p.returncode:
            raise BuildError(f"clang failed on {f}\n{t[-3000:]}")
    a = os.path.join(d, "all.ll")
    sh([LINK, "-S", *out, "-o", a])
    txt = open(a).read()
    for x in stubs:
        txt = re.sub(r"(define [^\n]*)@%s\(" % x, r"\1@%s__orig(" % x, txt)
        txt = re.sub(r"@%s\b(?!__orig)" % x, "@stub__" + x, txt)
    open(a, "w").write(txt)
    sh([CLANG, "-O1", "-g", "-w", *sf, "-ffp-contract=off", "-DV_ENTRY=" + entry, a, VERIF + "/rt/native.c", "-lm", "-o", exe])
    return exe


def hexf(v):
    if v != v:
        return "nan"
    if math.isinf(v):
        return "inf" if v > 0 else "-inf"
    return float(v).hex()


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for kind, name, v in inputs:
            name = re.sub(r"\s", "_", name) or "_"
            if kind in "du":
                f.write(f"{kind} {name} {hexf(float(v))}\n")
            else:
                f.write(f"{kind} {name} {int(v)}\n")


def run_native(exe, inputs_path, timeout=20):
    env = dict(os.environ, V_INPUTS=inputs_path, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99",
               UBSAN_OPTIONS="exitcode=98:print_stacktrace=0", MSAN_OPTIONS="exitcode=97")
    try:
        r = subprocess.run([exe], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -999, "TIMEOUT"


def reproduced(kind, label, rc, out):
    """does the native run show the violation?"""
    if kind == "check":
        return rc == 1 and "CHECK-FAILED " + label in out
    if kind in ("oob", "uaf", "badfree", "null"):
        return rc in (99, 98) or rc < 0 and rc != -999 or "ERROR: AddressSanitizer" in out or "runtime error" in out
    if kind == "ub":
        return rc in (98, 99) or "runtime error" in out
    if kind == "uninit":
        return rc == 97 or "MemorySanitizer" in out
    return False


def san_for(kind):
    return {"check": "", "uninit": "msan"}.get(kind, "asan")


def perturb(rng, inputs, k):
    out = []
    pool = [v for kd, _, v in inputs if kd == "d" and v == v and math.isfinite(v)]
    for kind, name, v in inputs:
        if kind == "d" and v == v and math.isfinite(v):
            r = rng.random()
            if k % 4 == 0:
                v = v * (1 + rng.uniform(-1e-3, 1e-3))
            elif k % 4 == 1 and r < .5:
                v = v * (1 + rng.uniform(-.5, .5)) + rng.uniform(-.1, .1)
            elif k % 4 == 2 and r < .7:
                v = rng.uniform(-1, 1) * 10 ** rng.randint(-2, 3)
            elif r < .5:
                v = abs(rng.gauss(0, 3))
        elif kind == "u" and k % 2:
            if v == v and math.isfinite(v):
                v = v + rng.uniform(-.5, .5)
        elif kind == "l" and k % 3 == 1 and isinstance(v, int) and 0 <= v < 1 << 40:
            v = v + rng.randint(0, 12)
        out.append((kind, name, v))
    return out


_MODS = {}


def _run_job(a):
    idx, job, mod, limit, end = a
    t0 = time.time()
    limit = min(limit, end - t0)
    try:
        if limit <= 0:
            raise TimeoutError("time budget of the whole check used up")
        M = _MODS[mod]
        e = Engine(M, mode=job.mode, stubs=job.stubs + job.mathstubs,
                   params=dict(p=job.params, choose=job.choose, **job.opts.get("eparams", {})),
                   deadline=t0 + limit, **{k: v for k, v in job.opts.items() if k not in ("eparams", "setup", "attrs")})
        for k, v in job.opts.get("attrs", {}).items():
            setattr(e, k, v)
        if job.opts.get("setup"):
            job.opts["setup"](e)
        e.explore(job.entry)
        return dict(idx=idx, stat=e.stat, viol=e.viol, incon=e.incon, covers=e.covers, wit=e.witnesses,
                    funcs=sorted(e.funcs_seen), wall=time.time() - t0)
    except Exception as ex:
        return dict(idx=idx, stat={}, viol=[], incon=["internal error: " + traceback.format_exc()[-1500:]], covers={},
                    wit=[], funcs=[], wall=time.time() - t0)


def _child(a, conn):
    r = _run_job(a)
    conn.send(r)
    conn.close()
    os._exit(0)


def run_jobs(ctx, args, nproc, stop_at):
    """one forked process per job, at most nproc at a time; yields results as they come, stops (killing the rest) at stop_at()"""
    from multiprocessing.connection import wait
    todo, live = list(args), {}
    try:
        while todo or live:
            while todo and len(live) < nproc and time.time() < stop_at():
                a = todo.pop(0)
                rd, wr = ctx.Pipe(False)
                pr = ctx.Process(target=_child, args=(a, wr), daemon=True)
                pr.start()
                wr.close()
                live[rd] = (pr, a)
            left = stop_at() - time.time()
            if left <= 0:
                return
            for rd in wait(list(live), min(left, 5)):
                pr, a = live.pop(rd)
                try:
                    r = rd.recv()
                except (EOFError, OSError):
                    r = dict(idx=a[0], stat={}, viol=[], incon=["the job's process ended without a result (memory?)"], covers={}, wit=[], funcs=[], wall=0)
                rd.close()
                pr.join()
                yield r
    finally:
        for pr, _ in live.values():
            pr.kill()
        for pr, _ in live.values():
            pr.join()


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) label=\"([^\"]*)\" (.*)", ln.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Check:
    """One property: jobs explored symbolically, counterexamples replayed natively, evidence written."""

    def __init__(s, prop, tier, jobs, assumptions=(), nproc=None, sources=None, defs=(), extra=(), prepare=None, budget=None):
        s.prop, s.tier, s.jobs, s.assumptions = prop, tier, jobs, list(assumptions)
        s.nproc = nproc or min(8, os.cpu_count() or 1)
        s.sources, s.defs, s.extra, s.prepare = sources, defs, extra, prepare
        s.work = tempfile.mkdtemp(prefix=f"verif_{prop}_")
        s.violations, s.known, s.incon = [], [], []
        s.budget = budget or (600 if tier == "quick" else 3 * 3600)
        s.notes = {}

    def run(s):
        t0 = time.time()
        try:
            rc = s._run(t0)
        except BuildError as e:
            print("BUILD-ERROR", str(e)[:3000])
            rc = 2
        except Exception:
            traceback.print_exc()
            rc = 2
        finally:
            shutil.rmtree(s.work, ignore_errors=True)
        return rc

    def _run(s, t0):
        if s.prepare:
            s.defs = tuple(s.defs) + tuple(s.prepare(s.work))
        for j in s.jobs:
            if j.harness not in _MODS:
                _MODS[j.harness] = compile_ir(s.work, os.path.join(VERIF, "harness", j.harness), sources=s.sources,
                                              defs=s.defs, extra=s.extra)
        res = [None] * len(s.jobs)
        ctx = multiprocessing.get_context("fork")
        end = t0 + (720 if s.tier == "quick" else 5 * 3600)
        args = [(i, j, j.harness, min(j.limit, s.budget), end) for i, j in enumerate(s.jobs)]
        seen, grace, unconf = set(), None, {}
        for r in run_jobs(ctx, args, s.nproc, lambda: min(end + 60, grace or end + 60)):
            res[r["idx"]] = r
            j = s.jobs[r["idx"]]
            # replay counterexamples as they arrive; a confirmed violation decides the check, the rest is cut short
            for v in r["viol"]:
                if (j.name, v.kind, v.label) in seen:
                    continue
                path = s.confirm(j, v)
                if path:
                    seen.add((j.name, v.kind, v.label))
                    s.record(j, v.kind, v.label, path)
                else:
                    unconf.setdefault(r["idx"], []).append(v)
            if s.violations and grace is None:
                grace = time.time() + (10 if s.tier == "quick" else 60)
        for i, j in enumerate(s.jobs):
            if res[i] is None:
                res[i] = dict(idx=i, stat={}, viol=[], incon=["not finished" + (" (a violation was found before)" if s.violations else "")], covers={}, wit=[], funcs=[], wall=0)
        tot = {}
        covers, funcs = {}, set()
        for j, r in zip(s.jobs, res):
            for k, v in r["stat"].items():
                tot[k] = tot.get(k, 0) + v
            for c, n in r["covers"].items():
                covers[c] = covers.get(c, 0) + n
            funcs |= set(r["funcs"])
            for x in sorted(set(r["incon"])):
                s.incon.append(f"{j.name}: {x}")
            miss = [c for c in j.covers if c not in r["covers"]]
            if miss and not r["incon"] and not r["viol"]:
                s.incon.append(f"{j.name}: VACUOUS, never reached: {miss}")
        for i, l in unconf.items():
            for v in l:
                j = s.jobs[i]
                if (j.name, v.kind, v.label) not in seen:
                    s.incon.append(f"{j.name}: counterexample for '{v.label}' ({v.kind}) did not reproduce natively: "
                                   + str(v.inputs)[:400])
        # validate path witnesses against the compiled code
        ntr, bad, samples = 0, [], []
        for j, r in zip(s.jobs, res):
            if not j.validate or not r["wit"] or s.violations:
                continue
            try:
                exe = native_build(s.work, os.path.join(VERIF, "harness", j.harness), j.entry, j.stubs, "",
                                   sources=s.sources, defs=s.defs, extra=s.extra)
            except BuildError as e:
                s.incon.append("native build failed: " + str(e)[:500])
                continue
            for k, (inp, outs, cov) in enumerate(r["wit"]):
                p = os.path.join(s.work, f"w{ntr}.txt")
                write_inputs(p, inp)
                rc, out = run_native(exe, p)
                if rc == 1:
                    lab = re.search(r"CHECK-FAILED (.*)", out)
                    bad.append(f"{j.name}: native run of a witness failed a check: {lab.group(1) if lab else out[:200]}")
                    s.notes.setdefault("native_disagreements", []).append(bad[-1])
                elif rc == 0 and "DIVERGED" not in out:
                    ntr += 1
                    no = [(m.group(1), float(m.group(2))) for m in re.finditer(r"^OUT (\S+) (\S+)$", out, re.M)]
                    if j.validate is True and len(no) == len(outs):
                        for (n1, a), (n2, b) in zip(no, outs):
                            if not (a != a and b != b) and not (a == b) and not abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b)):
                                bad.append(f"{j.name}: executor/native mismatch {n1}: {a} vs {b}")
                if len(samples) < 3 and inp:
                    samples.append({"job": j.name, "inputs": [f"{n}={v}" for _, n, v in inp][:24], "covers": cov,
                                    "native_rc": rc})
        s.notes["witness_notes"] = bad[:10]
        wall = time.time() - t0
        known = s.known
        nviol = len(s.violations)
        ev = dict(property=s.prop, tier=s.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
                  coverage=dict(
                      states=int(tot.get("paths", 0)), transitions=int(tot.get("steps", 0)),
                      traces_validated_against_impl=ntr, samples=samples or ["(no witness)"],
                      functions_encoded=sorted(f for f in funcs if not f.startswith("stub__") and not f.startswith("h_")),
                      stubs=sorted({x for j in s.jobs for x in j.stubs + j.mathstubs}),
                      bounds=sorted({f"{j.entry}: {j.bounds}" for j in s.jobs if j.bounds}),
                      jobs=len(s.jobs), queries=int(tot.get("queries", 0)), unsat=int(tot.get("unsat", 0)),
                      sat=int(tot.get("sat", 0)), solver_unknown=int(tot.get("unknown", 0)),
                      solver_seconds=round(tot.get("solver_s", 0.0), 2), assertions_checked=int(tot.get("checks", 0)),
                      assertions_discharged=int(tot.get("discharged", 0)),
                      discharged_by_normalisation=int(tot.get("by_norm", 0)),
                      infeasible_paths_pruned=int(tot.get("pruned", 0)),
                      reachability_witnesses=covers, inconclusive=s.incon[:20], notes=s.notes),
                  assumptions=s.assumptions, wall_s=round(wall, 2), violations=nviol)
        write_evidence(ev)
        for l, k in known:
            print(f"KNOWN-FINDING: property={s.prop} {k}")
        print(f"{s.prop} [{s.tier}] jobs={len(s.jobs)} paths={tot.get('paths',0)} queries={tot.get('queries',0)} "
              f"solver={tot.get('solver_s',0):.1f}s checks={tot.get('checks',0)} discharged={tot.get('discharged',0)} "
              f"native={ntr} wall={wall:.1f}s")
        if os.environ.get("VERIF_VERBOSE"):
            for j, r in sorted(zip(s.jobs, res), key=lambda x: -x[1]["wall"])[:40]:
                print(f"   {j.name:50s} {r['wall']:.1f}s paths={r['stat'].get('paths')} pruned={r['stat'].get('pruned')} q={r['stat'].get('queries')} solver={r['stat'].get('solver_s',0):.1f} checks={r['stat'].get('checks')}")
            for b in bad:
                print("   NOTE", b)
        if s.violations:
            for p, l in s.violations:
                print(f"VIOLATION property={s.prop} replay={p}  # {l}")
            return 1
        for x in s.incon[:20]:
            print("INCONCLUSIVE", x)
        # nothing explored violates the property; parts left undecided (time limit, counterexample that does not replay)
        # reduce the coverage recorded in the evidence, and the run gives no answer when they are the larger part
        und = {j.name for j in s.jobs if any(x.startswith(j.name + ": ") for x in s.incon)}
        return 2 if 2 * len(und) > len(s.jobs) or not tot.get("discharged") else 0

    def confirm(s, j, v):
        """replay a solver counterexample against the real code; returns the replay file or None"""
        san = san_for(v.kind)
        rng = random.Random(12345)
        for stubs in ([j.stubs] if j.stubs else [()]):
            try:
                exe = native_build(s.work, os.path.join(VERIF, "harness", j.harness), j.entry, stubs, san,
                                   sources=s.sources, defs=s.defs, extra=s.extra)
            except BuildError as e:
                s.incon.append("native build failed: " + str(e)[:800])
                return None
            p = os.path.join(s.work, "cex.txt")
            tc = time.time()
            for k in range(-1, 400):
                if time.time() - tc > 45:
                    break
                inp = v.inputs if k < 0 else perturb(rng, v.inputs, k)
                write_inputs(p, inp)
                rc, out = run_native(exe, p)
                if reproduced(v.kind, v.label, rc, out) or (k < 0 and rc == 1 and "CHECK-FAILED" in out):
                    return s.save(j, v, inp, stubs, san, rc, out, k >= 0)
        return None

    def save(s, j, v, inp, stubs, san, rc, out, pert):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        base = re.sub(r"\W+", "_", f"{s.prop}_{j.name}_{v.label}")[:100]
        p = os.path.join(d, base + ".txt")
        write_inputs(p, inp)
        with open(p + ".info", "w") as f:
            json.dump(dict(property=s.prop, job=j.name, harness=j.harness, entry=j.entry, stubs=list(stubs),
                           sanitizer=san, kind=v.kind, label=v.label, note=v.note, native_exit=rc,
                           native_output=out[-2000:], inputs_perturbed_after_solver=pert,
                           inputs=[[k, n, repr(x)] for k, n, x in inp]), f, indent=1)
        return p

    def record(s, j, kind, label, path):
        for l, desc in load_known(s.prop):
            if l == label:
                if (l, desc) not in s.known:
                    s.known.append((l, desc))
                return
        s.violations.append((path, f"{j.name}: {label}"))


def write_evidence(ev):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, ev["property"] + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
