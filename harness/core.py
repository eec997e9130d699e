"""Orchestration of one property check: model check the design spec, execute
spec-generated and random cases on the real code, validate the recorded
traces with TLC, confirm failures on compiled code, write evidence."""
import hashlib
import importlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

import beside

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VF_REPO", "/repo")   # only overridden in development
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")
NCPU = max(1, min(8, os.cpu_count() or 1))


class Infra(Exception):
    pass


def tlc(module, cfg, scratch, env=None, workers=1, timeout=800, heap="2g",
        extra=()):
    """Runs TLC; returns (ok, stdout, generated, distinct)."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Djava.io.tmpdir=" + scratch, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-XX:CICompilerCount=2", "-Xmx" + heap, "-Xss32m", "-cp", CP,
           "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", cfg] + list(extra) + [module]
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, text=True)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct", p.stdout)
    gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    out = "\n".join(x for x in p.stdout.splitlines() if not x.startswith(
        ("Parsing file", "Semantic processing", "Linting of")))
    return p.returncode == 0, out, gen, dis


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        sys.path.insert(0, HERE)
        self.mod = importlib.import_module("props." + prop.lower())
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.states = self.transitions = 0
        self.t0 = time.time()
        self.notes = []

    # -- design ---------------------------------------------------------
    def design(self):
        """Model check the design spec(s); collect emitted cases."""
        emitted = []

        def one(mc):
            out = os.path.join(self.scratch, "emit-%s.json" % mc["cfg"])
            env = {"EMIT": out, "TIER": self.tier,
                   "SEED": str(self.seed)}
            ok, log, gen, dis = tlc(mc["module"], mc["cfg"], self.scratch,
                                    env, workers=mc.get("workers", 4),
                                    heap=mc.get("heap", "4g"),
                                    extra=mc.get("extra", ()))
            return mc, out, ok, log, gen, dis

        mcs = list(self.mod.MC)
        if self.tier == "thorough":
            mcs = list(getattr(self.mod, "MC_THOROUGH", mcs))
        with ThreadPoolExecutor(4) as ex:
            for mc, out, ok, log, gen, dis in ex.map(one, mcs):
                if not ok:
                    raise Infra("design spec %s failed:\n%s"
                                % (mc["cfg"], log[-4000:]))
                self.states += dis
                self.transitions += gen
                if os.path.exists(out):
                    emitted.append((mc["cfg"], [json.loads(x) for x in sorted(set(open(out)))]))
        return emitted

    # -- execution ------------------------------------------------------
    def run_cases(self, cases, mode, tag):
        """Executes cases in worker processes; returns records by id."""
        if not cases:
            return {}
        groups = {}
        for c in cases:
            groups.setdefault(c.get("grp", ""), []).append(c)
        nproc = getattr(self.mod, "NPROC", {}).get(mode, NCPU)
        # shards: keep a group together when compiled, spread otherwise
        shards = [[] for _ in range(nproc)]
        if mode == "jit":
            for g in sorted(groups.values(), key=len, reverse=True):
                min(shards, key=lambda s: len({x.get("grp", "") for x in s})
                    ).extend(g)
        else:
            for i, c in enumerate(cases):
                shards[i % nproc].append(c)
        shards = [s for s in shards if s]
        recs = {}
        with ThreadPoolExecutor(len(shards)) as ex:
            for r in ex.map(lambda a: self._shard(a[1], mode,
                                                  "%s-%d" % (tag, a[0])),
                            enumerate(shards)):
                recs.update(r)
        return recs

    def with_past(self, bad, runs):
        """Failures that need the calls made before in the same process."""
        confirmed = []
        for n, (case, mode, _, _) in enumerate(bad[:3]):
            if mode != "interp":
                continue
            cs = dict(runs)[mode]
            nproc = getattr(self.mod, "NPROC", {}).get(mode, NCPU)
            at = [i for i, c in enumerate(cs) if c["id"] == case["id"]][0]
            past = cs[at % nproc:at:nproc]
            past = past[:10] + past[10:][-15:] + [case]
            past = [dict(c, id=910000 + 1000*n + i, orig=c["id"],
                         grp="past") for i, c in enumerate(past)]
            recs = self.run_cases(past, "jit", "past%d" % n)
            last = past[-1]
            if last["id"] not in recs or recs[last["id"]]["err"] in (
                    "Skipped", "CrashTimeout"):
                continue
            verdict = self.validate([last], {last["id"]: recs[last["id"]]},
                                    "past%d" % n)
            if last["id"] in verdict:
                last["past"] = [{k: c[k] for k in c if k != "past"}
                                for c in past[:-1]]
                confirmed.append((last, recs[last["id"]],
                                  verdict[last["id"]]))
        return confirmed

    def _shard(self, cases, mode, tag):
        recs = {}
        todo = list(cases)
        attempt = 0
        while todo:
            attempt += 1
            base = os.path.join(self.scratch, "%s-%s-%d" % (tag, mode,
                                                            attempt))
            json.dump(todo, open(base + ".in", "w"))
            env = dict(os.environ)
            env.update({
                "NUMBA_CACHE_DIR": base + ".nc",
                "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
                "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
                "MKL_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "2",
                "AFRICANUS_ROOT": REPO, "PYTHONWARNINGS": "ignore",
            })
            env.pop("PYTHONPATH", None)
            cmd = [PY, os.path.join(HERE, "worker.py"), self.prop, mode,
                   base + ".in", base + ".out"]
            log, status = self._watch(cmd, env, base)
            shutil.rmtree(base + ".nc", ignore_errors=True)
            started = None
            if os.path.exists(base + ".out"):
                for line in open(base + ".out"):
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "start" in d:
                        started = d["start"]
                    else:
                        recs[d["id"]] = d
                        started = None
            todo = [c for c in todo if c["id"] not in recs]
            if not todo:
                break
            # crashed: blame the case in progress (or all when none started)
            if started is None:
                for c in todo:
                    recs[c["id"]] = {"id": c["id"], "mode": mode, "out": {},
                                     "err": "Import" + status, "tb": log}
                break
            recs[started] = {"id": started, "mode": mode, "out": {},
                             "err": "Crash" + status, "tb": log}
            todo = [c for c in todo if c["id"] != started]
            if status == "Timeout" or attempt >= 6:
                for c in todo:
                    recs[c["id"]] = {"id": c["id"], "mode": mode, "out": {},
                                     "err": "Skipped", "tb": log}
                break
        return recs

    def _watch(self, cmd, env, base):
        """Runs a worker; ends it when it makes no progress for too long."""
        stall = getattr(self.mod, "STALL", 150)
        with open(base + ".log", "wb") as lf:
            p = subprocess.Popen(cmd, env=env, cwd=self.scratch, stdout=lf,
                                 stderr=subprocess.STDOUT)
            last, t, status = -1, time.time(), "ok"
            while True:
                try:
                    p.wait(1.0)
                    break
                except subprocess.TimeoutExpired:
                    pass
                n = os.path.getsize(base + ".out") \
                    if os.path.exists(base + ".out") else 0
                if n != last:
                    last, t = n, time.time()
                elif time.time() - t > stall:
                    p.kill()
                    p.wait()
                    status = "Timeout"
                    break
        if status == "ok" and p.returncode != 0:
            status = "Exit%d" % p.returncode
        log = open(base + ".log", errors="replace").read()[-3000:]
        return log, status

    # -- validation -----------------------------------------------------
    def validate(self, cases, recs, tag):
        """TLC verdict per record: {id: [failing clauses]}."""
        byid = {c["id"]: c for c in cases}
        lines = []
        for i, r in recs.items():
            if r["err"] == "Skipped":
                continue
            c = byid[i]
            spec = c.get("spec", self.mod.TRACE)
            rec = {"id": i, "kind": c["kind"], "c": c["in"],
                   "o": r["out"], "e": r["err"]}
            lines.append((spec, json.dumps(rec)))
        by_spec = {}
        for s, ln in lines:
            by_spec.setdefault(s, []).append(ln)
        jobs = []
        for s, ls in by_spec.items():
            ls.sort(key=len, reverse=True)
            k = max(1, min(NCPU, len(ls) // 20 + 1))
            for j in range(k):
                jobs.append((s, ls[j::k]))
        bad = {}

        def one(a):
            n, (s, ls) = a
            f = os.path.join(self.scratch, "trace-%s-%s-%d.ndjson"
                             % (tag, s, n))
            found, gens, diss, left = {}, 0, 0, list(ls)
            for attempt in range(20):
                if not left:
                    break
                open(f, "w").write("\n".join(left) + "\n")
                ok, log, gen, dis = tlc(s, s + ".cfg", self.scratch,
                                        {"TRACE": f, "TIER": self.tier},
                                        heap="3g")
                os.unlink(f)
                gens, diss = gens + gen, diss + dis
                for m in re.finditer(r'<<"BAD", (\d+), (.*?)>>$', log,
                                     re.M | re.S):
                    found[int(m.group(1))] = " ".join(m.group(2).split())
                done = re.search(r'<<"DONE", (\d+)>>', log)
                if ok and done and int(done.group(1)) == len(left):
                    break
                # an output the specification cannot even evaluate (wrong
                # structure) is not a behaviour of the specification
                at = re.findall(r"^(?:/\\ )?ti = (\d+)$", log, re.M)
                if not at or not 1 <= int(at[-1]) <= len(left):
                    keep = os.path.join(tempfile.gettempdir(),
                                        "vf-%s-fail.ndjson" % self.prop)
                    open(keep, "w").write("\n".join(left) + "\n")
                    raise Infra("trace spec %s did not finish (%s):\n%s"
                                % (s, keep, log[-5000:]))
                k = int(at[-1]) - 1
                found[json.loads(left[k])["id"]] = '{"unevaluable"}'
                if os.environ.get("VF_DEBUG"):
                    print("DEBUG unevaluable", left[k][:1500], log[-1500:])
                left = left[k + 1:]
            return found, gens, diss

        with ThreadPoolExecutor(NCPU) as ex:
            for found, gen, dis in ex.map(one, enumerate(jobs)):
                self.states += dis
                self.transitions += gen
                bad.update(found)
        return bad

    # -- whole check ----------------------------------------------------
    def run(self):
        try:
            return self._run()
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def _run(self):
        rng = random.Random("%s-%s-%s" % (self.prop, self.seed, self.tier))
        emitted = self.design()
        t_design = time.time() - self.t0
        cases = self.mod.gen(rng, self.tier, emitted)
        beside.beside(rng, cases, 48 if self.tier == "quick" else 300,
                      getattr(self.mod, "BESIDE", None),
                      getattr(self.mod, "BESIDE_KEYS", None))
        if getattr(self.mod, "HISTORY", True):
            beside.beside(rng, cases, 40 if self.tier == "quick" else 300,
                          lambda c: not c.get("dask"),
                          getattr(self.mod, "BESIDE_KEYS", None), "history")
        for i, c in enumerate(cases):
            c["id"] = i + 1
        if os.environ.get("VF_ONLY"):
            cases = [c for c in cases if c["kind"] == os.environ["VF_ONLY"]]
        validated = 0
        bad = []          # (case, mode, rec, clause)
        infra_errs = {}
        modes = ("interp", "jit")
        runs = [(m, [c for c in cases if m in c["modes"]]) for m in modes]
        with ThreadPoolExecutor(2) as ex:
            futs = [(m, cs, ex.submit(self.run_cases, cs, m, "main"))
                    for m, cs in runs]
            results = [(m, cs, f.result()) for m, cs, f in futs]
        t_exec = time.time() - self.t0
        for m, cs, recs in results:
            verdict = self.validate(cs, recs, m)
            validated += len(recs)
            byid = {c["id"]: c for c in cs}
            for i, clause in sorted(verdict.items()):
                bad.append((byid[i], m, recs[i], clause))
            for r in recs.values():
                if r["err"]:
                    infra_errs[r["err"]] = infra_errs.get(r["err"], 0) + 1
        t_valid = time.time() - self.t0
        if os.environ.get("VF_DEBUG"):
            for c, m, r, clause in bad[:int(os.environ["VF_DEBUG"])]:
                print("DEBUG", m, c["kind"], clause, r["err"],
                      json.dumps(c["in"])[:1500], json.dumps(r["out"])[:1500],
                      r["tb"][-1200:])
            print("DEBUG errs", infra_errs, "bad", len(bad))
        # confirm on compiled code, a few distinct clauses first
        confirmed = []
        if bad:
            seen, sel = set(), []
            bad.sort(key=lambda b: b[1] != "jit")
            for b in bad:
                k = (b[0]["kind"], b[3])
                if k not in seen:
                    seen.add(k)
                    sel.append(b)
            sel = (sel + [b for b in bad if b not in sel])[:12]
            cs = []
            for n, b in enumerate(sel):
                c = dict(b[0])
                c["orig"] = c["id"]
                c["id"] = 900000 + n
                cs.append(c)
            recs = self.run_cases(cs, "jit", "confirm")
            verdict = self.validate(cs, recs, "confirm")
            validated += len(recs)
            for c in cs:
                if c["id"] in verdict:
                    confirmed.append((c, recs[c["id"]], verdict[c["id"]]))
            if not confirmed:
                confirmed = self.with_past(sel, runs)
                validated += len(confirmed)
            if not confirmed:
                self.notes.append("%d interpreted-only discrepancies were "
                                  "not confirmed on compiled code" % len(bad))
        known = self.known()
        viol, findings = [], []
        for c, r, clause in confirmed:
            k = self.match_known(known, c, clause)
            (findings if k else viol).append((c, r, clause, k))
        for k in known:
            # listed findings are reported on every run they still occur
            if any(f[3] == k for f in findings):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k[1]))
        replay = None
        if viol:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            c, r, clause, _ = viol[0]
            h = hashlib.sha1(json.dumps(c["in"], sort_keys=True)
                             .encode()).hexdigest()[:10]
            replay = os.path.join(VERIF, "replay", "%s-%s.json"
                                  % (self.prop, h))
            json.dump({"property": self.prop, "case": c, "out": r["out"],
                       "err": r["err"], "tb": r["tb"], "clause": clause},
                      open(replay, "w"), indent=1)
        self.evidence(len(cases), validated, cases, len(viol), replay,
                      infra_errs)
        print("%s %s: %d cases, %d traces validated by TLC, %d states; "
              "design %.0fs exec %.0fs validate %.0fs total %.0fs"
              % (self.prop, self.tier, len(cases), validated, self.states,
                 t_design, t_exec - t_design, t_valid - t_exec,
                 time.time() - self.t0))
        for n in self.notes:
            print("note:", n)
        if viol:
            for c, r, clause, _ in viol[:3]:
                print("  kind=%s clause=%s err=%s" % (c["kind"], clause,
                                                      r["err"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        return 0

    def known(self):
        out = []
        f = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(f):
            for line in open(f):
                m = re.match(r"known: property=(\w+) match=(\S+) (.*)", line)
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3).strip()))
        return out

    def match_known(self, known, c, clause):
        for k in known:
            if k[0] == c.get("known", ""):
                return k
        return None

    def evidence(self, ncases, validated, cases, nviol, replay, errs):
        kinds = {}
        for c in cases:
            kinds[c["kind"]] = kinds.get(c["kind"], 0) + 1
        samples = []
        for k in sorted(kinds):
            c = next(c for c in cases if c["kind"] == k)
            samples.append("%s: %s" % (k, json.dumps(c["in"])[:300]))
        man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        level = next((c["level"] for c in man["checks"]
                      if c["property"] == self.prop), "model_checking")
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": validated,
                "samples": samples[:12],
                "cases_by_kind": kinds,
            },
            "wall_s": round(time.time() - self.t0, 1),
            "violations": nviol,
            "assumptions": list(getattr(self.mod, "ASSUMPTIONS", [])) +
            self.notes,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence",
                                        self.prop + ".json"), "w"), indent=1)


def replay(path):
    d = json.load(open(path))
    ck = Check(d["property"], "quick", 1)
    try:
        c = d["case"]
        recs = ck.run_cases([dict(x, grp="past") for x in
                             c.pop("past", []) + [c]], "jit", "replay")
        verdict = ck.validate([c], {c["id"]: recs[c["id"]]}, "replay")
        print(json.dumps(recs[c["id"]], indent=1)[:4000])
        print("verdict:", verdict or "ok")
        return 1 if verdict else 0
    finally:
        shutil.rmtree(ck.scratch, ignore_errors=True)
