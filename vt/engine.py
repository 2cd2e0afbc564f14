"""Runs a property: build, workers, verdict, evidence."""
import collections
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from vt import build as B

VERIF = B.VERIF
NW = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 4)
STALL = 300  # wall-clock watchdog of one case; firing is inconclusive, never a violation
CPU = 60  # CPU seconds of one case, against well below 5 for the slowest on the unchanged tree


class Family:
    def __init__(self, name, fn, quick, thorough=None):
        self.name, self.fn, self.quick = name, fn, quick
        self.thorough = quick * 12 if thorough is None else thorough


class Harness(Exception):
    pass


def known_findings(prop):
    p = f"{VERIF}/known_findings.json"
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status") == "known"]


def env_for(bdir, scratch, mod):
    e = {
        "PATH": "/usr/local/bin:/usr/bin:/bin",
        "HOME": scratch, "TMPDIR": scratch, "LANG": "C.UTF-8",
        "LD_PRELOAD": B.ASAN_RT,
        "PYTHONPATH": f"{bdir}:{B.S}/MEDCoupling_Swig:{B.S}/Stat:{B.S}/MEDLoader/Swig:{VERIF}/pyshim:{VERIF}",
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
        "ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
                        "quarantine_size_mb=64:detect_stack_use_after_return=0:detect_odr_violation=0",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=78",
        "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer" if os.path.exists("/usr/bin/llvm-symbolizer")
        else "/usr/lib/llvm-18/bin/llvm-symbolizer",
        "MEDCOUPLING_RESOURCE_DIR": B.REPO + "/resources",
        "VERIF_SCRATCH": scratch,
    }
    e.update(getattr(mod, "ENV", {}))
    return e


def crash_key(rc, err):
    """A stable name for a crash: kind and the innermost function of the code under test."""
    kind, where = None, "?"
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    u = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        kind = "asan-" + m.group(1)
    elif u:
        kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"-?\d[\w.+-]*", "N", u.group(1).lower()))[:60].strip("-")
    elif "terminate called" in err or rc in (-6, 134):
        kind = "abort"
    else:
        kind = {-11: "segv", -8: "fpe", -24: "cpu-limit", -9: "killed"}.get(rc, "exit%d" % rc)
    for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (.*)", err):
        g = re.search(r"((?:MEDCoupling|INTERP_KERNEL|ParaMEDMEM|ICoCo|MEDPartitioner)::[\w:~<>, ]*?[\w~]+)(?:<[^()]*>)?\(", f)
        if g:
            where = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", g.group(1)))
            break
        if "_wrap_" in f or "wrap.cxx" in f:
            where = f.split("(")[0].split()[-1] if f.split("(")[0].split() else "?"
            break
    return f"crash:{kind}:{where}"


class Worker:
    def __init__(self, prop, wid, cases, seed, tier, env, scratch, python):
        self.prop, self.wid, self.cases, self.env, self.python = prop, wid, cases, env, python
        self.base = f"{scratch}/w{wid}"
        os.makedirs(self.base, exist_ok=True)
        self.env = dict(env, TMPDIR=self.base, HOME=self.base, VERIF_SCRATCH=self.base)
        self.spec = self.base + "/spec.json"
        json.dump({"cases": cases, "seed": seed, "tier": tier, "cpu": CPU}, open(self.spec, "w"))
        self.out = self.base + "/out.jsonl"
        open(self.out, "w").close()
        self.err = self.base + "/err.txt"
        self.next = 0
        self.off = 0
        self.done = False
        self.pending = ""
        self.results = {}
        self.crashes = []
        self.stalled = []
        self.last = time.time()
        self.restarts = 0
        self.start()

    def start(self):
        self.errf = open(self.err, "w")
        self.running = None
        self.p = subprocess.Popen([self.python, f"{VERIF}/vt/worker.py", self.prop, self.spec,
                                   self.out, str(self.next)],
                                  cwd=self.base, env=self.env, stdin=subprocess.DEVNULL, stdout=self.errf,
                                  stderr=subprocess.STDOUT, start_new_session=True)
        self.last = time.time()

    def read(self):
        with open(self.out) as f:
            f.seek(self.off)
            data = f.read()
            self.off = f.tell()
        if not data:
            return
        self.last = time.time()
        data = self.pending + data
        lines = data.split("\n")
        self.pending = lines.pop()
        for l in lines:
            try:
                r = json.loads(l)
            except ValueError:
                continue
            if "s" in r:
                self.running = r["s"]
            elif "e" in r:
                self.results[r["e"]] = r
                self.running = None
                self.next = r["e"] + 1
            else:
                self.done = True

    def poll(self):
        """False when there is nothing more to wait for."""
        self.read()
        rc = self.p.poll()
        if rc is None:
            if time.time() - self.last > STALL:
                os.killpg(self.p.pid, 9)
                self.p.wait()
                self.read()
                self.stalled.append(self.running)
                return self.after()
            return True
        self.read()
        self.errf.close()
        if self.done:
            return False
        err = open(self.err, errors="replace").read()
        if self.running is None:
            if self.next >= len(self.cases):
                return False
            self.crashes.append({"pos": None, "rc": rc, "err": err[-3000:], "key": crash_key(rc, err)})
            self.restarts += 1
            if self.restarts > 3:
                return False
            self.start()
            return True
        self.crashes.append({"pos": self.running, "rc": rc, "err": trim(err), "key": crash_key(rc, err)})
        return self.after()

    def after(self):
        self.next = (self.running if self.running is not None else self.next) + 1
        self.pending = ""
        if self.next >= len(self.cases) or len(self.crashes) + len(self.stalled) > 12 \
                or sum(c["rc"] in (-9, -24, 137) for c in self.crashes) + len(self.stalled) > 1:
            return False
        self.start()
        return True


def trim(err):
    i = max(err.find("ERROR: AddressSanitizer"), err.find("runtime error:"), err.find("Fatal Python error"))
    return err[max(0, i - 200): max(0, i - 200) + 3000] if i >= 0 else err[-3000:]


def run_cases(prop, mod, lists, seed, tier, bdir, scratch):
    env = env_for(bdir, scratch, mod)
    python = getattr(mod, "PYTHON", "/usr/bin/python3")
    ws = [Worker(prop, i, c, seed, tier, env, scratch, python) for i, c in enumerate(lists) if c]
    live = list(ws)
    while live:
        live = [w for w in live if w.poll()]
        time.sleep(0.05)
    return ws


def check(prop, tier, seed, only=None, out=sys.stdout):
    t0 = time.time()
    mod = importlib.import_module("props." + prop)
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        return _check(prop, mod, tier, seed, only, scratch, t0, out)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _check(prop, mod, tier, seed, only, scratch, t0, out):
    bdir, tb = B.build(getattr(mod, "VARIANT", "san"))
    cases = []
    for f in mod.FAMILIES:
        n = f.thorough if tier == "thorough" else f.quick
        cases += [[f.name, i] for i in range(n)]
    if only:
        cases = [list(c) for c in only]
    lists = [cases[i::NW] for i in range(NW)]
    ws = run_cases(prop, mod, lists, seed, tier, bdir, scratch)
    # results
    ev, marks = collections.Counter(), set()
    perfam = collections.Counter()
    viol, hashes, samples, inconclusive = [], set(), {}, []
    executed = 0
    retry = []
    for w in ws:
        for pos, r in w.results.items():
            fam, idx = w.cases[pos]
            executed += 1
            perfam[fam] += 1
            ev.update(r["ev"])
            marks.update(r["mk"])
            if r["nt"]:
                hashes.add(r["h"])
                samples.setdefault(fam, {"family": fam, "index": idx, "case": r["d"]})
            if r["inc"]:
                inconclusive.append((fam, idx, r["inc"]))
            for v in r["v"]:
                viol.append((fam, idx, v["key"], v["detail"]))
        for c in w.crashes:
            if c["pos"] is None:
                inconclusive.append(("(start)", 0, c["key"] + " " + c["err"][-1500:]))
                continue
            fam, idx = w.cases[c["pos"]]
            executed += 1
            if "cpu-limit" in c["key"] or c["rc"] in (-9, -24, 137):
                retry.append((fam, idx))
            else:
                viol.append((fam, idx, f"{fam}:{c['key']}", {"report": c["err"]}))
        for pos in w.stalled:
            if pos is not None:
                retry.append(tuple(w.cases[pos]))
        left = len(w.cases) - w.next
        if left > 0 and not w.done:
            inconclusive.append(("(left)", left, "cases not run after repeated crashes"))
    # a case which ran out of its CPU time is run again on its own before it is called a hang
    for fam, idx in retry[:2]:
        w = run_cases(prop, mod, [[[fam, idx]]], seed, tier, bdir, f"{scratch}/retry")[0]
        if w.crashes and w.crashes[0]["rc"] == -24:
            viol.append((fam, idx, f"{fam}:hang", {"cpu_seconds": CPU, "stack": w.crashes[0]["err"]}))
        elif w.crashes or w.stalled:
            inconclusive.append((fam, idx, "no answer, twice"))
        else:
            for r in w.results.values():
                for v in r["v"]:
                    viol.append((fam, idx, v["key"], v["detail"]))
    known = known_findings(prop)
    seen_known = collections.OrderedDict()
    fresh = []
    for v in viol:
        k = next((k for k in known if re.fullmatch(k["key"], v[2])), None)
        if k:
            seen_known.setdefault(k["id"], k)
        else:
            fresh.append(v)
    wall = time.time() - t0
    cov = {
        "evaluations": executed,
        "distinct_nontrivial": len(hashes),
        "rule": getattr(mod, "RULE", ""),
        "samples": list(samples.values())[:12],
        "cases_per_family": dict(perfam),
        "monitor_checks": ev.get("checks", 0),
        "monitors": {k[2:]: n for k, n in sorted(ev.items()) if k.startswith("m:")},
        "events": {k: n for k, n in sorted(ev.items()) if not k.startswith("m:") and k != "checks"},
        "distinct_situations": len(marks),
        "situations": sorted(marks)[:400],
        "workers": NW,
        "build_s": round(tb, 1),
        "sanitizers": "address," + B.UB,
        "known_findings_seen": list(seen_known),
    }
    if inconclusive:
        cov["inconclusive"] = [list(map(str, i))[:3] for i in inconclusive[:10]]
    if only is None:
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
                       "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 2),
                       "violations": len(fresh)}, f, indent=1)
    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}", file=out)
    print(f"{prop}: {executed} cases ({len(hashes)} distinct non-trivial), {ev.get('checks', 0)} monitor checks, "
          f"{len(marks)} situations, build {tb:.0f} s, {wall:.0f} s in all", file=out)
    if fresh:
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        done = {}
        for fam, idx, key, detail in fresh:
            done.setdefault(key, []).append((fam, idx, detail))
        first = None
        for n, (key, l) in enumerate(sorted(done.items(), key=lambda x: -len(x[1]))):
            if n >= int(os.environ.get("VERIF_SHOW", "10")):
                break
            fam, idx, detail = l[0]
            path = f"{VERIF}/replays/{prop}-{re.sub(r'[^A-Za-z0-9]+', '_', key)[:60]}-{idx}.json"
            with open(path, "w") as f:
                json.dump({"property": prop, "family": fam, "index": idx, "seed": seed, "tier": tier, "key": key,
                           "detail": detail, "cases": [[a, b] for a, b, _ in l[:20]],
                           "replay": f"cd {VERIF} && python3 run.py --replay {path}"}, f, indent=1)
            print(f"  {key} ({len(l)} cases) first: {fam}:{idx} {json.dumps(detail)[:600]}", file=out)
            first = first or path
        print(f"VIOLATION property={prop} replay={first}", file=out)
        return 1
    floor = getattr(mod, "MIN_NONTRIVIAL", 0.5)
    if only is None and (len(hashes) < floor * len(cases) or inconclusive):
        print(f"INCONCLUSIVE property={prop} {len(hashes)} non-trivial cases of {len(cases)}; {inconclusive[:3]}",
              file=out)
        return 2
    return 0
