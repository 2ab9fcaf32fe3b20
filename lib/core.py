"""Shared machinery: build the drivers from /repo's tree, run TLC, replay, validate."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
MODPATH = "github.com/fairDataSociety/FaVe"


class Broken(Exception):
    """The check itself could not decide (never a violation)."""


def go_env():
    """The environment /opt/vp/env.sh sets, offline."""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, text=True).stdout
    env = dict(x.split("=", 1) for x in out.split("\0") if "=" in x)
    env["GOFLAGS"] = (env.get("GOFLAGS", "") + " -mod=mod").strip()
    env.setdefault("GOPROXY", "off")
    return env


def nonull(x):
    if x is None:
        return "null"
    if isinstance(x, dict):
        return {k: nonull(v) for k, v in x.items()}
    if isinstance(x, list):
        return [nonull(v) for v in x]
    return x


def plain(t):
    """A trace as TLC reads it: property values, whatever their type, are their JSON text (TLC cannot compare values
    of different types), followed by the entries of a list or the key:text pairs of a map, and there is no null."""
    js = lambda v: json.dumps(v, sort_keys=True)
    pairs = lambda v: v if isinstance(v, list) else ["%s:%s" % kv for kv in sorted(v.items())] if isinstance(v, dict) else []
    text = lambda p: {k: [js(v)] + [js(x) for x in pairs(v)] for k, v in p.items()}
    evs = []
    for e in t.get("events", []):
        e = dict(e)
        if isinstance(e.get("p"), dict):
            e["p"] = text(e["p"])
        if "val" in e and e.get("field") != "id":
            e["val"] = json.dumps(e["val"])
        if "hits" in e:
            e["hits"] = [dict(h, p=text(h["p"])) if isinstance(h, dict) and "p" in h else h for h in e["hits"] or []]
        if e.get("op") == "add" and "docs" in e:
            e["docs"] = [dict(d, p=text(d["p"])) for d in e["docs"] or []]
        evs.append(e)
    return nonull(dict(t, events=evs))


class Work:
    """A scratch directory of one run."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif.")
        self.t0 = time.time()
        self.bins = {}
        self.stats = {"states": 0, "transitions": 0, "traces": 0, "events": 0, "mc_states": 0}
        self.notes = []
        self.ops = {}
        self.samples = []

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)

    # ---- building -----------------------------------------------------
    def build(self, pkg, race=False, http=False):
        """Compile harness/<pkg> against the current tree of /repo, through an overlay.

        http: with the storage library's constructor replaced by one that returns the
        in-memory instance, so that the server's own start-up code can run offline."""
        key = (pkg, race, http)
        if key in self.bins:
            return self.bins[key]
        rep = {}
        for d, dst in (("stack", "verifx/stack"), (pkg, "verifx/" + pkg)):
            for f in sorted(os.listdir(os.path.join(HARN, d))):
                if f.endswith(".go"):
                    rep[os.path.join(REPO, dst, f)] = os.path.join(HARN, d, f)
        if not http:
            rep.update(self.steady_feeds(self.dfs_dir()))
        ov = self.path("ov_%s.json" % pkg)
        json.dump({"Replace": rep}, open(ov, "w"))
        mod = self.path("mod" + ("_http" if http else ""))
        os.makedirs(mod, exist_ok=True)
        for f in ("go.mod", "go.sum"):
            shutil.copy(os.path.join(REPO, f), os.path.join(mod, f))
        if http:
            self.stub_dfs(mod)
        out = self.path(pkg + (".race" if race else "") + (".http" if http else "") + ".test")
        cmd = ["go", "test", "-c", "-vet=off", "-o", out, "-overlay", ov, "-modfile", os.path.join(mod, "go.mod")]
        if race:
            cmd.append("-race")
        if http:
            cmd += ["-tags", "verifhttp"]
        r = subprocess.run(cmd + ["./verifx/" + pkg], cwd=REPO, env=go_env(), capture_output=True, text=True, timeout=800)
        if r.returncode != 0 or not os.path.exists(out):
            raise Broken("building driver %s failed:\n%s%s" % (pkg, r.stdout[-3000:], r.stderr[-3000:]))
        self.bins[key] = out
        return out

    def dfs_dir(self):
        r = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/fairdatasociety/fairOS-dfs"], cwd=REPO, env=go_env(), capture_output=True, text=True)
        return r.stdout.strip()

    def steady_feeds(self, src):
        """The storage library's feed cache without its data race (an entry is published before it is filled, and
        changed while others read it), which makes any two concurrent reads fail or crash once in a long while."""
        f = os.path.join(src, "pkg/feed/handler.go")
        s = open(f).read()
        old = s[s.index("	entry, err := h.get(&request.Feed)\n"):s.index("	// update our source entry map\n")] if "	entry, err := h.get(&request.Feed)\n" in s and "	// update our source entry map\n" in s else None
        end = "	entry.Reader = bytes.NewReader(entry.data)\n	return entry, nil\n"
        if old is None or end not in s:
            return {}
        s = s.replace(old, "	entry := &CacheEntry{}\n").replace(end, end.replace("	return entry, nil\n", "	if err := h.set(&request.Feed, entry); err != nil {\n		return nil, err\n	}\n	return entry, nil\n"))
        t = self.path("handler.go")
        open(t, "w").write(s)
        return {f: t}

    def stub_dfs(self, mod):
        src = self.dfs_dir()
        dst = self.path("dfs")
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns("cmd", "docs", "swagger", "*_test.go", "gomobile", "wasm"))
        subprocess.run(["chmod", "-R", "u+w", dst])
        f = os.path.join(dst, "pkg/dfs/api.go")
        s = open(f).read()
        t = s.replace("func NewDfsAPI(ctx context.Context, opts *Options) (*API, error) {\n",
                      "// VerifAPI stands in for the network.\nvar VerifAPI func() *API\n\nfunc NewDfsAPI(ctx context.Context, opts *Options) (*API, error) {\n\tif VerifAPI != nil {\n\t\treturn VerifAPI(), nil\n\t}\n")
        if s == t:
            raise Broken("cannot stub the storage library's constructor")
        open(f, "w").write(t)
        for _, steady in self.steady_feeds(src).items():
            shutil.copy(steady, os.path.join(dst, "pkg/feed/handler.go"))
        with open(os.path.join(mod, "go.mod"), "a") as o:
            o.write("\nreplace github.com/fairdatasociety/fairOS-dfs => %s\n" % dst)

    # ---- TLC ----------------------------------------------------------
    def tlc(self, module, consts=None, defs=None, cfg="", args=(), env=None, timeout=600, workers="1", heap="3g", name=None):
        """Run TLC on a wrapper module that extends `module`, with constants set to TLA+ expressions."""
        consts = dict(consts or {})
        name = name or "MC_%s_%d" % (module, len(os.listdir(self.dir)))
        d = self.path(name)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        lines, sub = [], []
        for k, v in consts.items():
            lines.append("c_%s == %s" % (k, v))
            sub.append("  %s <- c_%s" % (k, k))
        body = "---- MODULE %s ----\nEXTENDS %s\n%s\n%s\n====\n" % (name, module, "\n".join(lines), defs or "")
        open(os.path.join(d, name + ".tla"), "w").write(body)
        text = cfg + ("\nCONSTANTS\n" + "\n".join(sub) if sub else "") + "\nCHECK_DEADLOCK FALSE\n"
        open(os.path.join(d, name + ".cfg"), "w").write(text)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp",
               "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
               "-Djava.io.tmpdir=" + d, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
               "-config", name + ".cfg", "-noGenerateSpecTE"] + list(args) + [name + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC on %s did not finish in %d s" % (module, timeout))
        out = r.stdout + r.stderr
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return r.returncode, out, gen, dist

    def model_check(self, module, consts, cfg, what, timeout=600, workers="auto", defs=None, expect_violation=False, heap="12g"):
        """Exhaustively check the specification itself. A failure here is a fault of the specification."""
        rc, out, gen, dist = self.tlc(module, consts, cfg=cfg, timeout=timeout, workers=workers, defs=defs, heap=heap)
        if expect_violation:
            if rc != 12 and rc != 13:
                raise Broken("specification mutant %s is not rejected (TLC exit %d):\n%s" % (what, rc, out[-2000:]))
        elif rc != 0:
            raise Broken("TLC exit %d on %s (%s):\n%s" % (rc, module, what, out[-4000:]))
        self.stats["states"] += dist
        self.stats["transitions"] += gen
        self.stats["mc_states"] += dist
        self.notes.append("TLC %s: %d distinct states, %d transitions" % (what, dist, gen))
        return dist

    def generate(self, module, consts, num, seed, depth, timeout=600, jobs=4):
        """Behaviours drawn by TLC's simulator, as JSON schedules."""
        jobs = max(1, min(jobs, num))
        per = [num // jobs + (1 if i < num % jobs else 0) for i in range(jobs)]

        def one(i):
            rc, out, _, _ = self.tlc(module, consts, cfg="SPECIFICATION Spec",
                                     args=["-simulate", "num=%d" % per[i], "-depth", str(depth), "-seed", str(seed * 1000 + i)],
                                     timeout=timeout, name="GEN_%s_%d_%d" % (module, i, len(self.notes)))
            res = []
            for line in out.splitlines():
                if line.startswith('"SCHED '):
                    res.append(json.loads(json.loads(line)[6:]))
            if len(res) < per[i]:
                raise Broken("TLC generated %d of %d behaviours of %s:\n%s" % (len(res), per[i], module, out[-3000:]))
            return res[:per[i]]

        with ThreadPoolExecutor(jobs) as ex:
            parts = list(ex.map(one, range(jobs)))
        self.notes.append("TLC -simulate %s: %d behaviours" % (module, num))
        return [x for p in parts for x in p]

    # ---- replaying ----------------------------------------------------
    def replay(self, pkg, schedules, procs=8, timeout=600, race=False, http=False, env=None, test="TestReplay", chunk=12):
        """Run the schedules through the driver in several processes; returns the traces in order."""
        binp = self.build(pkg, race, http)
        base = "%s_%d" % (pkg, len(os.listdir(self.dir)))
        chunks = [schedules[i:i + chunk] for i in range(0, len(schedules), chunk)]
        ge = go_env()
        ge.update(env or {})

        def one(i):
            sp, tp = self.path("%s.%d.sched" % (base, i)), self.path("%s.%d.trace" % (base, i))
            with open(sp, "w") as f:
                for s in chunks[i]:
                    f.write(json.dumps(s) + "\n")
            e = dict(ge)
            scratch = self.path("%s.%d.dir" % (base, i))
            os.makedirs(scratch, exist_ok=True)
            e.update(VERIF_SCHED=sp, VERIF_TRACE=tp, VERIF_SCRATCH=scratch, TMPDIR=scratch)
            for attempt in range(4):
              try:
                r = subprocess.run([binp, "-test.run", "^" + test + "$", "-test.timeout", "%ds" % timeout], cwd=scratch, env=e,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout + 30)
              except subprocess.TimeoutExpired:
                raise Broken("driver %s timed out" % pkg)
              if r.returncode == 0 or "attempted operation on invalid point" not in r.stdout:
                break  # (a rare failure of the storage library's key handling, not of the code under test)
            shutil.rmtree(scratch, ignore_errors=True)
            tr = []
            if os.path.exists(tp):
                for line in open(tp):
                    if line.endswith("\n"):
                        tr.append(json.loads(line))
            return r.returncode, r.stdout, tr

        with ThreadPoolExecutor(procs) as ex:
            res = list(ex.map(one, range(len(chunks))))
        traces = []
        for i, (rc, out, tr) in enumerate(res):
            raced = self.races(out) if race else {}
            if raced and max(raced) < len(tr):
                for k, why in raced.items():
                    tr[k] = {"died": why[:200], "stack": why, "events": [{"op": "died", "res": "race", "msg": why[:200]}]}
            elif rc != 0 and race and len(tr) == len(chunks[i]) and "DATA RACE" in out and not re.search(r"^(fatal error|panic): ", out, re.M):
                pass  # (races inside the storage library only)
            elif rc != 0 or len(tr) != len(chunks[i]):
                died = self.died(out, tr, chunks[i])
                if died is None:
                    raise Broken("driver %s failed (exit %s, %d of %d traces):\n%s" % (pkg, rc, len(tr), len(chunks[i]), out[:1500] + " ... " + out[-2500:]))
                tr = tr + [died] + [{"events": []}] * (len(chunks[i]) - len(tr) - 1)
            traces += tr
        return traces

    def races(self, out):
        """Schedules (numbers within the chunk) during which the code under test itself accessed memory in a data race."""
        res, cur = {}, 0
        for part in re.split(r"(?m)^(=== schedule \d+)$", out):
            if part.startswith("=== schedule "):
                cur = int(part.split()[2])
                continue
            for rep in part.split("WARNING: DATA RACE")[1:]:
                tops = []
                for m in re.finditer(r"(?i)(?:previous )?(?:write|read) at 0x.*\n((?:  .*\n)+)", rep):
                    fr = [x.strip() for x in m.group(1).splitlines() if x.startswith("  ") and not x.startswith("      ")]
                    fr = [x for x in fr if not re.match(r"(runtime|internal|sync|reflect|sort|strings|bytes|fmt|encoding/\w+|slices|maps|unsafe|math)\b[./(]", x)]
                    tops += fr[:1]
                if any(x.startswith((MODPATH + "/pkg", MODPATH + "/adapters")) for x in tops):
                    res.setdefault(cur, "a data race between " + " and ".join(tops) + "\n" + rep[:4000])
        return res

    def died(self, out, tr, chunk):
        """The process was killed by the code under test (fatal error, unrecovered panic): a trace ending in a panic event."""
        m = re.search(r"^(fatal error: .*|panic: .*)$", out, re.M)
        if not m or "driver:" in m.group(1) or "test timed out" in m.group(1) or "invalid point" in m.group(1) or len(tr) >= len(chunk):
            return None
        if MODPATH + "/pkg" not in out and MODPATH + "/adapters" not in out:
            return None
        return {"died": m.group(1), "stack": out[m.start():m.start() + 6000], "events": [{"op": "died", "res": "panic", "msg": m.group(1)}]}

    # ---- validating, with unknown order ---
    def validate_lin(self, module, traces, consts=None, timeout=800, jobs=6):
        """Traces for which the specification allows no order of the requests."""
        bad = [(i, 0, "the process died: " + t["died"]) for i, t in enumerate(traces) if "died" in t]
        live = [i for i, t in enumerate(traces) if "died" not in t]
        if not live:
            return bad
        jobs = max(1, min(jobs, len(live)))
        groups = [live[i::jobs] for i in range(jobs)]

        def one(g):
            f = self.path("lin_%s_%d_%d.ndjson" % (module, len(self.notes), g))
            with open(f, "w") as o:
                for i in groups[g]:
                    o.write(json.dumps(plain(traces[i])) + "\n")
            rc, out, gen, dist = self.tlc(module, consts, cfg="SPECIFICATION Spec", env={"TRACES": f}, timeout=timeout,
                                          name="LIN_%s_%d_%d" % (module, len(self.notes), g))
            if rc != 0 or "Model checking completed" not in out:
                raise Broken("TLC exit %d validating with %s:\n%s" % (rc, module, out[-4000:]))
            ok = {int(m) - 1 for m in re.findall(r'^"ACCEPT (\d+)"$', out, re.M)}
            return [(i, 0, "no order of the concurrent requests explains the answers") for k, i in enumerate(groups[g]) if k not in ok], gen, dist

        with ThreadPoolExecutor(jobs) as ex:
            for rej, gen, dist in ex.map(one, range(jobs)):
                bad += rej
                self.stats["states"] += dist
                self.stats["transitions"] += gen
        self.stats["traces"] += len(traces)
        self.stats["events"] += sum(len(t["events"]) for t in traces)
        self.notes.append("TLC found a linearization of %d of %d traces with %s" % (len(traces) - len(bad), len(traces), module))
        return sorted(set(bad))

    # ---- validating ---------------------------------------------------
    def validate(self, module, traces, consts=None, cfg="SPECIFICATION Spec", timeout=800, jobs=6):
        """Check recorded traces against the specification; returns a list of (trace index, event index, reason)."""
        bad = []
        live = []
        for i, t in enumerate(traces):
            if "died" in t:
                bad.append((i, 0, "the process died: " + t["died"]))
            else:
                live.append(i)
        if not live:
            return bad
        jobs = max(1, min(jobs, len(live)))
        groups = [live[i::jobs] for i in range(jobs)]

        def one(g):
            f = self.path("val_%s_%d_%d.ndjson" % (module, len(self.notes), g))
            with open(f, "w") as o:
                for i in groups[g]:
                    o.write(json.dumps(plain(traces[i])) + "\n")
            rc, out, gen, dist = self.tlc(module, consts, cfg=cfg, env={"TRACES": f}, timeout=timeout,
                                          name="VAL_%s_%d_%d" % (module, len(self.notes), g))
            rej = []
            for line in out.splitlines():
                if line.startswith('"REJECT '):
                    t, l, why = json.loads(json.loads(line)[7:])
                    rej.append((groups[g][t - 1], l - 1, why))
            if rc != 0 or "Model checking completed" not in out:
                raise Broken("TLC exit %d validating with %s:\n%s" % (rc, module, out[-4000:]))
            return rej, gen, dist

        with ThreadPoolExecutor(jobs) as ex:
            for rej, gen, dist in ex.map(one, range(jobs)):
                bad += rej
                self.stats["states"] += dist
                self.stats["transitions"] += gen
        self.stats["traces"] += len(traces)
        self.stats["events"] += sum(len(t["events"]) for t in traces)
        self.notes.append("TLC validated %d traces with %s" % (len(traces), module))
        return sorted(set(bad))
