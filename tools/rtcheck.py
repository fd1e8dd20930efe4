"""The checks of the library (R01-R20): real code under generated workloads, watched by monitors."""
import glob, json, os, re, shutil, subprocess, time
from common import *
import mkoverlay

# How many cases of each workload a quick check runs. 'race' cases are run by a second build with the race detector.
PLAN = {
    "R01": dict(history=20000),
    "R02": dict(history=12000, conc=12000),
    "R03": dict(history=20000, conc=1600),
    "R04": dict(history=20000, dense=800),
    "R05": dict(history=18000, conc=4000),
    "R06": dict(history=20000),
    "R07": dict(history=20000),
    "R08": dict(history=20000),
    "R09": dict(history=24000, dense=800),
    "R10": dict(history=20000, conc=1600),
    "R11": dict(history=20000),
    "R12": dict(history=20000, conc=1600),
    "R13": dict(history=4000, conc=8000, race=6000),
    "R14": dict(history=20000, conc=1600),
    "R15": dict(history=4000, lookup=4800),
    "R16": dict(history=10000, copy=6000),
    "R17": dict(history=20000, conc=1600),
    "R18": dict(history=20000),
    "R19": dict(history=20000),
    "R20": dict(leak=6000),
}

RULE = {
    "R01": "histories of loads, file edits, faults and waiting; a failed load counts, by the set of its causes and what was running before",
    "R02": "sequential histories watched at every plugin function, and concurrent histories checked against an atomic register; a situation is a published generation by shape, or a concurrent history with loads and reads that linearised",
    "R03": "loads of generated plugin sets; a situation is the shape of a load (plugins, dependencies, carried-over ones, faults) whose call trace was compared with the phases",
    "R04": "loads and frees of plugin sets with generated dependency graphs; a situation is a dependency graph with at least one edge and what of it was loaded or freed together",
    "R05": "histories of loads, failures and waiting; a situation is a set of versions freed together, by size, dependencies, delay and generations",
    "R06": "histories with generated free delays in virtual time; a situation is a set of versions freed together, by delay, generations and waiting",
    "R07": "reloads with generated changes of files; a situation is what was new, unchanged, not reloadable and dropped",
    "R08": "loads of plugins with generated Import structs (field kinds, tags, presets) and exports; a situation is a set of import fields that was checked",
    "R09": "loads of generated dependency graphs, sound or not; a situation is a graph and the reasons the model has to refuse it",
    "R10": "loads of plugins with generated live functions, types and data; a situation is the make-up of a vault, or a refused name clash",
    "R11": "loads and invocations with generated errors and panics of many kinds in every plugin function and callback; a situation is a fault kind, where it struck and what else was there",
    "R12": "loads of generated directory contents and whitelists; a situation is what was in the directory and in the list, and the outcome",
    "R13": "concurrent histories of loaders, readers, builders and background frees, half of them under the race detector; a situation is a history with at least two successful loads, by goroutines, loads, reads and plugins",
    "R14": "loads of generated statically linked plugin sets compared with the same model as dynamic ones; a situation is the shape of a static set, its faults and the outcome",
    "R15": "lookups of symbols of generated types into generated targets; a situation is a pair of symbol type and target type and the outcome",
    "R16": "loads while files are replaced, rewritten, truncated and removed at generated moments; a situation is a set of changes and when they struck",
    "R17": "loads with generated callbacks and faults; a situation is which callbacks there were, what they did and what else failed",
    "R18": "InvokeEach and InvokeEachBackward on generated generations; a situation is a shape, a direction and which plugins failed",
    "R19": "loads of generated plugin sets; a situation is the shape of a generation whose plugins' descriptions were compared with the model",
    "R20": "long lives of a host with a dozen and more loads, many of them refused; a situation is the sequence of loads, by outcome, files changed, plugins, size and delay",
}

ASSUME = [
    "The dynamic loader is a stand-in that reads the file handed to plugin.Open and answers with symbols of the harness; real .so files are covered by C02 and C03.",
    "Time is virtual (testing/synctest): delays are exact, and a plugin function takes no time unless it sleeps.",
    "Faults are returned errors and panics; runtime.Goexit, os.Exit and memory corruption by plugins are out of scope.",
]


def build(c, race=False):
    h = c.path("harness")
    if not os.path.isdir(h):
        shutil.copytree(os.path.join(VERIF, "harness"), h)
        mkoverlay.make(GOROOT, c.scratch)
    out = c.path("rt.race" if race else "rt.test")
    c.sh(["go", "test", "-c", "-vet=off", "-trimpath", "-overlay", c.path("overlay.json")] + (["-race"] if race else []) +
         ["-o", out, "./rt"], cwd=h, timeout=800, what="building the harness")
    return out


class Shard:
    def __init__(self, c, n, cfg, race):
        self.c, self.n, self.cfg, self.race = c, n, cfg, race
        self.restarts = 0

    def start(self):
        c = self.c
        tag = "%s%d.%d" % ("race" if self.race else "s", self.n, self.restarts)
        self.root = os.path.join(c.fast(), "w." + tag)
        os.makedirs(self.root)
        self.cfg["Root"] = self.root
        self.cfg["Out"] = self.out = c.path("out." + tag)
        f = c.path("cfg." + tag)
        json.dump(self.cfg, open(f, "w"))
        self.log = c.path("log." + tag)
        self.racelog = c.path("racelog." + tag)
        t = os.path.join(c.fast(), "t." + tag)
        os.makedirs(t)
        e = dict(c.env, VERIF_SHARD=f, TMPDIR=t, GOTRACEBACK="all",
                 GORACE="halt_on_error=0 exitcode=0 history_size=3 log_path=" + self.racelog)
        self.p = subprocess.Popen([c.path("rt.race" if self.race else "rt.test"), "-test.run", "TestShard$", "-test.timeout", "0"],
                                  cwd=self.root, env=e, stdin=subprocess.DEVNULL, stdout=open(self.log, "w"), stderr=subprocess.STDOUT)

    def status(self):
        s = open(self.out + ".status").read().split()
        return int(s[0]), s[1], s[2], int(s[3])

    def replay(self, mode, prof, idx):
        return {"kind": "rt", "mode": mode, "prof": prof, "idx": idx, "race": self.race, "nosleep": self.cfg["NoSleep"]}


LIB = ("github.com/edwingeng/hotswap.", "github.com/edwingeng/hotswap/")


def library_panic(log):
    """Is the goroutine that brought the process down running library code?"""
    m = re.search(r"^(panic|fatal error|unexpected fault|SIG)[^\n]*", log, re.M)
    if not m:
        return None
    rest = log[m.start():]
    head = m.group(0)
    if "deadlock" in rest[:400] or "all goroutines" in rest[:400]:
        return head if any(l in rest for l in LIB) else None
    gs = re.split(r"\n\n", rest)
    for g in gs[:3]:
        if g.lstrip().startswith("goroutine") or "\ngoroutine" in g:
            # frames of the harness that the library calls have library frames below them
            return head if any(l in g for l in LIB) else None
    return head if any(l in rest[:8000] for l in LIB) else None


def run_shards(c, shards, deadline):
    outs = []
    for s in shards:
        s.start()
    live = list(shards)
    while live:
        time.sleep(0.05)
        for s in list(live):
            rc = s.p.poll()
            if rc is None:
                if time.time() > deadline:
                    s.p.kill()
                    s.p.wait()
                    raise Broken("a shard did not end in time: %s" % (s.status(),))
                continue
            live.remove(s)
            if rc == 0 and os.path.exists(s.out):
                outs.append(json.load(open(s.out)))
                shutil.rmtree(s.root, ignore_errors=True)
                continue
            log = open(s.log, errors="replace").read()
            if s.race and os.path.exists(s.out) and "race detected during execution" in log and race_reports(c, s):
                outs.append(json.load(open(s.out)))
                shutil.rmtree(s.root, ignore_errors=True)
                continue
            ji, mode, prof, idx = s.status()
            if os.path.exists(s.out + ".hang"):
                kind, _, stacks = open(s.out + ".hang", errors="replace").read().partition("\n")
                if kind == "artifact" and not s.cfg["NoSleep"]:
                    # Virtual time cannot pass while a lock is waited for: go on without slow plugin functions.
                    c.extra["restarts_without_slow_functions"] = c.extra.get("restarts_without_slow_functions", 0) + 1
                    s.restarts += 1
                    s.cfg = json.loads(json.dumps(s.cfg))
                    s.cfg["NoSleep"] = True
                    s.cfg["Jobs"] = s.cfg["Jobs"][ji:]
                    s.cfg["Jobs"][0]["From"] = idx
                    s.start()
                    live.append(s)
                    continue
                lib = [g for g in stacks.split("\n\n") if any(l in g for l in LIB)]
                if kind in ("blocked", "busy") and lib:
                    word = "is blocked for good" if kind == "blocked" else "does not come to an end"
                    c.violation("the library %s (%s case %d)\n%s" % (word, mode, idx, "\n\n".join(lib)[:6000]), s.replay(mode, prof, idx))
                    continue
                raise Broken("a shard hangs (%s) in %s case %d\n%s" % (kind, mode, idx, stacks[:6000]))
            head = library_panic(log)
            if head:
                i = log.find(head)
                c.violation("the process died in %s case %d: %s" % (mode, idx, log[i:i + 5000]), s.replay(mode, prof, idx))
                continue
            raise Broken("a shard ended with %d in %s case %d:\n%s" % (rc, mode, idx, log[-6000:]))
    return outs


def race_reports(c, s):
    res = []
    for f in sorted(glob.glob(s.racelog + "*")):
        for r in open(f, errors="replace").read().split("=================="):
            if "DATA RACE" in r:
                res.append(r.strip())
    return res


def run(c, replay=None):
    plan = PLAN[c.prop]
    mult = 1 if c.quick() else int(os.environ.get("VERIF_MULT", "15"))
    budget = 330 if c.quick() else 3000
    seeds = c.seed
    want_race = plan.get("race", 0) > 0 if not replay else replay["race"]
    want_plain = not replay or not replay["race"]
    if want_plain:
        build(c)
    if want_race:
        build(c, race=True)
    procs = max(2, min(8, os.cpu_count() or 4))
    base = dict(Prop=c.prop, Seed=seeds, Race=False, NoSleep=False, Budget=budget, Trace=True)
    groups = []
    if replay:
        n = 300 if replay["mode"] in ("conc", "copy") else 5
        jobs = [dict(Mode=replay["mode"], Prof=replay["prof"], From=replay["idx"], To=replay["idx"] + 1, Step=1)] * n
        base.update(Jobs=jobs, Race=replay["race"], NoSleep=replay["nosleep"], Seed=replay["seed"])
        groups.append([Shard(c, 0, base, replay["race"])])
    else:
        def shards(modes, race):
            res = []
            for i in range(procs):
                jobs = []
                for mode, n in modes:
                    jobs.append(dict(Mode=mode, Prof=c.prop, From=i, To=n * mult, Step=procs))
                res.append(Shard(c, i, dict(base, Jobs=jobs, Race=race), race))
            return res
        groups.append(shards([(m, plan[m]) for m in ("lookup", "copy", "leak", "dense", "conc", "history") if plan.get(m)], False))
        if want_race:
            groups.append(shards([("conc", plan["race"])], True))

    sigs, counts = set(), {}
    for g in groups:
        outs = run_shards(c, g, time.time() + budget + 200)
        for s in g:
            for r in race_reports(c, s):
                if not any(l in r for l in LIB):
                    raise Broken("the race detector reports a race of the harness itself:\n" + r[:4000])
                counts["race_reports"] = counts.get("race_reports", 0) + 1
                if c.prop == "R13":
                    c.violation("data race\n" + r[:6000], {"kind": "rt", "mode": "conc", "prof": c.prop, "idx": s.cfg["Jobs"][0]["From"],
                                                            "race": True, "nosleep": s.cfg["NoSleep"]})
        for o in outs:
            c.evaluations += (o["Evals"] or {}).get(c.prop, 0)
            sigs.update((o["Sigs"] or {}).get(c.prop) or [])
            for k, v in (o["Counts"] or {}).items():
                counts[k] = counts.get(k, 0) + v
            if o["Skipped"]:
                counts["cases_skipped_for_time"] = counts.get("cases_skipped_for_time", 0) + o["Skipped"]
            if len(c.samples) < 12:
                c.samples += (o["Samples"].get(c.prop) or [])[:2]
            for f in o["Found"] or []:
                if f["Prop"] != c.prop:
                    c.notes.append("also seen: %s (%s case %d): %s" % (f["Prop"], f["Mode"], f["Idx"], f["Msg"][:300]))
                    continue
                c.violation(f["Msg"], {"kind": "rt", "mode": f["Mode"], "prof": f["Prof"], "idx": f["Idx"],
                                       "race": g[0].race, "nosleep": g[0].cfg["NoSleep"], "trace": f["Trace"]})
    if counts.get("leak_loads_unexpected", 0) * 2 > counts.get("leak_loads", 0):
        raise Broken("most loads of the leak workload end unexpectedly: %s" % counts)
    c.distinct = len(sigs)
    c.rule = RULE[c.prop] + "; counted by hash of that description"
    c.extra["observed"] = counts
    c.assumptions = ASSUME
