"""C04: a plugin build leaves no traces and is honest about its result."""
import json, os, random, re, resource, signal, shutil, subprocess, threading, time
from clikit import *

ASSUME = ["External commands are observed and disturbed through stand-ins in PATH; in most cases the stand-in for go build only records the files it was given and writes an output file.",
          "The checks run as root, so unreadable files are dangling symbolic links, links to directories, and files that cannot be opened because the process may open few files only.",
          "A second signal ends the tool at once, as it announces; only single signals are sent."]

SHIM = r'''#!/bin/sh
# A stand-in for an external command of the tool.
tool=${0##*/}
real="$V_REAL/$tool"
read comm < /proc/$PPID/comm
case "$comm" in hotswap*) ;; *) exec "$real" "$@" ;; esac
k=1
while ! mkdir "$V_DIR/$tool.$k" 2>/dev/null; do k=$((k+1)); done
echo "$tool $1" > "$V_DIR/$tool.$k/args"
act=none
[ "$V_AT" = "$tool.$k" ] && act=$V_ACT
[ "$V_AT" = "build" ] && [ "$tool $1" = "go build" ] && act=$V_ACT
run() {
	if [ "$tool $1" = "go build" ] && [ -n "$V_FAKE" ]; then
		find . -type f | sort > "$V_DIR/seen"
		out=
		while [ $# -gt 0 ]; do
			[ "$1" = "-o" ] && out=$2
			shift
		done
		[ -n "$V_SLOW" ] && sleep "$V_SLOW"
		printf 'half' > "$out" || return 1
		[ "$act" = half ] && return 1
		printf '%s' "$V_FAKE" > "$out" || return 1
		return 0
	fi
	"$real" "$@"
}
case $act in
fail) echo "stand-in: failing" >&2; exit 1 ;;
half) [ "$tool $1" = "go build" ] || exit 3 ;;
die) kill -KILL $$ ;;
int) kill -INT $PPID; sleep 0.1 ;;
term) kill -TERM $PPID; sleep 0.1 ;;
esac
run "$@"
rc=$?
case $act in
failafter) exit 1 ;;
intafter) kill -INT $PPID; sleep 0.1 ;;
termafter) kill -TERM $PPID; sleep 0.1 ;;
intatonce) kill -INT $PPID ;;
intfail) kill -INT $PPID; sleep 0.05; exit 1 ;;
esac
[ $rc = 0 ] && : > "$V_DIR/$tool.$k/ok"
exit $rc
'''

ACTIONS = ["fail", "failafter", "die", "int", "term", "intafter", "termafter", "intatonce", "intfail"]


class World:
    """One module with one plugin; a run of the tool happens in a copy of its own."""

    def __init__(self, c, kit):
        self.c, self.kit = c, kit
        self.shims = c.path("shims")
        for t in ("go", "git", "gofmt"):
            write(os.path.join(self.shims, t), SHIM, 0o755)
        self.real = c.path("real")
        os.makedirs(self.real)
        for t in ("go", "git", "gofmt"):
            p = shutil.which(t, path=c.env["PATH"])
            os.symlink(p, os.path.join(self.real, t))
        self.n = 0
        self.mu = threading.Lock()

    def tree(self, r, big):
        files = {"foo.go": root_source("foo"), "sub/live.go": "package sub\n\nfunc Live_X() {}\n", "sub/deep/t.go": "package deep\n\ntype live_T struct{ A int }\n", "data.txt": "x", "sub/x_test.go": "package sub\n"}
        for k in range(r.randint(300, 900) if big else r.randint(0, 60)):
            d = r.choice(["", "sub", "sub/deep", "a", "b", "b/c"])
            files[os.path.join(d, "f%d.go" % k)] = "package %s\n\n// %s\n" % ({"": "foo"}.get(d, os.path.basename(d)), "x" * r.randint(0, 2000))
        return files


class Case:
    def __init__(self, w, i, big=False):
        self.w, self.c, self.kit = w, w.c, w.kit
        self.r = rng(w.c, i)
        self.i = i
        self.m = w.kit.module("k%s" % i)
        self.files = w.tree(self.r, big)
        self.pdir = os.path.join(self.m, "plugin", "foo")
        self.out = os.path.join(self.m, "out")
        write_tree(self.pdir, self.files)
        write(os.path.join(self.m, "plugin", "foo2", "x.go"), "package foo2\n")
        self.vdir = w.c.path("v", str(i))
        os.makedirs(self.vdir)
        self.flags, self.env, self.static, self.fake = [], {}, False, "nonce-%s-%d" % (i, w.c.seed)
        self.nofile = None
        self.signal_at = None
        self.race = False
        self.mayfail = True
        self.mustfail = None
        self.stale = self.r.random() < 0.5
        self.build_flags = []

    def go(self):
        r = self.r
        leave = "--leaveTemps" in self.flags
        if self.static:
            self.flags.append("--staticLinking")
            os.makedirs(self.out, exist_ok=True)
        elif self.stale:
            write(os.path.join(self.out, "foo.so"), "stale output")
        for f in sorted(self.files):
            if r.random() < 0.15:
                os.chmod(os.path.join(self.pdir, f), r.choice([0o400, 0o444, 0o600, 0o755, 0o664]))
        if r.random() < 0.3:
            os.chmod(os.path.join(self.pdir, "sub", "deep"), r.choice([0o555, 0o500, 0o700, 0o775]))
        before = snapshot(self.m)
        e = dict(self.c.env)
        e.update(self.env)
        e.update(V_DIR=self.vdir, V_REAL=self.w.real, PATH=self.w.shims + ":" + e["PATH"], V_FAKE=self.fake or "")
        race_log = os.path.join(self.vdir, "race")
        if self.race:
            e["GORACE"] = "log_path=%s exitcode=66 atexit_sleep_ms=0" % race_log

        def limits():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if self.nofile:
                resource.setrlimit(resource.RLIMIT_NOFILE, (self.nofile, self.nofile))
        p = subprocess.Popen([self.kit.cli_race if self.race else self.kit.cli, "build"] + self.flags + [self.pdir, self.out] + self.build_flags, cwd=self.m, env=e,
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=limits, text=True, errors="replace")
        if self.signal_at:
            t, sig = self.signal_at
            time.sleep(t)
            try:
                p.send_signal(sig)
            except ProcessLookupError:
                pass
        try:
            out, err = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return ["the tool does not end"], None
        res = Result(p.returncode, out, err, 0)
        bad = []
        after = snapshot(self.m)
        # the output
        done = False
        if not self.static:
            so = os.path.join(self.out, "foo.so")
            if os.path.isfile(so):
                data = open(so, "rb").read()
                done = data == self.fake.encode() if self.fake else data[:4] == b"\x7fELF"
            if self.fake and done:
                seen = set(open(os.path.join(self.vdir, "seen")).read().split("\n"))
                want = {"./" + f for f in self.files if f.endswith(".go") and not f.endswith("_test.go")} | {"./hotswap.main.go", "./hotswapbureau/hotswap.bureau.go", "./sub/hotswap.live.go", "./sub/deep/hotswap.live.go"}
                lost = sorted(want - seen)
                if lost and res.rc == 0:
                    bad.append("exit status 0, but go build ran without " + ", ".join(lost[:5]))
        else:
            done = all(os.path.getsize(os.path.join(d, f)) > 0 if os.path.isfile(os.path.join(d, f)) else False for d, f in (
                (self.pdir, "hotswap.main.go"), (self.pdir, "hotswapbureau/hotswap.bureau.go"), (self.pdir, "sub/hotswap.live.go"), (self.pdir, "sub/deep/hotswap.live.go"),
                (self.out, "hotswap.staticPluginInit.foo.go"), (self.out, "hotswap.staticPlugins.go")))
        if res.rc == 0 and not done and "--goBuild=false" not in self.flags:
            bad.append("exit status 0 without a complete output file")
        if res.rc == 0 and self.mustfail:
            bad.append("exit status 0 although " + self.mustfail)
        if res.rc != 0 and not self.mayfail:
            bad.append("a build with nothing wrong failed")
        if res.rc != 0 and not res.err.strip() and res.rc > 0:
            bad.append("failed without a message")
        if res.crashed():
            bad.append("the tool crashed")
        if self.race and os.path.isdir(self.vdir):
            for f in os.listdir(self.vdir):
                if f.startswith("race."):
                    bad.append("data race: " + open(os.path.join(self.vdir, f)).read()[:1500])
        # traces
        def mine(k):
            if k == "out" or k.startswith("out/"):
                return False
            if self.static and os.path.basename(k).startswith("hotswap.") or self.static and k.endswith("/hotswapbureau"):
                return False
            return True
        d = [x for x in diff({k: v for k, v in before.items() if mine(k)}, {k: v for k, v in after.items() if mine(k)})]
        src = [x for x in d if x.startswith("plugin/foo/") or x.startswith("plugin/foo:")]
        other = [x for x in d if x not in src]
        if src:
            bad.append("the source tree was changed: " + "; ".join(src[:4]))
        if leave or "--goBuild=false" in self.flags:
            if res.rc == 0:
                kept = {x.split(":")[0].split("/")[1] for x in other if x.startswith("plugin/foo-")}
                if len(kept) != 1:
                    bad.append("the temporary directory was not kept: %s" % sorted(kept))
            other = [x for x in other if not x.startswith("plugin/foo-")]
        if other:
            bad.append("traces are left: " + "; ".join(other[:4]))
        return bad, res


def steps(w):
    """The external commands of an undisturbed build, and of static linking."""
    res = []
    for static in (False, True):
        k = Case(w, "golden-%s" % static)
        k.static, k.mayfail = static, False
        bad, r = k.go()
        if bad:
            return None, (bad, r)
        s = []
        for x in sorted(os.listdir(k.vdir)):
            p = os.path.join(k.vdir, x, "args")
            if os.path.exists(p):
                s.append((x, open(p).read().strip()))
        res.append(s)
    return res, None


def plan(c, w, seq):
    """All cases: (name, set-up)."""
    jobs = []
    quick = c.quick()

    def add(name, **kw):
        jobs.append((name, kw))
    plain, static = seq
    rounds = 1 if quick else 6
    for rd in range(rounds):
        for x, what in plain:
            at = x
            acts = list(ACTIONS) + (["half"] if what == "go build" else [])
            for a in acts:
                add("%s (%s): %s #%d" % (x, what, a, rd), at="build" if what == "go build" else at, act=a)
            for a in ("fail", "int", "term"):
                add("%s (%s): %s, temporary files kept #%d" % (x, what, a, rd), at="build" if what == "go build" else at, act=a, flags=["--leaveTemps"])
        for x, what in static:
            for a in ("fail", "die", "failafter", "int"):
                add("static %s (%s): %s #%d" % (x, what, a, rd), at=x, act=a, static=True)
    for f in ([], ["-v"], ["--leaveTemps"], ["--goBuild=false"], ["--goBuild=false", "-v"], ["--debug"], ["--include", "\\.txt$"]):
        add("undisturbed %s" % f, flags=f, clean=True)
    for n in ([1, 2, 3, 10, 45, 100] * (1 if quick else 5)):
        for kind in ("dangling", "directory", "loop", "dangling data"):
            add("%d unreadable files: %s %d" % (n, kind, len(jobs)), unreadable=(n, kind))
    for n in [1, 2, 2, 3] * (1 if quick else 4):
        for kind in ("clash", "not a struct", "syntax", "sub syntax", "incomplete", "two packages"):
            for st in (False, True):
                add("refused, %s times %d%s #%d" % (kind, n, " (static)" if st else "", len(jobs)), refuse=(n, kind), static=st)
    for n in [14, 18, 24, 32, 40, 48] * (1 if quick else 6):
        add("at most %d open files #%d" % (n, len(jobs)), nofile=n, big=True)
    for k in range(60 if quick else 900):
        add("signal at a random time #%d" % k, random=True, big=True)
    for k in range(10 if quick else 60):
        add("race #%d" % k, race=True, big=k % 2 == 0, **[{"clean": True}, {"random": True}, {"unreadable": (40, "dangling")}, {"at": "build", "act": "int"}, {"at": "go.1", "act": "term"}][k % 5])
    for k in range(1 if quick else 3):
        add("real: success #%d" % k, real=True, clean=True)
        add("real: type error #%d" % k, real=True, broken="type error")
        add("real: unused import #%d" % k, real=True, broken="unused import")
        add("real: output is a directory #%d" % k, real=True, broken="directory")
        add("real: bad build flag #%d" % k, real=True, broken="flag")
        add("real: broken sub-package #%d" % k, real=True, broken="sub")
        for s in ("int", "term"):
            for t in (0.3, 0.8) if quick else (0.2, 0.5, 0.8, 1.1, 1.4):
                add("real: %s %.1f s after the start #%d" % (s, t, k), real=True, timed=(t, signal.SIGINT if s == "int" else signal.SIGTERM))
    return jobs


def setup(w, i, name, kw):
    k = Case(w, i, kw.get("big", False))
    r = k.r
    k.flags = list(kw.get("flags", []))
    k.static = kw.get("static", False)
    k.mayfail = not kw.get("clean")
    if "at" in kw:
        k.env = {"V_AT": kw["at"], "V_ACT": kw["act"]}
        if kw["act"] in ("int", "term") and r.random() < 0.5:
            k.env["V_SLOW"] = "0.3"
        if kw["at"] == "build" and kw["act"] in ("fail", "failafter", "die", "half", "intfail") or kw["at"].startswith("git") and kw["act"] in ("fail", "die"):
            k.mustfail = "a command failed: " + name
    if "unreadable" in kw:
        n, kind = kw["unreadable"]
        for j in range(n):
            d = r.choice(["", "sub", "a", "b/c"])
            os.makedirs(os.path.join(k.pdir, d), exist_ok=True)
            p = os.path.join(k.pdir, d, "bad%d.%s" % (j, "txt" if kind == "dangling data" else "go"))
            os.symlink({"dangling": "/nonexistent/x.go", "dangling data": "nowhere", "directory": k.m, "loop": os.path.basename(p)}[kind], p)
        k.mustfail = "files could not be read"
        if kind == "dangling data":
            k.flags += ["--include", "\\.txt$"]
    if "refuse" in kw:
        n, kind = kw["refuse"]
        for j in range(n):
            f, t = {"clash": ("sub/c%d.go" % j, "package sub\n\nfunc Live_C%d() {}\n\nfunc live_%d() {}\n" % (j, j)),
                    "not a struct": ("sub/c%d.go" % j, "package sub\n\ntype Live_C%d int\n" % j),
                    "syntax": ("c%d.go" % j, "package foo\n\nfunc x%d( {\n" % j),
                    "sub syntax": ("sub/c%d.go" % j, "package sub\n\nfunc x%d( {\n" % j),
                    "incomplete": ("foo.go", "package foo\n"),
                    "two packages": ("c%d.go" % j, "package other%d\n" % j)}[kind]
            write(os.path.join(k.pdir, f), t)
            if kind == "clash":
                write(os.path.join(k.pdir, "sub", "deep", "c%d.go" % j), "package deep\n\nfunc Live_C%d() {}\n" % j)
        k.mustfail = "the source is unusable: " + kind
    k.nofile = kw.get("nofile")
    if kw.get("random"):
        k.signal_at = (r.random() ** 1.5 * 0.9, r.choice([signal.SIGINT, signal.SIGTERM]))
        if r.random() < 0.5:
            k.env["V_SLOW"] = "0.%d" % r.randint(1, 4)
    k.race = kw.get("race", False)
    if kw.get("real"):
        k.fake, k.stale = None, False
        b = kw.get("broken")
        k.mustfail = b and "the plugin cannot be built: " + b
        p = {"type error": ("sub/e.go", 'package sub\n\nvar x int = "s"\n'), "unused import": ("e.go", 'package foo\n\nimport "os"\n'), "sub": ("sub/e.go", "package sub\n\nimport _ \"example.com/m/nowhere\"\n")}.get(b)
        if p:
            write(os.path.join(k.pdir, p[0]), p[1])
        if b == "directory":
            write(os.path.join(k.out, "foo.so", "x", "y"), "z")
        if b == "flag":
            k.build_flags = ["--", "-nosuchflag"]
        k.signal_at = kw.get("timed")
    return k


def run(c, replay):
    kit = Kit(c, race=True)
    w = World(c, kit)
    seq, trouble = steps(w)
    if trouble:
        bad, res = trouble
        c.evaluations += 1
        c.distinct = 1
        c.violation("an undisturbed build: %s\n%s" % ("; ".join(bad), res.text() if res else ""), {"kind": "cli", "name": "golden"})
        return
    jobs = plan(c, w, seq)
    if replay and replay["name"] != "golden":
        jobs = [j for j in jobs if j[0] == replay["name"]] * (10 if "random" in replay["name"] else 1)
    sigs, outcome = set(), {}
    lock = threading.Lock()
    count = {}

    def one(item):
        i, (name, kw) = item
        k = setup(w, i if not replay else "%s-%d" % (replay.get("index", 0), i), name, kw)
        t0 = time.time()
        bad, res = k.go()
        if os.environ.get("VERIF_SLOW"):
            print("%.1f %s" % (time.time() - t0, name))
        shutil.rmtree(k.m, ignore_errors=True)
        with lock:
            c.evaluations += 1
            kind = re.sub(r" #\d+$", "", name)
            o = "no end" if res is None else "ok" if res.rc == 0 else "killed" if res.rc < 0 else "failed"
            st = sorted(x for x in os.listdir(k.vdir) if os.path.isdir(os.path.join(k.vdir, x)))
            sigs.add(digest((kind, o, st)))
            count[o] = count.get(o, 0) + 1
            if bad:
                c.violation("%s: %s\n%s" % (name, "; ".join(bad), res.text() if res else ""), {"kind": "cli", "name": name, "index": i})
            if len(c.samples) < 8 and i % 23 == 5:
                c.samples.append({"case": name, "ended": o, "commands seen": st})
    kit.parallel(one, list(enumerate(jobs)), 8)
    c.distinct = len(sigs)
    c.extra["outcomes"] = count
    c.extra["steps"] = {"plugin": [b for a, b in seq[0]], "static": [b for a, b in seq[1]]}
    c.rule = ("builds with a failure, a signal or a kill before and after each external command, with unreadable files, few file descriptors, signals at random times and real compiler errors; afterwards the "
              "file system, exit status, output, messages and (on a -race build of the tool) race reports are judged; distinct by disturbance, outcome and commands reached")
