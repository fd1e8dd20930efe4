"""C10: builds that run at the same time do not disturb one another."""
import os, random, re, shutil, threading, time
from clikit import *
from clicheck import cases
from c09 import tree

ASSUME = ["go build is observed through a stand-in in PATH that keeps what it is given, before and after a while.",
          "Simultaneous builds of one plugin write to different output directories, or go build itself would have two writers of one file; code for static linking is generated for one plugin at a time."]

SHIM = r'''#!/bin/sh
if [ "$1" != build ]; then
	exec "$V_REAL" "$@"
fi
k=1
while ! mkdir "$V_DIR/call.$k" 2>/dev/null; do k=$((k+1)); done
d="$V_DIR/call.$k"
pwd > "$d/cwd"
cp -a . "$d/tree"
out=
while [ $# -gt 0 ]; do
	[ "$1" = "-o" ] && out=$2
	case "$1" in -o=*) out=${1#-o=} ;; --o=*) out=${1#--o=} ;; esac
	shift
done
sleep "$V_SLEEP"
cp -a . "$d/later" || exit 8
case $V_ACT in
fail) echo "stand-in: failing" >&2; exit 1 ;;
int) kill -INT $PPID; sleep 0.1; exit 1 ;;
esac
[ -n "$out" ] || exit 9
printf '%s' "$V_NONCE" > "$out"
: > "$d/end"
'''

FAMILIES = [["foo", "foo-bar", "foo2"], ["a", "a-b", "ab", "a-b-c"], ["Foo", "foo"], ["x", "x.so", "x.y"], ["p"], ["tmp", "out", "tmp-1"]]
KINDS = ["ok"] * 6 + ["leave", "leave", "nobuild", "nobuild", "fail", "fail", "int", "incomplete", "broken", "static"]


def source(r, name):
    pkg = "p" + re.sub(r"\W", "", name).lower()
    files = {"root.go": root_source(pkg, "func live_R() {}\n", imports=['_ "example.com/m/%s/sub"' % ("@" + name)]), "sub/s.go": "package sub\n\nfunc Live_S() {}\n\ntype Live_T struct{}\n",
             "data.txt": name, "t_test.go": "package %s\n" % pkg}
    for k in range(r.choice([0, 3, 30])):
        files["more%d/m%d.go" % (k % 4, k)] = "package more%d\n\nfunc Live_M%d() {}\n" % (k % 4, k)
    return files


class Batch:
    def __init__(self, c, kit, i):
        self.c, self.kit, self.i = c, kit, i
        self.r = r = rng(c, i)
        self.m = kit.module("b%d" % i)
        self.names = r.choice(FAMILIES)
        self.where = r.choice(["plugin", "a/b", "internal/p"])
        self.plugs = {}
        for n in self.names:
            self.add(n, source(r, n))
        # the same name elsewhere
        other = self.names[0]
        d = os.path.join(self.m, "elsewhere", other)
        write_tree(d, {k: v.replace("example.com/m/@" + other, "example.com/m/elsewhere/" + other) for k, v in source(r, other).items()})
        self.plugs["elsewhere/" + other] = d
        src = source(r, "bad")
        src["root.go"] = src["root.go"].replace("func OnFree()", "func onFree()")
        self.add("bad", src)
        src = source(r, "broken")
        src["sub/s.go"] += "func {\n"
        self.add("broken", src)
        self.add("stat", source(r, "stat"))
        write(os.path.join(self.m, "host", "h.go"), "package host\n")
        self.shim = c.path("shims")
        self.errs = []

    def add(self, n, files):
        d = os.path.join(self.m, self.where, n)
        write_tree(d, {k: v.replace("example.com/m/@" + n, "example.com/m/%s/%s" % (self.where, n)) for k, v in files.items()})
        self.plugs[n] = d

    def run(self):
        c, r, kit = self.c, self.r, self.kit
        good = [n for n in self.plugs if n not in ("bad", "broken", "stat")]
        # what each build makes when nothing else runs
        solo = {}
        for n in good:
            d = self.plugs[n]
            res = kit.run(["build", "--goBuild=false", d, os.path.join(self.m, "solo")], cwd=self.m)
            t = res.out.strip().split("\n")[0]
            if res.rc != 0 or not os.path.isdir(t):
                self.errs.append("a build with nothing wrong failed\n" + res.text())
                return
            solo[n] = tree(t, os.path.basename(t))
            shutil.rmtree(t)
        before = snapshot(self.m)
        jobs, static = [], False
        shared = {}
        hot = r.choice(good)        # most builds are of one plugin
        for k in range(r.randint(6, 16)):
            kind = r.choice(KINDS)
            if kind == "static":
                if static:
                    kind = "ok"
                static = True
            n = {"incomplete": "bad", "broken": "broken", "static": "stat"}.get(kind) or (hot if r.random() < 0.6 else r.choice(good))
            out = os.path.join(self.m, "out", "o%d" % k)
            base = os.path.basename(self.plugs[n])
            if kind != "static" and base not in shared and r.random() < 0.3:
                out = os.path.join(self.m, "out", "shared")
                shared[base] = k
            jobs.append((k, kind, n, out, r.random() * r.choice([0, 0.1, 0.6]), r.choice([0, 0.05, 0.3, 0.6]), r.choice([[], [], ["-v"], ["--debug"]])))
        os.makedirs(os.path.join(self.m, "out"))
        results = [None] * len(jobs)
        real = shutil.which("go", path=c.env["PATH"])

        def one(j):
            k, kind, n, out, delay, nap, cos = j
            v = c.path("v", "%d-%d" % (self.i, k))
            os.makedirs(v)
            e = {"V_DIR": v, "V_REAL": real, "PATH": self.shim + ":" + c.env["PATH"], "V_NONCE": "nonce %d %d" % (self.i, k), "V_SLEEP": str(nap), "V_ACT": kind}
            args = ["build"] + cos
            if kind == "static":
                args, out = args + ["--staticLinking"], os.path.join(self.m, "host")
            elif kind == "nobuild":
                args.append("--goBuild=false")
            elif kind == "leave":
                args.append("--leaveTemps")
            time.sleep(delay)
            results[k] = kit.run(args + [self.plugs[n], out], cwd=self.m, env=e)
        ts = [threading.Thread(target=one, args=(j,)) for j in jobs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        c.evaluations += len(jobs)

        want = dict(before)
        kept = {}                   # directory -> job
        for k, kind, n, out, delay, nap, cos in jobs:
            res = results[k]

            def bad(msg):
                self.errs.append("%s: build %d of %s (%s) among %s\n%s" % (msg, k, n, kind, [(x[1], x[2]) for x in jobs], res.text()))
            fine = kind in ("ok", "leave", "nobuild", "static")
            if (res.rc == 0) != fine:
                bad("a build that %s alone %s when others run" % (("succeeds", "fails") if fine else ("fails", "succeeds")))
                continue
            if res.crashed() and "--debug" not in cos:
                bad("the tool crashed")
            v = c.path("v", "%d-%d" % (self.i, k))
            calls = sorted(os.listdir(v))
            if len(calls) != (kind in ("ok", "leave", "fail", "int")):
                bad("go build ran %d times" % len(calls))
                continue
            if calls:
                d = os.path.join(v, calls[0])
                at = open(os.path.join(d, "cwd")).read().rstrip("\n")
                if not at or not os.path.isdir(os.path.join(d, "tree")):
                    bad("the tree disappeared before it was built")
                    continue
                for x in ("tree", "later"):
                    if not os.path.isdir(os.path.join(d, x)):
                        bad("the tree disappeared while it was being built")
                        continue
                    t = tree(os.path.join(d, x), os.path.basename(at))
                    if t != solo[n]:
                        bad("go build was given something else than alone (%s): %s" % (x, diff(solo[n], t)[:5]))
                    c.evaluations += 1
                if at in kept:
                    bad("two builds used " + at)
                kept[at] = (k, n, kind == "leave")
            if kind in ("ok", "leave"):
                so = os.path.join(out, os.path.basename(self.plugs[n]) + ".so")
                if not os.path.isfile(so) or open(so).read() != "nonce %d %d" % (self.i, k):
                    bad("the output is not in place")
                last = [x for x in res.out.split("\n") if x.strip()][-1:]
                if last != [so]:
                    bad("the last line of the output is %s instead of %s" % (last, so))
            if kind == "nobuild":
                at = [x for x in res.out.split("\n") if os.path.dirname(x) == os.path.dirname(self.plugs[n]) and os.path.isdir(x)]
                if not at:
                    bad("the directory is not there")
                    continue
                if at[0] in kept:
                    bad("two builds used " + at[0])
                kept[at[0]] = (k, n, True)
        after = snapshot(self.m)
        for at, (k, n, stays) in kept.items():
            rel = os.path.relpath(at, self.m)
            inside = [x for x in after if x == rel or x.startswith(rel + "/")]
            if bool(inside) != stays:
                self.errs.append("%s of build %d of %s %s" % (at, k, n, "is gone" if stays else "was left behind"))
            elif stays:
                t = tree(at, os.path.basename(at))
                if t != solo[n]:
                    self.errs.append("what build %d of %s left is not what it leaves alone: %s" % (k, n, diff(solo[n], t)[:5]))
            for x in inside:
                del after[x]
        gen = re.compile(r"^(host/hotswap\.static.*\.go|%s/stat/(.*/)?hotswap\.\w+\.go|%s/stat/hotswapbureau|out(/.*)?)$" % (re.escape(self.where), re.escape(self.where)))
        left = [x for x in diff(want, after) if not gen.match(x.split(": ")[0])]
        if left:
            self.errs.append("after simultaneous builds %s: %s" % ([(x[1], x[2]) for x in jobs], left[:8]))
        if static:
            for f in ("host/hotswap.staticPluginInit.stat.go", "host/hotswap.staticPlugins.go", self.where + "/stat/hotswap.main.go", self.where + "/stat/sub/hotswap.live.go"):
                if f not in after:
                    self.errs.append("the code for static linking is incomplete: no " + f)
        self.kinds = sorted((x[1], x[2]) for x in jobs)
        c.extra["simultaneous_builds"] = c.extra.get("simultaneous_builds", 0) + len(jobs)
        return True


def run(c, replay):
    kit = Kit(c)
    write(c.path("shims", "go"), SHIM, 0o755)
    sigs = set()

    def one(i):
        b = Batch(c, kit, i)
        b.run()
        shutil.rmtree(b.m, ignore_errors=True)
        for k in range(16):
            shutil.rmtree(c.path("v", "%d-%d" % (i, k)), ignore_errors=True)
        return b
    todo = cases(c, replay, 60, 900)
    for b in kit.parallel(one, todo, 3):
        if hasattr(b, "kinds"):
            sigs.add(digest(b.kinds))
            if len(c.samples) < 6 and b.i % 5 == 0:
                c.samples.append({"case": b.i, "builds at the same time": b.kinds})
        for e in b.errs[:1]:
            c.violation(e, {"kind": "cli", "case": b.i})
    c.distinct = len(sigs)
    c.rule = ("batches of builds that start at about the same time, successful, failing, interrupted and leaving their trees, most of one plugin, others of plugins with similar names; each must end as it does alone, "
              "and what go build gets, now and a moment later, what is left and the sources are compared with builds that run alone; distinct by kinds of builds and plugins")
