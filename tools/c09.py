"""C09: build options reach the compiler, and nothing else changes what is built."""
import hashlib, json, os, re, shutil, sys
from clikit import *
from clicheck import cases

ASSUME = ["go build is observed through a stand-in in PATH in most cases; some plugins are really built, loaded and asked.",
          "Options that go build takes only once and that hotswap gives itself (-o, -buildmode) are not given by the user."]

SHIM = r'''#!/bin/sh
if [ "$1" != build ]; then
	exec "$V_REAL" "$@"
fi
k=1
while ! mkdir "$V_DIR/call.$k" 2>/dev/null; do k=$((k+1)); done
d="$V_DIR/call.$k"
printf '%s\0' "$@" > "$d/args"
env -0 > "$d/env"
pwd > "$d/cwd"
cp -a . "$d/tree"
out=
while [ $# -gt 0 ]; do
	[ "$1" = "-o" ] && out=$2
	case "$1" in -o=*) out=${1#-o=} ;; --o=*) out=${1#--o=} ;; esac
	shift
done
[ -n "$out" ] || exit 9
printf '%s' "$V_NONCE" > "$out"
'''

NAMES = ["foo", "foo-bar", "foo.v2", "Foo_9", "x", "build", "so", "foo.so", "a.b.c", "hotswap", "foo--bar", "no", "9x"]
FLAGS = [["-race"], ["-tags", "a b"], ["-tags=a,b"], ["-ldflags=-X 'main.V=x y'"], ["-gcflags=all=-N -l"], ["-v"], ["-x"], ["-p", "3"], ["-ldflags", "-s -w"], ["--debug"], ["--leaveTemps"],
         ["-h"], ["--help"], ["--staticLinking"], ["--clean"], ["--goBuild=false"], ["--livePrefix", "zzz"], ["--include", "("], [""], ["-mod=mod"], ["-asmflags=x=\"y\""], ["--"], ["-cover=false"], ["-é"], ["-a", "-a"], ["-gcflags=a/...=-l", "-gcflags=b=-N"], ["-ldflags=x=-s", "-ldflags", "-w", "-ldflags=y=-w"], ["-p=2", "-p=2"], ["build"], ["*"], ["$HOME"], ["-toolexec=true  x"], ["a=b"], ["-tags="]]
COSMETIC = [[], ["-v"], ["--verbose"], ["--debug"], ["--leaveTemps"], ["--goBuild"], ["--goBuild=true"], ["-v", "--leaveTemps"], ["--debug", "-v"], ["--staticLinking=false"], ["--clean=false"], ["--livePrefix=live_"], ["--livePrefix", " LIVE_ "], ["--exclude", "x"], ["--include", "^$"]]
ROOTS = ["m", "my mod", "é", "a=b", "m-1", "m.x", "it's", "x y/z"]


def source(r, name):
    pkg = re.sub(r"\W", "", name).lower()
    if not pkg or pkg[0].isdigit():
        pkg = "p" + pkg
    files = {"root.go": root_source(pkg, "func live_R() {}\n"), "sub/s.go": "package sub\n\nfunc Live_S() {}\n\ntype Live_T struct{}\n", "sub/deep/d.go": "package deep\n\nfunc live_D() {}\n",
             "a.go": "//go:build a\n\npackage %s\n\nfunc live_A() {}\n" % pkg, "data.txt": "x", "t_test.go": "package %s\n" % pkg}
    for k in range(r.randint(0, 6)):
        files["more/m%d.go" % k] = "package more\n\nfunc Live_M%d() {}\n" % k
    return files


def tree(d, tmp):
    """What the files of a build tree say, whatever the tree is called."""
    res = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            t = open(p, "rb").read().replace(tmp.encode(), b"<tree>")
            res[os.path.relpath(p, d)] = hashlib.sha1(b"\n".join(sorted(t.split(b"\n")))).hexdigest()[:12]
    return res


def sub(needle, hay):
    """Whether needle is a contiguous part of hay."""
    return not needle or any(hay[k:k + len(needle)] == needle for k in range(len(hay) - len(needle) + 1))


def run(c, replay):
    kit = Kit(c)
    sigs = set()
    shim = c.path("shims")
    write(os.path.join(shim, "go"), SHIM, 0o755)
    real = shutil.which("go", path=c.env["PATH"])

    def one(i):
        r = rng(c, i)
        name = r.choice(NAMES)
        m = kit.module("o%d/%s" % (i, r.choice(ROOTS)))
        where = r.choice(["plugin", "", "a/b/c", "internal"])
        pdir = os.path.join(m, where, name)
        write_tree(pdir, source(r, name))
        flags = [x for f in r.sample(FLAGS, r.choice([0, 1, 1, 2, 3, 5])) for x in f]
        dashes = bool(flags) or r.random() < 0.3
        outs = {"existing": os.path.join(m, "out"), "missing": os.path.join(m, "new"), "nested": os.path.join(m, "n1", "n 2", "n3"), "module": m, "beside": os.path.dirname(pdir), "odd": os.path.join(m, "out.so")}
        ok = r.choice(sorted(outs))
        out = outs[ok]
        if ok in ("existing", "odd"):
            os.makedirs(out, exist_ok=True)
        so = os.path.join(out, name + ".so")
        if os.path.isdir(so):
            return None
        cwd = r.choice([m, os.path.dirname(pdir), pdir, os.path.join(pdir, "sub"), c.scratch])

        def spell(p):
            k = r.choice(["abs", "rel", "rel", "slash", "dot"])
            rel = os.path.relpath(p, cwd)
            return {"abs": p, "rel": rel, "slash": rel + "/", "dot": "./" + rel}[k]
        a1, a2 = spell(pdir), spell(out)
        errs = []
        seen = []
        nonce = "nonce %d %d" % (i, c.seed)
        for round in range(2):
            cos = r.choice(COSMETIC)
            pos = [a1, a2]
            args = r.choice([["build"] + cos + pos, ["build"] + pos + cos, ["build", a1] + cos + [a2]])
            args += ["--"] + flags if dashes else []
            v = c.path("v", "%d-%d" % (i, round))
            os.makedirs(v)
            env = {"V_DIR": v, "V_REAL": real, "PATH": shim + ":" + c.env["PATH"], "V_NONCE": nonce, "V_OTHER": "a\nb", "GOWORK": "off", "CGO_CFLAGS": "-O1 -g"}
            if r.random() < 0.2:
                env["GO111MODULE"] = r.choice(["off", "auto", "on"])
            before = set(os.listdir(os.path.dirname(pdir)))
            res = kit.run(args, cwd=cwd, env=env)
            c.evaluations += 1

            def bad(msg):
                errs.append("%s\n%s in %s\n%s" % (msg, args, cwd, res.text()))
            if res.rc != 0:
                bad("a build with nothing wrong failed")
                break
            calls = sorted(os.listdir(v))
            if len(calls) != 1:
                bad("go build ran %d times" % len(calls))
                break
            d = os.path.join(v, calls[0])
            argv = open(os.path.join(d, "args"), encoding="utf-8", errors="surrogateescape").read().split("\0")[:-1]
            at = open(os.path.join(d, "cwd")).read().rstrip("\n")
            got = dict(x.split("=", 1) for x in open(os.path.join(d, "env"), errors="surrogateescape").read().split("\0") if "=" in x)
            tmp = os.path.basename(at)
            if not sub(flags, argv):
                bad("the build flags did not reach go build as they were: %r" % argv)
            if not any(x in ("-buildmode=plugin", "--buildmode=plugin") for x in argv) and not sub(["-buildmode", "plugin"], argv):
                bad("not built as a plugin: %r" % argv)
            if not any(x.lstrip("-") in ("trimpath", "trimpath=true") for x in argv):
                bad("built without -trimpath, which hosts have to be built with: %r" % argv)
            for k, x in env.items():
                if k != "GO111MODULE" and got.get(k) != x:
                    bad("the environment variable %s did not reach go build" % k)
            if got.get("GO111MODULE") != "on":
                bad("go build ran with GO111MODULE=%s" % got.get("GO111MODULE"))
            if not os.path.isfile(so) or open(so).read() != nonce:
                bad("the output is not %s" % so)
            else:
                os.remove(so)
            last = [x for x in res.out.split("\n") if x.strip()][-1:]
            if last != [so]:
                bad("the last line of the output is %s instead of %s" % (last, so))
            left = set(os.listdir(os.path.dirname(pdir))) - before - {"out", "new", "n1", "out.so"}
            keep = "--leaveTemps" in cos
            if keep and left != {tmp}:
                bad("--leaveTemps left %s instead of %s" % (left, tmp))
            elif not keep and left:
                bad("left behind: %s" % left)
            t = tree(os.path.join(d, "tree"), tmp)
            if keep and not errs:
                if tree(at, tmp) != t:
                    bad("the directory that is left is not the one that was built")
                shutil.rmtree(at)
            # Whether go build tells what it does does not matter.
            norm = [x.replace(tmp, "<tree>") for x in argv if x not in ("-v", "-x") or x in flags]
            seen.append((cos, norm, t))
            if errs:
                break
        if not errs:
            # and once more without go build
            before = set(os.listdir(os.path.dirname(pdir)))
            cos = r.choice([[], ["-v"], ["--leaveTemps"]])
            args = ["build", "--goBuild=false"] + cos + [a1, a2] + (["--"] + flags if dashes else [])
            v = c.path("v", "%d-n" % i)
            os.makedirs(v)
            res = kit.run(args, cwd=cwd, env={"V_DIR": v, "V_REAL": real, "PATH": shim + ":" + c.env["PATH"], "V_NONCE": nonce})
            c.evaluations += 1
            left = sorted(set(os.listdir(os.path.dirname(pdir))) - before - {"out", "new", "n1", "out.so"})
            if res.rc != 0:
                errs.append("--goBuild=false failed: %s in %s\n%s" % (args, cwd, res.text()))
            elif os.listdir(v) or os.path.exists(so):
                errs.append("built in spite of --goBuild=false: %s" % args)
            elif len(left) != 1:
                errs.append("--goBuild=false left %s: %s\n%s" % (left, args, res.text()))
            else:
                p = os.path.join(os.path.dirname(pdir), left[0])
                if p not in res.out.split("\n"):
                    errs.append("--goBuild=false does not tell the directory %s: %s\n%s" % (p, args, res.text()))
                seen.append((["--goBuild=false"], None, tree(p, left[0])))
        if not errs:
            for cos, norm, t in seen[1:]:
                if t != seen[0][2]:
                    errs.append("%s and %s do not build the same: %s" % (seen[0][0], cos, diff(seen[0][2], t)[:4]))
                if norm is not None and norm != seen[0][1]:
                    errs.append("%s and %s do not run the same command: %r, %r" % (seen[0][0], cos, seen[0][1], norm))
        shutil.rmtree(c.path("m", "o%d" % i), ignore_errors=True)
        return i, errs, (tuple(flags), ok, name), [x[0] for x in seen], a1, a2

    todo = cases(c, replay, 160, 2400) if not replay or "case" in replay else []
    for x in kit.parallel(one, todo):
        if x is None:
            continue
        i, errs, sig, cos, a1, a2 = x
        sigs.add(digest(sig))
        for y in cos:
            sigs.add(digest(y))
        if len(c.samples) < 6 and i % 19 == 2:
            c.samples.append({"case": i, "plugin": a1, "output": a2, "build flags": list(sig[0]), "options": cos})
        for e in errs[:1]:
            c.violation(e, {"kind": "cli", "case": i})
    if not replay or "real" in replay:
        really(c, kit, sigs, [replay["real"]] if replay else list(range(5 if c.quick() else 40)))
    c.distinct = len(sigs)
    c.rule = ("generated command lines (spelling of paths, working directory, position of options, build flags of any look, environment); the command that go build got, its directory, environment and tree, "
              "the output and what is left are judged, and must be the same whatever the options that must not matter; some plugins are really built with and without hotswap running go build, loaded and asked; "
              "distinct by build flags, kind of output directory, name, and options")


HOST = r'''package main

import (
	"fmt"
	"os"
	"plugin"

	_ "github.com/edwingeng/hotswap/vault"
)

func main() {
	for _, f := range os.Args[1:] {
		p, err := plugin.Open(f)
		if err != nil {
			fmt.Printf("\x01%s\x01%v\n", f, err)
			continue
		}
		s, err := p.Lookup("InvokeFunc")
		if err != nil {
			fmt.Printf("\x01%s\x01%v\n", f, err)
			continue
		}
		x, _ := s.(func(string, ...interface{}) (interface{}, error))("x")
		l, err := p.Lookup("HotswapLiveFuncs")
		if err != nil {
			fmt.Printf("\x01%s\x01%v\n", f, err)
			continue
		}
		fmt.Printf("\x01%s\x01%v %v\n", f, x, len(l.(func() map[string]interface{})()))
	}
}
'''


def really(c, kit, sigs, idx):
    m = kit.module("real")
    write(os.path.join(m, "host", "main.go"), HOST)

    def one(k):
        r = rng(c, "real%d" % k)
        tags = [set(), {"extra"}, {"extra", "more"}, {"more"}][k % 4]
        d = os.path.join(m, "p%d" % k, "foo")
        pre = 'package foo\n\nfunc init() { said = append(said, "%s") }\n\nfunc live_%s() {}\n'
        files = {"root.go": root_source("foo", 'var said []string\n', imports=['"fmt"'], funcs={"InvokeFunc": "func InvokeFunc(name string, params ...interface{}) (interface{}, error) { return fmt.Sprint(said), nil }"})}
        for t in ("extra", "more"):
            files["t_%s.go" % t] = "//go:build %s\n\n" % t + pre % (t, t)
            files["u_%s.go" % t] = "//go:build !%s\n\n" % t + pre % ("no" + t, "no" + t)
        write_tree(d, files)
        flags = []
        if tags:
            v = r.choice([",", " "]).join(sorted(tags))
            flags = r.choice([["-tags=" + v], ["-tags", v], ["--tags=" + v]])
        more = r.choice([[], ["-v"], ["-ldflags=-s -w"], ["-gcflags=-l"], ["-p", "2"]])
        flags = r.choice([flags + more, more + flags])
        cos = r.choice([[], ["-v"], ["--debug"], ["--leaveTemps"]])
        out = os.path.join(m, "out%d" % k)
        res = kit.run(["build"] + cos + [d, out] + (["--"] + flags if flags else []), cwd=m, timeout=600)
        res2 = kit.run(["build", "--goBuild=false", d, out] + (["--"] + flags if flags else []), cwd=m, timeout=600)
        t = os.path.join(m, (res2.out.strip() or "nothing").split("\n")[0])
        by = None
        if res2.rc == 0 and (not os.path.isdir(t) or t == m):
            by = "no directory: " + t
        elif res.rc == 0 and res2.rc == 0:
            b = kit.go(["build", "-trimpath", "-buildmode=plugin", "-o", os.path.join(out, "by.so")] + flags, cwd=t)
            by = b.stdout if b.returncode else ""
        want = "[%s] 2" % " ".join(sorted([x for x in tags]) + []) if False else sorted((t if t in tags else "no" + t) for t in ("extra", "more"))
        return k, flags, cos, res, res2, by, want, out

    rs = kit.parallel(one, idx, 4)
    b = kit.go(["build", "-trimpath", "-o", "host.exe", "./host"], cwd=m)
    if b.returncode != 0:
        raise Broken("the host does not compile: " + b.stdout[-3000:])
    for k, flags, cos, res, res2, by, want, out in rs:
        c.evaluations += 3
        sigs.add(digest(("real", flags, cos)))
        if res.rc != 0 or res2.rc != 0:
            c.violation("a build with nothing wrong failed: %s %s\n%s\n%s" % (cos, flags, res.text(), res2.text()), {"kind": "cli", "real": k})
            continue
        if by:
            c.violation("go build cannot build what --goBuild=false left: " + by[-2000:], {"kind": "cli", "real": k})
            continue
        for f in ("foo.so", "by.so"):
            f = os.path.join(out, f)
            o = c.sh([os.path.join(m, "host.exe"), f], cwd=m, timeout=60)
            x = re.search(r"\x01(.*)\x01\[(.*)\] (\d+)", o.stdout)
            if not x or sorted(x.group(2).split()) != want or x.group(3) != "2":
                c.violation("a plugin built with %s (%s) does not consist of the files for these: %s instead of %s" % (flags, os.path.basename(f), o.stdout[-1500:], want), {"kind": "cli", "real": k})
        c.extra["plugins_really_built"] = c.extra.get("plugins_really_built", 0) + 2
