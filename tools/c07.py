"""C07: incomplete plugins are rejected at build time, complete ones are not."""
import itertools, os, re, shutil
from clikit import *
from clicheck import cases

DECOYS = [
    ("method", lambda f: "type T%s struct{}\nfunc (T%s) %s() {}\n" % (f, f, f)),
    ("pointer method", lambda f: "type U%s struct{}\nfunc (*U%s) %s() {}\n" % (f, f, f)),
    ("variable", lambda f: "var %s = func() {}\n" % f),
    ("constant", lambda f: "const %s = 1\n" % f),
    ("type", lambda f: "type %s struct{}\n" % f),
    ("func type", lambda f: "type %s func()\n" % f),
    ("other case", lambda f: "func %s() {}\n" % (f[:-1] + f[-1].upper())),
    ("longer name", lambda f: "func %sX() {}\n" % f),
    ("shorter name", lambda f: "func %s() {}\n" % f[:-1]),
    ("comment", lambda f: "// func %s() {}\n/*\nfunc %s() {}\n*/\n" % (f, f)),
    ("raw string", lambda f: "var s%s = `\nfunc %s() {}\n`\n" % (f, f)),
    ("closure", lambda f: "func outer%s() { %s := func() {}; %s() }\n" % (f, f, f)),
    ("field", lambda f: "type F%s struct{ %s func() }\n" % (f, f)),
    ("interface", lambda f: "type I%s interface{ %s() }\n" % (f, f)),
]
PLACES = ["sub package", "test", "external test", "sub package of the same name", "not Go", "other system", "build tag", "ignored main", "hidden"]


def make(rng, i):
    pkg = rng.choice(["foo", "plug", "bar_baz", "main2"])
    if i < 128:
        missing = {f for k, f in enumerate(REQUIRED) if i >> k & 1}
    else:
        r = rng.random()
        missing = set() if r < 0.4 else set(rng.sample(REQUIRED, 1 if r < 0.75 else rng.randint(2, 7)))
    files = {}
    have = [f for f in REQUIRED if f not in missing]
    rng.shuffle(have)
    nfiles = rng.randint(1, max(1, min(4, len(have))))
    names = rng.sample(["a.go", "main.go", "plugin.go", "z_linux.go", "funcs.go", "Upper.go", "x-y.go", "test.go", "a_test_b.go", "plug.in.go"], nfiles)
    body = {n: [] for n in names}
    tagged = rng.random() < 0.2
    for f in have:
        body[rng.choice(names)].append(f)
    for n in names:
        s = "package %s\n\n" % pkg
        if tagged and n == names[-1]:
            s = "//go:build %s\n\n" % rng.choice(["x", "x && linux", "!y", "cgo", "x || y"]) + s
        if "OnInit" in body[n]:
            s += rng.choice(['import "github.com/edwingeng/hotswap/vault"\n\n', 'import (\n\t"github.com/edwingeng/hotswap/vault"\n)\n\n'])
        for f in body[n]:
            d = FUNCS[f]
            if rng.random() < 0.2:
                d = d.replace("func ", "func /* x */ ", 1)
            if rng.random() < 0.2:
                d = "//go:noinline\n" + d
            s += d + "\n\n"
        files[n] = s
    used = []
    for f in REQUIRED:
        if f not in missing and rng.random() < 0.75:
            continue
        for _ in range(rng.randint(0, 2)):
            kind, mk = rng.choice(DECOYS)
            place = rng.choice(PLACES + ["root"] * 4)
            if place == "root":
                # names of declared things must not clash with the real function
                if f not in missing and kind in ("variable", "constant", "type", "func type"):
                    continue
                if any(k == kind and p == "root" and g == f for k, p, g in used):
                    continue
                if kind in ("variable", "constant", "type", "func type") and any(
                        k in ("variable", "constant", "type", "func type") and p == "root" and g == f for k, p, g in used):
                    continue
                if f == "OnLoad" and kind == "shorter name" or kind == "other case" and rng.random() < 0.3:
                    pass
                files["decoy_%d.go" % len(files)] = "package %s\n\n%s" % (pkg, mk(f))
            elif place == "sub package":
                files["sub%d/a.go" % len(files)] = "package sub\n\nfunc %s() {}\n" % f
            elif place == "sub package of the same name":
                files["%s%d/a.go" % (pkg, len(files))] = "package %s\n\nfunc %s() {}\n" % (pkg, f)
            elif place == "test":
                files["d%d_test.go" % len(files)] = "package %s\n\nfunc %s() {}\n" % (pkg, f if f in missing else "x" + f)
            elif place == "external test":
                files["e%d_test.go" % len(files)] = "package %s_test\n\nfunc %s() {}\n" % (pkg, f)
            elif place == "other system":
                files["o%d_windows.go" % len(files)] = "package %s\n\nfunc %s() {}\n" % (pkg, f)
            elif place == "build tag":
                files["b%d.go" % len(files)] = "//go:build %s\n\npackage %s\n\nfunc %s() {}\n" % (rng.choice(["ignore", "!linux", "x && !x", "never", "darwin || js"]), pkg, f)
            elif place == "ignored main":
                files["main%d.go" % len(files)] = "//go:build ignore\n\npackage main\n\nfunc main() {}\n\nfunc %s() {}\n" % f
            elif place == "hidden":
                files["%sh%d.go" % (rng.choice("_."), len(files))] = "package %s\n\nfunc %s() {}\n" % (pkg, f)
            else:
                files["n%d.go.txt" % len(files)] = "package %s\n\nfunc %s() {}\n" % (pkg, f)
            used.append((kind, place, f))
    return pkg, files, missing, used, tagged


def run(c, replay):
    kit = Kit(c)
    todo = cases(c, replay, 420, 6000)
    mod = kit.module("c07")
    sigs = set()
    failed = []
    refused = []

    def one(i):
        r = rng(c, i)
        pkg, files, missing, used, tagged = make(r, i)
        d = os.path.join(mod, "p%d" % i, r.choice(["foo", "plug", "Foo-bar"]))
        write_tree(d, files)
        static = r.random() < 0.15
        out = os.path.join(mod, "p%d" % i, "out")
        os.makedirs(out)
        args = ["build"] + (["--staticLinking"] if static else ["--goBuild=false"]) + [d, out] + (r.choice([["--", "-tags=x"], ["--", "-tags", "z,x"], ["--", "-race", "--tags=x"]]) if tagged else [])
        # Only two values of this variable switch the check off, and they do so on purpose.
        env = {"hotswap:checkRequiredPluginFuncs": r.choice(["", "true", "1", "no", "False!", "00", "2", "on"])} if r.random() < 0.2 else None
        res = kit.run(args, cwd=mod, env=env)
        shutil.rmtree(os.path.join(mod, "p%d" % i), ignore_errors=True)
        if res.rc == "timeout":
            raise Broken("the CLI did not end: " + str(args))
        text = res.out + res.err
        named = {f for f in REQUIRED if re.search(r"\b%s\b" % f, res.err)}
        msg = None
        if missing:
            if res.rc == 0:
                msg = "accepted without %s" % sorted(missing)
            elif not missing <= named:
                msg = "the message does not name %s" % sorted(missing - named)
            elif named - missing:
                msg = "the message names %s, which are there" % sorted(named - missing)
        elif res.rc != 0 and named:
            msg = "refused although complete"
        elif res.rc != 0:
            failed.append("a complete plugin could not be processed: %s\n%s\n%s" % (args, files, res.text()))
        return i, msg, (sorted(missing), sorted(set((k, p) for k, p, _ in used)), len(files), static), files, res

    for i, msg, sig, files, res in kit.parallel(one, todo):
        c.evaluations += 1
        if sig[0] and not msg:
            refused.append(i)
        sigs.add(digest(sig))
        if len(c.samples) < 8 and i % 37 == 5:
            c.samples.append({"case": i, "missing": sig[0], "decoys": sig[1], "files": sorted(files), "exit": res.rc})
        if msg:
            c.violation("%s (missing %s, decoys %s)\n%s\n%s" % (msg, sig[0], sig[1], files, res.text()), {"kind": "cli", "case": i, "files": files})
    c.distinct = len(sigs)
    c.rule = ("every subset of the seven functions, then random ones, spread over files, with decoys (methods, variables, types, other packages, tests, "
              "comments) for missing and present ones; distinct by missing set, decoy kinds and places, file count and mode")
    c.extra["refused_as_incomplete"] = len(refused)
    c.extra["failed_for_another_reason"] = len(failed)
    c.notes += failed[:2]
    if failed and len(failed) > len(todo) // 10:
        raise Broken(failed[0])
