"""C08: unusable input is refused promptly and without side effects."""
import os, shutil
from clikit import *
from clicheck import cases

CPU, MEM = 40, 12 << 30


def base(kit, name):
    """A usable module with two plugins and generated static code of one of them."""
    m = kit.module(name)
    write_tree(m, {
        "plugin/foo/foo.go": root_source("foo", "func live_X() {}\n", ['_ "example.com/m/plugin/foo/sub"']),
        "plugin/foo/sub/s.go": "package sub\n\nfunc F() {}\n\ntype Live_T struct{ N int }\n",
        "plugin/foo/data.txt": "data",
        "plugin/bar/bar.go": root_source("bar"),
        "plugin/.keep": "",
        "file.txt": "not a directory",
        "bin/old.so": "old",
    })
    return m


def scenarios():
    """name, preparation (module, rng) -> (arguments, may create). Everything else is right."""
    S = []

    def add(name, fn):
        S.append((name, fn))

    foo = "plugin/foo"
    add("no arguments", lambda m, r: (["build"], None))
    add("one argument", lambda m, r: (["build", foo], None))
    add("three arguments", lambda m, r: (["build", foo, "bin", "more"], None))
    add("four arguments", lambda m, r: (["build", foo, "bin", "more", "still more"], None))
    add("static, one argument", lambda m, r: (["build", "--staticLinking", foo], None))
    add("unknown flag", lambda m, r: (["build", "--nonsense", foo, "bin"], None))
    add("bad flag value", lambda m, r: (["build", "--goBuild=perhaps", foo, "bin"], None))
    add("plugin directory is missing", lambda m, r: (["build", r.choice(["plugin/absent", "absent/x/y", m + "/no"]), "bin"], None))
    add("plugin directory is missing, output, too", lambda m, r: (["build", "plugin/absent", "newbin"], "newbin"))
    add("plugin directory is a file", lambda m, r: (["build", r.choice(["file.txt", "plugin/foo/foo.go"]), "bin"], None))
    add("plugin directory is below a file", lambda m, r: (["build", "file.txt/x", "bin"], None))
    add("plugin directory is empty", lambda m, r: (["build", r.choice(["", " ", "\t"]), "bin"], None))
    add("static, plugin directory is missing", lambda m, r: (["build", "--staticLinking", "plugin/absent", "plugin"], None))
    add("static, plugin directory is a file", lambda m, r: (["build", "--staticLinking", "file.txt", "plugin"], None))
    add("output is a file", lambda m, r: (["build", foo, "file.txt"], None))
    add("output is below a file", lambda m, r: (["build", foo, "file.txt/out"], None))
    add("output is empty", lambda m, r: (["build", foo, r.choice(["", "  "])], None))
    add("static, output is missing", lambda m, r: (["build", "--staticLinking", foo, "absent"], None))
    add("static, output is a file", lambda m, r: (["build", "--staticLinking", foo, "file.txt"], None))
    add("static, output is empty", lambda m, r: (["build", "--staticLinking", foo, ""], None))
    add("static, output is the plugin", lambda m, r: (["build", "--staticLinking", foo, r.choice([foo, "plugin/foo/", "./plugin/foo", "plugin/bar/../foo", m + "/plugin/foo"])], None))

    def inside(m, r):
        n = r.choice(["sub", "sub/deep", "..out", "...", "..", "x/..y", "hotswapbureau", "foo"])
        if n == "..":
            n = "sub/../sub"
        d = os.path.normpath(os.path.join(m, foo, n))
        os.makedirs(d, exist_ok=True)
        return ["build", "--staticLinking", foo, r.choice([foo + "/" + n, d, "./" + foo + "/" + n])], None

    def inside_link(m, r):
        """The same by way of symbolic links."""
        n = r.choice(["sub", "sub/deep", "gen"])
        d = os.path.join(m, foo, n)
        os.makedirs(d, exist_ok=True)
        k = r.randrange(4)
        if k == 0:
            os.symlink(r.choice([d, foo + "/" + n]), m + "/link")
            out = "link"
        elif k == 1:
            os.symlink("plugin", m + "/plugs")
            out = "plugs/foo/" + n
        elif k == 2:
            os.symlink(m, m + "/again")
            out = "again/" + foo + "/" + n
        else:
            os.symlink("foo", m + "/plugin/alias")
            out = "plugin/alias/" + n
        return ["build", "--staticLinking"] + r.choice([[], ["--clean"]]) + [r.choice([foo, m + "/" + foo]), r.choice([out, m + "/" + out])], None
    add("static, output inside the plugin by way of a link", inside_link)
    add("static, output inside the plugin by way of a link", inside_link)
    for _ in range(4):
        add("static, output inside the plugin", inside)

    def inside_clean(m, r):
        a, b = inside(m, r)
        return a + ["--clean"], b
    add("static, clean, output inside the plugin", inside_clean)
    add("clean without static linking", lambda m, r: (["build", "--clean", foo, r.choice(["bin", "plugin"])], None))
    add("clean, explicitly without static linking", lambda m, r: (["build", "--clean", "--staticLinking=false", foo, "plugin"], None))
    for flag in ("--include", "--exclude"):
        add("bad %s" % flag, lambda m, r, flag=flag: (["build", flag, r.choice(["(", "[a-", "a**", "\\", "(?P<x", "*"]), foo, "bin"], None))
        add("bad %s, other one fine" % flag, lambda m, r, flag=flag: (
            ["build", "--include", "(" if flag == "--include" else ".*", "--exclude", "[" if flag == "--exclude" else ".*", foo, "bin"], None))
        add("bad %s without go build" % flag, lambda m, r, flag=flag: (["build", "--goBuild=false", flag, "(", foo, "bin"], None))
    add("empty prefix", lambda m, r: (["build", "--livePrefix", r.choice(["", " ", "\t \n"]), foo, "bin"], None))
    add("static, empty prefix", lambda m, r: (["build", "--staticLinking", "--livePrefix=", foo, "plugin"], None))

    def nomod(m, r):
        os.remove(m + "/go.mod")
        if r.random() < 0.5:
            os.makedirs(m + "/newmod")
            shutil.copy(m + "/go.sum", m + "/newmod/go.mod.bak")
        return ["build"] + r.choice([[], ["--goBuild=false"]]) + [foo, "bin"], None
    add("no go.mod", nomod)

    def nomod_static(m, r):
        os.remove(m + "/go.mod")
        return ["build", "--staticLinking"] + r.choice([[], ["--clean"]]) + [foo, "plugin"], None
    add("static, no go.mod", nomod_static)

    def nomod_deep(m, r):
        os.remove(m + "/go.mod")
        d = foo + "/a/b/c/d/e/f"
        write(os.path.join(m, d, "x.go"), root_source("x"))
        return ["build", d, "bin"], None
    add("no go.mod, deep", nomod_deep)

    def badmod(m, r):
        write(m + "/go.mod", r.choice(["", "\n\n", "module\n", "nonsense here\n", "module example.com/m extra words\n", "go 1.21\n", "module \"\"\n",
                                       "// only a comment\n", "{\"module\": 1}\n", "module (\n", "\x00\x01\x02"]))
        return ["build"] + r.choice([[], ["--staticLinking"], ["--goBuild=false"]]) + [foo, "plugin"], None
    for _ in range(4):
        add("invalid go.mod", badmod)

    def nested(m, r):
        write(os.path.join(m, r.choice(["plugin", foo]), "go.mod"), r.choice(["", "go 1.21\n", "// nothing\n", "nonsense here\n", "require example.com/x v1.0.0\n"]))
        return ["build"] + r.choice([[], ["--staticLinking"], ["--goBuild=false"]]) + [foo, "bin"], None
    add("invalid go.mod below a valid one", nested)
    add("invalid go.mod below a valid one", nested)

    def moddir(m, r):
        os.remove(m + "/go.mod")
        os.makedirs(m + "/go.mod")
        return ["build", foo, "bin"], None
    add("go.mod is a directory", moddir)

    BAD = ["package foo\n\nfunc Broken( {\n", "package foo\n\nvar x = \n", "package foo\n\nimport (\n\nfunc f() {}\n", "pckage foo\n", "package foo\n\n}\n",
           "package foo\n\nvar s = `unterminated\n", "package foo\n\n/* unterminated\n", "package foo\n\nvar s = \"x\n\n", "", "package\n", "<html>", "package foo\n\nfunc () {\n\x00}\n"]

    def badroot(m, r, flags):
        write(os.path.join(m, foo, r.choice(["a.go", "zz.go", "foo2.go"])), r.choice(BAD))
        return ["build"] + flags + [foo, "plugin"], None
    for _ in range(4):
        add("root package does not parse", lambda m, r: badroot(m, r, []))
        add("static, root package does not parse", lambda m, r: badroot(m, r, ["--staticLinking"]))
    add("root package does not parse, no go build", lambda m, r: badroot(m, r, ["--goBuild=false"]))
    add("root package does not parse, clean build", lambda m, r: badroot(m, r, r.choice([["-v"], ["--debug"]])))

    def badsub(m, r, flags):
        b = r.choice([x for x in BAD if x]).replace("package foo", "package sub")
        write(os.path.join(m, foo, r.choice(["sub/a.go", "sub/zz.go", "sub/b/c/x.go", "other/y.go"])), b)
        return ["build"] + flags + [foo, "plugin"], None
    for _ in range(4):
        add("static, sub package does not parse", lambda m, r: badsub(m, r, ["--staticLinking"]))
    for _ in range(3):
        # Only what is imported has to be compiled, so the bad file goes into a package in use.
        def usedsub(m, r):
            b = r.choice([x for x in BAD if x]).replace("package foo", "package sub")
            write(os.path.join(m, foo, "sub", r.choice(["a.go", "zz.go"])), b)
            return ["build", foo, r.choice(["bin", "plugin"])], None
        add("sub package does not parse", usedsub)

    def nogit(m, r):
        shutil.rmtree(m + "/.git")
        return ["build"] + r.choice([[], ["--staticLinking"]]) + [foo, "plugin"], None
    add("not under git", nogit)

    def twopkgs(m, r):
        write(os.path.join(m, foo, "other.go"), "package other\n")
        return ["build"] + r.choice([[], ["--staticLinking"]]) + [foo, "plugin"], None
    add("two packages in one directory", twopkgs)

    def empty(m, r):
        os.makedirs(m + "/plugin/void")
        return ["build"] + r.choice([[], ["-v"]]) + ["plugin/void", "bin"], None
    add("no source at all", empty)
    return S


def run(c, replay):
    kit = Kit(c)
    S = scenarios()
    todo = cases(c, replay, 3 * len(S), 40 * len(S))
    sigs = set()
    for p in (c.scratch, os.path.dirname(c.scratch)):
        d = p
        while d != "/":
            if os.path.exists(d + "/go.mod"):
                raise Broken("there is a go.mod in " + d)
            d = os.path.dirname(d)

    def one(i):
        r = rng(c, i)
        name, prep = S[i % len(S)]
        m = base(kit, "s%d" % i)
        pre = None
        if i // len(S) % 3 == 2 and "go.mod" not in name and "git" not in name:
            # static code of an earlier run is there
            pre = kit.run(["build", "--staticLinking", "plugin/foo", "plugin"], cwd=m)
            if pre.rc != 0:
                pre = pre.text()
            else:
                pre = None
        args, may = prep(m, r)
        if pre:
            args = args
        extra = []
        if r.random() < 0.25:
            extra = [r.choice(["-v", "--debug", "--leaveTemps"])]
            if extra[0] == "--leaveTemps" and ("parse" in name and "root" not in name):
                extra = []
        args = args + extra
        newout = False
        if "--staticLinking" not in args and args[-1:] == ["bin"] and not extra and r.random() < 0.4:
            args[-1], may, newout = "out/new", "out/new", True
        before = snapshot(m)
        above = set(os.listdir(os.path.dirname(m)))
        res = kit.run(args, cwd=m, timeout=240, cpu=CPU, mem=MEM)
        after = snapshot(m)
        msg = None
        changed = diff(before, after)
        if may:
            parts = {os.path.join(*may.split("/")[:k + 1]) for k in range(len(may.split("/")))}
            changed = [x for x in changed if not (x.split(":")[0] in parts and "absent -> dir" in x)]
        if res.rc == "timeout" or isinstance(res.rc, int) and res.rc in (-9, -24) or "out of memory" in res.err[:4000] or "cannot allocate" in res.err:
            msg = "does not come to an end"
        elif res.rc == 0:
            msg = "accepted"
        elif isinstance(res.rc, int) and res.rc < 0 or res.crashed() and "--debug" not in args:
            msg = "crashed"
        elif not res.err.strip() and not res.out.strip():
            msg = "refused without a message"
        elif changed:
            msg = "left changes behind: " + "; ".join(changed[:8])
        shutil.rmtree(m, ignore_errors=True)
        return i, name, args, msg, res, newout, pre

    for i, name, args, msg, res, newout, pre in kit.parallel(one, todo):
        if pre:
            c.notes.append("no static code to begin with: " + pre[:300])
        c.evaluations += 1
        flags = [a for a in args if a.startswith("-")]
        sigs.add(digest((name, tuple(flags), newout, res.err[:60].replace(c.scratch, ""))))
        if len(c.samples) < 8 and i % 11 == 3:
            c.samples.append({"case": i, "scenario": name, "args": [a.replace(c.scratch, "$S") for a in args], "exit": res.rc,
                              "message": res.err[:200].replace(c.scratch, "$S")})
        if msg:
            c.violation("%s: %s\narguments: %s\n%s" % (name, msg, args, res.text()), {"kind": "cli", "case": i})
    c.distinct = len(sigs)
    c.rule = ("each kind of unusable argument or environment with generated details and harmless options, with and without static code of an earlier run; "
              "limits of %d s CPU and %d GB stand for 'promptly'; distinct by kind, options and message" % (CPU, MEM >> 30))
    c.extra["kinds"] = len({n for n, _ in S})
