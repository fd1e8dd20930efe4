"""C11: a plugin builds if and only if go can build its packages, with the same dependencies."""
import os, random, re, shutil
from clikit import *
from clicheck import cases

ASSUME = ["What go can build is what go build says, in the plugin's own directory, of the root package and the packages with live functions, with the same flags and environment.",
          "Packages that do not parse, programs among the packages with live functions, source that uses files which --include does not name, and linkname directives are outside the check; so are alternative go.mod files that name another module, and module paths in back quotes (golang.org/x/mod as pinned does not know them)."]

MOD = """module %s

go 1.21

require (
	github.com/edwingeng/hotswap v0.0.0
%s)

%s
replace github.com/edwingeng/hotswap => /repo
%s"""


def dep(tok, tail=""):
    return "package dep\n\n// Tok says where this comes from.\nfunc Tok() string { return tok }\n\nvar tok = \"DEPTOK(%s)\"\n%s" % (tok, tail)


class Case:
    def __init__(self, c, kit, i):
        self.c, self.kit, self.i = c, kit, i
        self.r = r = rng(c, i)
        self.errs, self.known, self.sig = [], [], []
        self.files, self.env, self.flags, self.opts, self.live = {}, {"GOFLAGS": ""}, [], [], []
        self.name = r.choice(["a", "a", "a", "plug", "a.b", "x-1", "A1", "v2", "n_t"])
        self.pkg = re.sub(r"\W", "_", self.name) if r.random() < 0.6 else r.choice(["a", "plugin", "main2", "dep", "sub"])
        self.spell = None

    # The module around the plugin.

    def module(self):
        r = self.r
        kind = self.kind = r.choice(["plain", "work", "work", "vendor", "vendor", "stale", "modfile", "modfile", "nested", "missing", "path"])
        self.sig.append(kind)
        path = r.choice(["example.com/m", "example.com/m", "example.com/m/v2"]) if kind != "path" else r.choice(["example.com/Big/m.v2/v3", "m", "example.com/~u/m+x", "plugin"])
        root, where = "", "plugin"
        if kind == "nested":
            root, path = "plugin/", "example.com/m/" + r.choice(["plugin", "other", "plugin"])
            self.files["go.mod"] = "module example.com/m\n\ngo 1.21\n"
            self.files["m.go"] = "package m\n\nfunc init() { nothing here compiles }\n"
        else:
            where = r.choice(["plugin", "plugin", "p/q/r", "internal/plugin", "cmd/testdata", "_p", "."])
        self.root, self.path = root, path
        self.dir = os.path.normpath(os.path.join(where, self.name))
        rel = os.path.relpath(self.dir, root or ".")
        self.pp = path + "/" + rel
        up = os.path.relpath(root or ".", self.dir)     # from the plugin to the module root

        def mod(tok, req="\texample.org/dep v0.1.0\n", extra=""):
            old = open(os.path.join(VERIF, "harness", "go.mod")).read()
            ind = "".join("\t%s\n" % x.strip() for x in re.findall(r"(?m)^\s+\S+ v\S+ // indirect$", old))
            ind += "\tgithub.com/edwingeng/slog v0.0.0-20221027170832-482f0dfb6247\n"
            to = os.path.relpath("deps/" + tok, root or ".")
            return MOD % (path, req + ind, extra, "replace example.org/dep => %s\n" % (to if to.startswith(".") else "./" + to) if tok else "")
        for t in ("local", "alt", "work"):
            self.files["deps/%s/go.mod" % t] = "module example.org/dep\n\ngo 1.21\n"
            self.files["deps/%s/dep.go" % t] = dep(t)
        self.files[root + "go.mod"] = mod("local")
        self.files[root + "go.sum"] = self.kit.gosum
        if r.random() < 0.45:
            self.decorate(root + "go.mod")
        f, e = self.flags, self.env

        def give(flag, val):
            """A build flag in one of the ways there are to give one."""
            how = r.randrange(4)
            self.sig.append((flag, how))
            if how == 0:
                f.extend([r.choice(["-", "--"]) + flag, val])
            elif how == 1:
                f.append("%s%s=%s" % (r.choice(["-", "--"]), flag, val))
            elif how == 2:
                e["GOFLAGS"] = (e["GOFLAGS"] + " -%s=%s" % (flag, val)).strip()
            else:
                f.append("-%s=%s" % (flag, val))
        if kind == "work":
            self.files["go.work"] = "go 1.21\n\nuse .\n" + ("use ./deps/work\n" if r.random() < 0.7 else "")
            if r.random() < 0.3:
                e["GOWORK"] = r.choice(["off", "{root}/other.work"])
                self.files["other.work"] = "go 1.21\n\nuse .\n\nreplace example.org/dep => ./deps/alt\n"
            if r.random() < 0.3:
                give("mod", r.choice(["readonly", "mod"]))
        elif kind in ("vendor", "stale"):
            if r.random() < 0.65:
                give("mod", r.choice(["mod", "vendor", "readonly"]))
        elif kind == "modfile":
            self.files["alt.mod"] = mod("alt")
            self.files["alt.sum"] = self.kit.gosum
            if r.random() < 0.5:
                self.files["go.mod"] = r.choice([mod("", ""), "module %s\n\ngo 1.21\n" % path])
            if r.random() < 0.8:
                give("modfile", r.choice(["{root}", up]) + "/alt.mod")
        elif kind == "missing":
            self.files[root + "go.mod"] = mod("local", "")
            if r.random() < 0.7:
                give("mod", r.choice(["mod", "mod", "readonly"]))
        elif r.random() < 0.3:
            give("mod", r.choice(["mod", "readonly", "vendor"]))
        if r.random() < 0.15:
            e["GO111MODULE"] = r.choice(["on", "auto", "", "off"])
        if r.random() < 0.25:
            give("tags", r.choice(["x", "race", "x,y", "mod", "y", "modfile"]))
        if r.random() < 0.1:
            self.files[root + "go.mod"] = self.files[root + "go.mod"].replace("go 1.21", r.choice(["go 1.99", "go 1.17", "go 1.22.1"]))
            self.sig.append("go version")
        if r.random() < 0.2:
            f.extend(r.choice([["-ldflags", "-s"], ["-gcflags", "-N -l"], ["-p", "2"], ["-x"], ["-ldflags=-X=%s.V=1" % self.pp], ["-buildvcs=false"], ["-a=false"], ["-n=false"]]))

    def decorate(self, n):
        """Other things that go.mod files hold."""
        r = self.r
        s = self.files[n]
        for k in r.sample(["toolchain", "godebug", "exclude", "retract", "quoted", "block", "crlf", "comments", "future", "order", "ignore", "bigmod"], r.choice([1, 1, 2, 3])):
            self.sig.append("go.mod " + k)
            if k == "toolchain":
                s = s.replace("go 1.21\n", "go 1.21\n\ntoolchain go%s\n" % r.choice(["1.21.0", "1.24.1", "1.27.3"]), 1)
            elif k == "godebug":
                s += r.choice(["\ngodebug panicnil=1\n", "\ngodebug (\n\tdefault=go1.21\n\tpanicnil=1\n)\n"])
            elif k == "exclude":
                s += "\nexclude example.org/dep v0.0.9\n"
            elif k == "retract":
                s += r.choice(["\nretract v0.0.1 // broken\n", "\nretract [v0.0.1, v0.0.5]\n"])
            elif k == "quoted":
                s = re.sub(r"(?m)^module (\S+)$", 'module "\\1"', s)
            elif k == "block":
                s = re.sub(r"(?m)^replace (example.org/dep .*)$", "replace (\n\t\\1\n)", s)
            elif k == "crlf":
                s = s.replace("\r\n", "\n").replace("\n", "\r\n")
            elif k == "comments":
                s = "// Deprecated: use something else.\n" + re.sub(r"(?m)^module (\S+)$", "module \\1 // the module", s) + "\n// the end"
            elif k == "future":
                s += "\nsomeday nobody/knows what\n"
            elif k == "order":
                m = re.search(r"(?m)^module .*\n", s)
                s = s if not m else s.replace(m.group(0), "", 1) + "\n" + m.group(0)
            elif k == "ignore":
                s += "\nignore ./node_modules\n"
            elif k == "bigmod":
                s += "\n//" + "x" * 70000 + "\n"
        self.files[n] = s

    # The plugin.

    def plugin(self):
        r = self.r
        imps, extra = [], ""
        d = self.dir + "/"
        sub = r.choice(["sub", "internal/sub", "a", "sub/deep", "x.y"])
        live = r.choice(["livep", "internal/l", "z/live"])
        idle = r.choice(["idle", "tools", "idle/x"])
        at = r.choice(["root", "sub", "live", "root", "none"])     # who imports the dependency
        use = {k: ("import \"example.org/dep\"\n\nvar D = dep.Tok()\n\n" if at == k else "") for k in ("sub", "live")}
        self.used = at != "none"
        if at == "root":
            imps.append('xdep "example.org/dep"')
            extra += "var D = xdep.Tok()\n\n"
        imps.append('xsub "%s/%s"' % (self.pp, sub))
        extra += "var N = xsub.N\n\n"
        self.files[d + sub + "/sub.go"] = "package sub\n\n" + use["sub"] + "var N = 1\n"
        has = at == "live" or r.random() < 0.5
        if has:
            self.files[d + live + "/l.go"] = "package l\n\n" + use["live"] + "func Live_One() int { return 1 }\n"
            self.live.append(live)
        if r.random() < 0.5:
            self.files[d + idle + "/i.go"] = "package %s\n\nfunc F() {}\n" % r.choice(["idle", "tools", "main"])
        if r.random() < 0.5:
            self.files[d + "shared.go"] = "package %s\n\nvar shared int\n" % self.pkg
        # What may go wrong, and what may look as if it did.
        spots = {"root": (d, self.pkg), "sub": (d + sub + "/", "sub")}
        if has:
            spots["live"] = (d + live + "/", "l")
        if d + idle + "/i.go" in self.files:
            spots["idle"] = (d + idle + "/", self.files[d + idle + "/i.go"].split()[1])
        for k in range(r.choice([0, 1, 1, 2])):
            spot = r.choice(sorted(spots))
            p, pk = spots[spot]
            n = p + r.choice(["zz%d.go", "zz%d.go", "a%d.go"]) % k
            self.oddity(spot, p, pk, n, k)
        for i in self.more_imports if hasattr(self, "more_imports") else ():
            imps.append(i)
        self.files[d + r.choice(["a.go", "main.go", "plugin.go"])] = root_source(self.pkg, extra, imps)

    def oddity(self, spot, p, pk, n, k):
        r = self.r
        F = self.files
        what = r.choice(["type", "unused", "absent", "absentmod", "internal", "dup", "cycle", "package", "embed", "noembed", "tag", "untag", "test", "xtest", "generic", "cgo", "badcgo", "ignore", "os", "initloop",
                         "newgo", "asm", "plus", "dot", "alias", "nested", "vendordir", "linedir", "bom"])
        self.sig.append((spot, what))
        head = "package %s\n\n" % pk
        if what == "type":
            F[n] = head + "var bad%d int = \"s\"\n" % k
        elif what == "unused":
            F[n] = head + "import \"os\"\n"
        elif what == "absent":
            F[n] = head + "import _ \"%s/nosuch\"\n" % self.pp
        elif what == "absentmod":
            F[n] = head + "import _ \"nowhere.example/x\"\n"
        elif what == "internal":
            F["deps/local/internal/i/i.go"] = "package i\n"
            F[n] = head + "import _ \"example.org/dep/internal/i\"\n"
        elif what == "dup":
            F[n] = head + "func twice%d() {}\n" % k
            F[n.replace(".go", "_2.go")] = head + "func twice%d() {}\n" % k
        elif what == "cycle":
            F[p + "cy1/c.go"] = "package cy1\n\nimport _ \"%s\"\n" % (self.pp + "/" + os.path.relpath(p + "cy2", self.dir))
            F[p + "cy2/c.go"] = "package cy2\n\nimport _ \"%s\"\n" % (self.pp + "/" + os.path.relpath(p + "cy1", self.dir))
            if r.random() < 0.5:
                F[n] = head + "import _ \"%s\"\n" % (self.pp + "/" + os.path.relpath(p + "cy2", self.dir))
        elif what == "package":
            F[n] = "package other\n"
        elif what in ("embed", "noembed"):
            F[n] = head + "import _ \"embed\"\n\n//go:embed zdata%d.txt\nvar emb%d string\n" % (k, k)
            if what == "embed":
                F[p + "zdata%d.txt" % k] = "embedded"
                self.opts = ["--include", r"\.(txt|s)$"]
        elif what == "tag":
            F[n] = "//go:build %s\n\n" % r.choice(["x", "!x", "x && !y", "race", "mod", "never"]) + head + "var bad%d int = \"s\"\n" % k
        elif what == "untag":
            F[n] = "//go:build %s\n\n" % r.choice(["x", "!x", "y", "race"]) + head + "var opt%d int\n" % k
            F[n.replace(".go", "_u.go")] = head + "var u%d = opt%d\n" % (k, k)
        elif what == "test":
            F[n.replace(".go", "_test.go")] = head + "import \"os\"\n\nvar bad int = \"s\"\n"
        elif what == "xtest":
            F[n.replace(".go", "_test.go")] = "package %s_test\n\nimport _ \"nowhere.example/x\"\n" % pk
        elif what == "generic":
            F[n] = head + "func max%d[T int | string](a, b T) T {\n\tif a > b {\n\t\treturn a\n\t}\n\treturn b\n}\n\ntype pair%d[K comparable, V any] struct {\n\tk K\n\tv V\n}\n\nvar _ = max%d(1, 2)\nvar _ pair%d[int, string]\n" % (k, k, k, k)
        elif what in ("cgo", "badcgo"):
            F[n] = head + "// static int f%d(void) { return %s; }\nimport \"C\"\n\nvar c%d = C.f%d()\n" % (k, "1" if what == "cgo" else "nosuch", k, k)
        elif what == "ignore":
            F[n] = "//go:build ignore\n\npackage main\n\nimport \"nowhere.example/x\"\n\nfunc main() { x.F() }\n"
        elif what == "os":
            F[n.replace(".go", r.choice(["_windows.go", "_arm64.go", "_linux.go", "_linux_amd64.go"]))] = head + "var os%d int = \"s\"\n" % k
        elif what == "initloop":
            F[n] = head + "var lo%d = ho%d\nvar ho%d = lo%d\n" % (k, k, k, k)
        elif what == "newgo":
            F[n] = head + "func rng%d() {\n\tfor range 3 {\n\t}\n}\n" % k
            if r.random() < 0.5:
                F[n] = "//go:build go1.22\n\n" + F[n]
        elif what == "asm":
            F[n] = head + "func asm%d() int64\n\nvar A%d = asm%d()\n" % (k, k, k)
            F[p + "asm%d_amd64.s" % k] = "#include \"textflag.h\"\n\nTEXT ·asm%d(SB), NOSPLIT, $0-8\n\tMOVQ $%s, ret+0(FP)\n\tRET\n" % (k, r.choice(["7", "7", "+"]))
            self.opts = ["--include", r"\.(txt|s)$"]
        elif what == "plus":
            F[n] = "// +build x\n\n" + head + "var plus%d int = \"s\"\n" % k
        elif what == "dot":
            F[p + r.choice([".h%d.go", "_h%d.go"]) % k] = head + "var hid int = \"s\"\n"
        elif what == "alias":
            F[n] = head + "import (\n\t. \"strings\"\n\t_ \"os\"\n\tf \"fmt\"\n)\n\nvar s%d = f.Sprint(ToUpper(\"x\"))\n" % k
        elif what == "nested":
            F[p + "other/go.mod"] = "module example.net/other\n\ngo 1.21\n"
            F[p + "other/o.go"] = "package other\n\nimport _ \"nowhere.example/x\"\n\nvar bad int = \"s\"\n"
        elif what == "vendordir":
            F[p + "vendor/q/q.go"] = "package q\n\nvar bad int = \"s\"\n"
        elif what == "linedir":
            F[n] = "//line /nosuch/file.y:10\n" + head + "var line%d = 1\n" % k
        elif what == "bom":
            F[n] = "\ufeff" + head + "var bom%d = 1\n" % k

    def run(self):
        c, kit, r = self.c, self.kit, self.r
        self.module()
        self.plugin()
        a, b = c.path("m", "%d-a" % self.i), c.path("m", "%d-b" % self.i)
        try:
            self.judge(a, b)
        finally:
            shutil.rmtree(a, ignore_errors=True)
            shutil.rmtree(b, ignore_errors=True)
            for x in ("%d-ln" % self.i,):
                if os.path.islink(c.path("m", x)):
                    os.unlink(c.path("m", x))

    def go_env(self, root):
        return {k: v.replace("{root}", root) for k, v in self.env.items()}

    def judge(self, a, b):
        c, kit, r = self.c, self.kit, self.r
        write_tree(a, self.files)
        if self.kind in ("vendor", "stale"):
            x = kit.go(["mod", "vendor", "-e"], a, env={"GOFLAGS": "-mod=mod"})
            if not os.path.exists(a + "/vendor/modules.txt"):
                self.sig.append("nothing vendored")
            if os.path.exists(a + "/vendor/example.org/dep/dep.go"):
                write(a + "/vendor/example.org/dep/dep.go", dep("vendor"))
            if self.kind == "stale" and os.path.exists(a + "/vendor/modules.txt"):
                s = open(a + "/vendor/modules.txt").read()
                write(a + "/vendor/modules.txt", s.replace("example.org/dep v0.1.0", "example.org/dep v0.2.0"))
        kit.git(a)
        shutil.copytree(a, b, symlinks=True)
        before = snapshot(b)
        # What go says of the packages where they are.
        ge = dict(self.go_env(a), GO111MODULE="on", PWD=os.path.join(a, self.dir))
        gf = [x.replace("{root}", a) for x in self.flags]
        pkgs = ["."] + ["./" + x for x in self.live]
        g = kit.go(["build", "-trimpath", "-o", "/dev/null"] + gf + pkgs, os.path.join(a, self.dir), env=ge)
        want = g.returncode == 0
        lf, tok = [], None
        for k, x in enumerate(gf):
            m = re.match(r"--?(mod|modfile|tags)(=|$)", x)
            if m:
                lf += [x] if m.group(2) else [x, gf[k + 1]]
        if want and self.used:
            l = kit.go(["list", "-f", "{{.Dir}}"] + lf + ["example.org/dep"], os.path.join(a, self.dir), env=ge)
            try:
                tok = re.search(r"DEPTOK\((\w+)\)", open(l.stdout.strip().split("\n")[-1] + "/dep.go").read()).group(1)
            except (OSError, AttributeError):
                raise Broken("go list does not find the dependency: " + l.stdout)
        # What the tool does.
        arg, cwd = self.dir, b
        how = r.choice(["rel", "rel", "abs", "in", "inner link", "outer link", "parent link"])
        if how == "abs":
            arg = os.path.join(b, self.dir)
        elif how == "in":
            arg, cwd = ".", os.path.join(b, self.dir)
        elif how == "inner link" and os.path.dirname(self.dir):
            os.symlink(os.path.dirname(self.dir), b + "/zlink")
            arg = "zlink/" + os.path.basename(self.dir)
        elif how == "outer link":
            os.symlink(os.path.dirname(os.path.join(b, self.dir)), c.path("m", "%d-ln" % self.i))
            arg = os.path.join(c.path("m", "%d-ln" % self.i), os.path.basename(self.dir))
        elif how == "parent link":
            os.symlink(b, c.path("m", "%d-ln" % self.i))
            cwd = c.path("m", "%d-ln" % self.i)
        self.sig.append(how)
        out = c.path("m", "%d-b" % self.i, "out")
        os.makedirs(out)
        res = kit.run(["build"] + self.opts + [arg, out, "--"] + [x.replace("{root}", b) for x in self.flags], cwd, env=dict(self.go_env(b), PWD=cwd))
        what = "case %d: %s plugin in %s, options %s, build flags %s, %s" % (self.i, "/".join(map(str, self.sig)), self.dir, self.opts, self.flags, {k: v for k, v in self.env.items() if v})
        so = os.path.join(out, self.name + ".so")
        if want and res.rc != 0 and "-modfile" in self.env["GOFLAGS"] and "build flag -modfile only valid when using modules" in res.err:
            self.known.append("%s: %s" % (what, res.text()))
        elif want and res.rc != 0:
            self.errs.append("%s: go builds the packages of the plugin, but hotswap build fails: %s" % (what, res.text()))
        elif not want and res.rc == 0:
            self.errs.append("%s: go cannot build the packages of the plugin, but hotswap build succeeds. go: %s" % (what, g.stdout[-1500:]))
        elif want:
            data = open(so, "rb").read()
            got = sorted({x.decode() for x in re.findall(rb"DEPTOK\((\w+)\)", data)})
            if self.used and got != [tok]:
                self.errs.append("%s: go takes the dependency from %s, the plugin has %s" % (what, tok, got))
            for s in sorted({x for x in re.findall(rb"%s/[\w./-]*" % re.escape(self.pp).encode(), data)})[:3]:
                self.errs.append("%s: the plugin contains packages of its source directory: %s" % (what, s))
        after = snapshot(b)
        left = [x for x in diff(before, after) if not re.match(r"(out(/.*)?|zlink|(plugin/)?(go|alt)\.(mod|sum)|go\.work\.sum): ", x)]
        if left:
            self.errs.append("%s: changed or left behind: %s" % (what, left[:5]))
        self.sig.append(want)


def run(c, replay):
    kit = Kit(c)
    sigs, yes = set(), 0

    def one(i):
        x = Case(c, kit, i)
        x.run()
        return x
    todo = cases(c, replay, 200, 3000)
    for x in kit.parallel(one, todo, 8):
        sigs.add(digest(x.sig))
        c.evaluations += 1
        yes += x.sig[-1]
        for k in x.sig:
            n = "seen: %s" % ((k if isinstance(k, str) else " ".join(map(str, k))) if not isinstance(k, bool) else "buildable" if k else "not buildable")
            c.extra.setdefault("observed", {}).setdefault(n, 0)
            c.extra["observed"][n] += 1
        if len(c.samples) < 8:
            c.samples.append({"case": x.i, "situation": [str(k) for k in x.sig], "flags": x.flags})
        for e in x.known[:1]:
            c.violation(e, {"kind": "cli", "case": x.i, "finding": "C11-goflags-modfile"})
        for e in x.errs[:1]:
            c.violation(e, {"kind": "cli", "case": x.i})
    c.distinct = len(sigs)
    c.extra["plugins_that_build"] = yes
    c.rule = ("modules, plugins, build flags and environments generated at random; exit status against go build of the original packages, the dependency and the own packages found in the plugin file "
              "against go list; distinct by module kind, flags, oddities of the source and spelling of the path")
