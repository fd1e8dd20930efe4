"""C01: building a plugin preserves its source."""
import json, os, re, shutil
from clikit import *
from clicheck import cases

MODPATHS = ["example.com/m", "m", "example.com/M-x/v2", "github.com/Some/repo.v1", "x.y/z"]
PLUGDIRS = ["plugin/foo", "foo", "a/b/c/foo", "plugin/foo-bar", "plugin/Foo", "plugin/foo.v2", "plugin/main", "internal/plug", "plugin/hotswap", "x/x"]


FILENAMES = ["f%d.go", "f%d.go", "f%d.go", "main%d.go", "x%d_cgo.go", "plugin.%d.go", "f%d_linux.go", "f%d_amd64.go", "f%d_gen.go", "f%d.pb.go", "Upper%d.go", "hotswap.f%d.go", "test%d.go", "f-%d.go", "f%d_test_.go"]


class Gen:
    """One plugin source tree that compiles and can say what it is made of."""

    def __init__(self, r, modpath, plugdir, tag=""):
        self.r, self.plugdir = r, plugdir
        self.path = modpath + "/" + plugdir
        self.modpath = modpath
        self.pkg = re.sub(r"[^a-z0-9_]", "", os.path.basename(plugdir).lower()) or "p"
        if self.pkg == "main":
            self.pkg = "plugmain"
        self.files = {}      # below the module root
        self.names = {}
        self.kinds = set()
        base = os.path.basename(plugdir)
        subs = r.sample(sorted({"sub", "sub/deep", base, base + "2", "internal/in", "z", "sub2", "main", "a/b/c", "a/b/c/d/e", "hotswapx"}), r.randint(1, 6))
        # imports go from earlier to later packages
        self.subs = subs
        self.outside = r.sample([plugdir + "2", plugdir + "x/sub", "shared", os.path.join(os.path.dirname(plugdir), "f"), "foo/shared"], r.randint(0, 3))
        self.outside = [o for o in self.outside if not (o + "/").startswith(plugdir + "/")]
        for o in self.outside:
            self.files[o + "/o.go"] = 'package %s\n\nfunc Say() string { return "outside %s" }\n' % (self.name(o), o)
        for i, s in enumerate(subs):
            self.package(s, subs[i + 1:])
        if r.random() < 0.3:
            # a program of its own that does not take part in the compilation
            self.files["%s/%s" % (plugdir, os.path.join(r.choice([""] + subs), "zgen.go"))] = '//go:build ignore\n\npackage main\n\nimport "%s/%s"\n\nfunc main() {}\n' % (self.path, subs[0])
            self.kinds.add("ignored program")
        self.package("", subs)

    def name(self, d):
        n = re.sub(r"[^a-z0-9_]", "", os.path.basename(d).lower())
        return "pkg" + n if n in ("main", "") else n

    def strings(self):
        r = self.r
        P = self.path
        opts = [
            ("plain string", '"%s"' % P), ("sub path string", '"%s/sub"' % P), ("raw string", "`%s`" % P), ("raw sub path string", "`%s/sub`" % P),
            ("quotes in a string", '"\\"%s\\""' % P), ("quotes in a raw string", '`"%s" and "%s/sub"`' % (P, P)), ("raw import", '`\nimport "%s"\nimport (\n\t"%s/sub"\n)\n`' % (P, P)),
            ("raw package clause", "`\npackage foo\npackage  bar\n`"), ("raw package clause at the start", "`package foo\n`"), ("package clause string", '"package foo"'),
            ("concatenation", '"%s" + "/sub"' % P), ("prefix string", '"%s2"' % P), ("other string", '"nothing special"'), ("url", '"https://%s/sub"' % P),
            ("tag", "`json:\"%s\" yaml:\"%s/sub\"`" % (P, P)), ("escapes", '"\\u0022%s\\x22"' % P), ("module path", '"%s"' % self.modpath),
            ("raw file", "`// x\npackage %s\n\nimport _ \"%s/z\"\n`" % (self.pkg, P)), ("crlf string", '"a\\r\\npackage foo\\r\\n"'),
        ]
        k = r.sample(opts, r.randint(1, 4))
        self.kinds.update(x for x, _ in k)
        return [v for _, v in k]

    def header(self):
        r = self.r
        opts = [("", ""), ("license", "// Copyright\n// package foo\n\n"), ("block comment", "/*\npackage foo does\n\npackage bar\nimport \"%s\"\n*/\n" % self.path),
                ("build tag", "//go:build linux\n// +build linux\n\n"), ("build tag and licence", "// x\n\n//go:build linux && !windows\n\n"),
                ("doc", "// Package foo is\n// package foo\n"), ("leading blank", "\n\n\n"), ("comment before", "/* c */ "), ("bom", "\ufeff")]
        k = r.choice(opts)
        self.kinds.add("header:" + k[0])
        return k[1]

    def clause(self, pkg):
        r = self.r
        opts = [("plain", "package %s\n"), ("trailing comment", "package %s // package foo\n"), ("comment at once", "package %s//foo\n"), ("semicolon", "package %s;\n"), ("spaces", "package   %s\n"),
                ("tab", "package\t%s\n"), ("comment inside", "package /* foo */ %s\n"), ("newline", "package\n%s\n"), ("block after", "package %s /* a\npackage b\n*/\n")]
        k = r.choice(opts)
        self.kinds.add("clause:" + k[0])
        return k[1] % pkg

    def package(self, d, below):
        r = self.r
        pkg = self.name(d) if d else self.pkg
        nfiles = r.randint(1, 3) if d else r.randint(2, 4)
        says = []
        uid = re.sub(r"\W", "_", d) or "root"
        initlog = []
        for fi in range(nfiles):
            imps = []       # (spec text, reference)
            extra = []
            used = r.sample(below, min(len(below), r.randint(0, 3)))
            if fi == 0 and not d:
                used = list(below)
            for s in used:
                full = self.path + "/" + s
                alias = "q%d_%s" % (fi, re.sub(r"\W", "_", s))
                q = r.choice(['"%s"', '"%s"', "`%s`"]) % full
                k = r.random()
                if k < 0.55:
                    imps.append("%s %s" % (alias, q))
                    says.append((fi, "%s.Say_%s()" % (alias, re.sub(r"\W", "_", s))))
                elif k < 0.65 and not any(x.startswith(". ") for x in imps):
                    imps.append(". " + q)
                    extra.append("var _ = Exported_%s" % re.sub(r"\W", "_", s))
                    self.kinds.add("dot import")
                elif k < 0.8:
                    imps.append("_ " + q)
                    self.kinds.add("blank import")
                else:
                    imps.append("%s %s" % (alias, q))
                    extra.append("var x_%s = %s.Exported_%s" % (alias, alias, re.sub(r"\W", "_", s)))
            for o in self.outside:
                if r.random() < 0.3:
                    alias = "o%d_%s" % (fi, re.sub(r"\W", "_", o))
                    imps.append('%s "%s/%s"' % (alias, self.modpath, o))
                    says.append((fi, alias + ".Say()"))
                    self.kinds.add("outside import")
            lits = self.strings()
            body = []
            for li, l in enumerate(lits):
                body.append("var s_%s_%d_%d = %s" % (uid, fi, li, l))
                says.append((fi, "s_%s_%d_%d" % (uid, fi, li)))
            if r.random() < 0.3:
                imps.append('"runtime"')
                body.append("func line_%s_%d() string {\n\t_, f, l, _ := runtime.Caller(0)\n\tfor i := len(f) - 1; i >= 0; i-- {\n\t\tif f[i] == '/' {\n\t\t\tf = f[i+1:]\n\t\t\tbreak\n\t\t}\n\t}\n\treturn f + \":\" + string(rune('0'+l/100%%10)) + string(rune('0'+l/10%%10)) + string(rune('0'+l%%10))\n}" % (uid, fi))
                says.append((fi, "line_%s_%d()" % (uid, fi)))
                self.kinds.add("line numbers")
                if r.random() < 0.4:
                    body.insert(0, "//line other_%s.go:%d\nvar ln_%s_%d int" % (uid, r.randint(1, 800), uid, fi))
                    self.kinds.add("line directive")
            if r.random() < 0.3:
                imps.append('"reflect"')
                tag = r.choice(["`json:\"%s\"`" % self.path, "`x:\"package foo\" y:\"%s/sub\"`" % self.path, '"k:\\"%s\\""' % self.path])
                body.append("type t_%s_%d struct{ A int %s }\n\nfunc tag_%s_%d() string { return string(reflect.TypeOf(t_%s_%d{}).Field(0).Tag) }" % (uid, fi, tag, uid, fi, uid, fi))
                says.append((fi, "tag_%s_%d()" % (uid, fi)))
                self.kinds.add("struct tag")
            if r.random() < 0.25:
                imps.append('_ "embed"')
                self.files["%s/%s" % (self.plugdir, os.path.join(d, "data_%d.txt" % fi))] = 'package foo\n"%s"\n%s\n' % (self.path, uid)
                body.append("//go:embed data_%d.txt\nvar e_%s_%d string" % (fi, uid, fi))
                says.append((fi, "e_%s_%d" % (uid, fi)))
                self.kinds.add("embed")
            if r.random() < 0.3:
                body.append(r.choice(["//go:noinline", "//go:nosplit", "//go:norace", "//go:linkname n_%s_%d" % (uid, fi)]) + "\n//go:generate echo \"%s\"\n// package foo\nfunc n_%s_%d() int { return %d }" % (self.path, uid, fi, fi))
                self.kinds.add("directives")
                if "linkname" in body[-1]:
                    imps.append('_ "unsafe"')
            if d and r.random() < 0.04:
                imps.append("C")
                body.append("func c_%s_%d() string { return C.GoString(C.v_say()) }" % (uid, fi))
                says.append((fi, "c_%s_%d()" % (uid, fi)))
                self.kinds.add("cgo")
            if r.random() < 0.2:
                body.append("/*\npackage foo\nimport \"%s/sub\"\n*/" % self.path)
            if r.random() < 0.3:
                body.append("func init() { Log_%s = append(Log_%s, \"init %s %d\") }" % (uid, uid, uid, fi))
                self.kinds.add("init")
            body += extra
            if not d and fi == nfiles - 1:
                imps.append('"github.com/edwingeng/hotswap/vault"')
                body += [FUNCS[k] for k in REQUIRED if k != "InvokeFunc"]
                body.append('func InvokeFunc(name string, params ...interface{}) (interface{}, error) { return Say_root(), nil }')
            if fi == 0:
                body.append("var Log_%s []string" % uid)
                body.append("const Exported_%s = %d" % (re.sub(r"\W", "_", d) or "root", fi))
            # the text of the file
            t = self.header() + self.clause(pkg)
            style = r.choice(["group", "single", "mixed", "oneline", "commented"])
            self.kinds.add("imports:" + style)
            r.shuffle(imps)
            if "C" in imps:
                imps.remove("C")
                t = t.lstrip("\ufeff")
                t += '\n// #define V_PATH "%s/sub"\n// static const char *v_say(void) { return V_PATH; }\nimport "C"\n' % self.path
            if len(imps) > 1 and r.random() < 0.08:
                j = r.randint(0, len(imps) - 1)
                t += "\nimport %s\n\n/*\n%s*/\n" % (imps.pop(j), ("// import \"%s\" and a lot of text\n" % self.path) * 120)
                self.kinds.add("long comment among the imports")
            if imps:
                if style == "group":
                    t += "\nimport (\n" + "".join("\t%s\n" % x for x in imps) + ")\n"
                elif style == "single":
                    t += "\n" + "".join("import %s\n" % x for x in imps)
                elif style == "mixed":
                    t += "\nimport %s\nimport (\n%s)\n" % (imps[0], "".join("\t%s\n" % x for x in imps[1:]))
                elif style == "oneline":
                    t += "import " + "; import ".join(imps) + "\n"
                else:
                    t += "\nimport (\n\t// \"%s\"\n" % self.path + "".join("\t%s // \"%s/sub\" package foo\n" % (x, self.path) for x in imps) + "\t/*\n\tpackage x\n\t*/\n)\n"
            t += "\n" + "\n\n".join(body) + "\n"
            if r.random() < 0.12 and "`" not in t and "//line" not in t and '"C"' not in t:
                t = t.replace("\n", "\r\n")
                self.kinds.add("crlf")
            self.put(d, fi, t)
            self.last = (d, fi)
        # Say lives in a file of its own and calls what each file can say through functions there
        for fi in range(nfiles):
            mine = [e for f, e in says if f == fi]
            fn = "say_%s_%d" % (uid, fi)
            self.files[self.fname(d, fi)] += "\nfunc %s() []string {\n\treturn []string{%s}\n}\n" % (fn, ", ".join(mine))
        s = "package %s\n\n// Say_%s tells what this package is made of.\nfunc Say_%s() string {\n\tvar a []string\n" % (pkg, uid, uid)
        s += "".join("\ta = append(a, say_%s_%d()...)\n" % (uid, fi) for fi in range(nfiles))
        s += "\ta = append(a, Log_" + uid + "...)\n\tres := \"%s{\"\n\tfor _, x := range a {\n\t\tres += \"[\" + x + \"]\"\n\t}\n\treturn res + \"}\"\n}\n" % uid
        self.files["%s/%s" % (self.plugdir, os.path.join(d, "zsay.go"))] = s

    def fname(self, d, fi):
        k = (d, fi)
        if k not in self.names:
            self.names[k] = self.r.choice(FILENAMES) % fi
        return "%s/%s" % (self.plugdir, os.path.join(d, self.names[k]))

    def put(self, d, fi, t):
        self.files[self.fname(d, fi)] = t


ASSUME = ["File and line positions of the code are compared through the text and through runtime.Caller; package paths reported by reflection differ by design."]


def run(c, replay):
    kit = Kit(c)
    sigs = set()
    e2e = replay.get("e2e") if replay else None
    todo = cases(c, replay, 200, 2500) if not e2e else []
    c.sh(["go", "build", "-o", c.path("bin", "srccmp"), "./srccmp"], cwd=copy_harness(c), what="building srccmp")

    def one(i):
        r = rng(c, i)
        mp, pd = r.choice(MODPATHS), r.choice(PLUGDIRS)
        g = Gen(r, mp, pd)
        m = kit.module("t%d" % i, mp)
        write_tree(m, g.files)
        d = os.path.join(m, pd)
        before = set(os.listdir(os.path.dirname(d)))
        src0 = snapshot(d)
        res = kit.run(["build", "--goBuild=false", "--include", r"\.txt$", d, os.path.join(m, "out")], cwd=m)
        if res.rc != 0:
            return i, g, None, "the build failed", res, m
        fresh = sorted(set(os.listdir(os.path.dirname(d))) - before - {"out"})
        if len(fresh) != 1:
            raise Broken("no build tree: " + res.text())
        t = os.path.join(os.path.dirname(d), fresh[0])
        parent = os.path.dirname(g.path)
        jobs = []
        for f in sorted(g.files):
            if (f + "/").startswith(pd + "/") and f.endswith(".go"):
                rel = os.path.relpath(f, pd)
                jobs.append({"Src": os.path.join(m, f), "Dst": os.path.join(t, rel), "Root": "/" not in rel, "Old": g.path,
                             "New": (parent + "/" if parent else "") + fresh[0]})
        msg = None
        if snapshot(d) != src0:
            msg = "the source tree itself changed"
        return i, g, jobs, msg, res, m

    results = kit.parallel(one, todo)
    jobs = [j for x in results for j in (x[2] or [])]
    import subprocess
    p = subprocess.run([c.path("bin", "srccmp")], input="".join(json.dumps(j) + "\n" for j in jobs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise Broken("srccmp: " + p.stderr[-2000:])
    answers = iter(p.stdout.split("\n"))
    nfiles = 0
    for i, g, js, msg, res, m in results:
        if js is None:
            # Whether a build that fails was right to do so is for the compiler to say.
            c.violation("a plugin that compiles could not be built: %s\n%s" % (msg, res.text()), {"kind": "cli", "case": i, "files": g.files})
            continue
        if msg:
            c.violation(msg, {"kind": "cli", "case": i})
        for j in js:
            c.evaluations += 1
            nfiles += 1
            a = json.loads(next(answers))
            if a:
                c.violation("%s in %s: %s" % (os.path.relpath(j["Src"], m), g.path, a),
                            {"kind": "cli", "case": i, "source": open(j["Src"], errors="replace").read(), "built": open(j["Dst"], errors="replace").read() if os.path.exists(j["Dst"]) else None})
        sigs.add(digest((g.path, sorted(g.kinds))))
        if len(c.samples) < 5 and i % 29 == 3:
            c.samples.append({"case": i, "package": g.path, "files": len(js), "features": sorted(g.kinds)})
    c.extra["files_compared"] = nfiles
    if not replay or e2e:
        behave(c, kit, sigs, [e2e["case"]] if e2e else range(8 if c.quick() else 64))
    c.distinct = len(sigs)
    c.rule = ("generated source trees full of literals, comments and directives that resemble package clauses and import paths; every source file is compared with its built copy "
              "token by token, and some plugins are built and run beside the same packages compiled normally; distinct by package path and features of the tree")


def copy_harness(c):
    h = c.path("harness")
    if not os.path.isdir(h):
        shutil.copytree(os.path.join(VERIF, "harness"), h)
    return h


def behave(c, kit, sigs, idx):
    """Builds plugins and compares what they say with the same packages linked normally."""
    groups = {}
    for k in idx:
        groups.setdefault(MODPATHS[k % 2 * 2], []).append(k)

    def group(item):
        gi, (mp, ks) = item
        m = kit.module("e%d" % gi, mp)
        gens = []
        host = "package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\t\"plugin\"\n"
        body = ""
        for k in ks:
            r = rng(c, "e%d" % k)
            g = Gen(r, mp, "p%d/%s" % (k, r.choice([x for x in PLUGDIRS if "internal" not in x])))
            write_tree(m, g.files)
            gens.append((k, g))
        res = kit.parallel(lambda kg: kit.run(["build", "--include", r"\.txt$", kg[1].plugdir, "out%d" % kg[0]], cwd=m, timeout=600), gens, 4)
        good = []
        for (k, g), r in zip(gens, res):
            if r.rc == 0:
                good.append((k, g))
            else:
                # the compiler itself must be able to build it
                ok = kit.go(["build", "./" + g.plugdir + "/..."], cwd=m)
                if ok.returncode != 0:
                    raise Broken("generated source does not compile: " + ok.stdout[-3000:])
                c.violation("a plugin that compiles could not be built\n" + r.text(), {"kind": "cli", "e2e": {"case": k}, "files": g.files})
        if not good:
            return
        for k, g in good:
            host += "\tn%d \"%s\"\n" % (k, g.path)
            body += "\tone(%d, n%d.Say_root(), os.Args[1]+\"/out%d/%s.so\")\n" % (k, k, k, os.path.basename(g.plugdir))
        host += """)

func one(k int, want, so string) {
	p, err := plugin.Open(so)
	if err != nil {
		fmt.Printf("%d\\x01%q\\x01%q\\n", k, want, "cannot be opened: "+err.Error())
		return
	}
	s, err := p.Lookup("InvokeFunc")
	if err != nil {
		fmt.Printf("%d\\x01%q\\x01%q\\n", k, want, "no InvokeFunc: "+err.Error())
		return
	}
	got, _ := s.(func(string, ...interface{}) (interface{}, error))("say")
	fmt.Printf("%d\\x01%q\\x01%q\\n", k, want, got)
}

func main() {
""" + body + "}\n"
        write(os.path.join(m, "host", "main.go"), host)
        b = kit.go(["build", "-trimpath", "-o", "host.exe", "./host"], cwd=m, timeout=800)
        if b.returncode != 0:
            raise Broken("the host does not compile: " + b.stdout[-3000:])
        o = c.sh([os.path.join(m, "host.exe"), m], cwd=m, timeout=120)
        lines = [l.split("\x01") for l in o.stdout.split("\n") if "\x01" in l]
        if o.returncode != 0 and len(lines) < len(good):
            c.violation("the host died: " + o.stdout[-3000:], {"kind": "cli", "e2e": {"case": good[len(lines)][0]}})
        by = dict(good)
        for k, want, got in lines:
            g = by[int(k)]
            c.evaluations += 1
            c.extra["plugins_run"] = c.extra.get("plugins_run", 0) + 1
            sigs.add(digest(("run", g.path, sorted(g.kinds))))
            if want != got:
                j = next((x for x in range(min(len(want), len(got))) if want[x] != got[x]), 0)
                c.violation("plugin %s behaves differently: ...%s instead of ...%s" % (g.path, got[max(0, j - 60):j + 120], want[max(0, j - 60):j + 120]),
                            {"kind": "cli", "e2e": {"case": int(k)}, "want": want, "got": got})
    kit.parallel(group, list(enumerate(groups.items())), 2)
