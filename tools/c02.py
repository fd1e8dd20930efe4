"""C02: live functions and types are discovered completely and correctly."""
import json, os, re
from clikit import *
from clicheck import cases

ASSUME = ["Live names are matched by the packages that go build compiles for linux/amd64 with the build flags given; generic live functions and types, aliases and types defined as another struct type are outside the check.",
          "A prefix that makes init or main live is outside the check."]

PREFIXES = ["live_", "live_", "live_", None, None, "Live", "LIVE_X_", "hot", "l", "x_live_", " live_ ", "on", "e", "h", "\u0436\u0438\u0432_", "Live9", "_", "z\u00e9_"]
SUBS = ["sub", "sub/deep", "internal/in", "z", "a/b/c", "other", "sub2", "live_dir", "v1", "m_n"]
REQ_TOKEN = "@req"


class Tree:
    """One plugin with live things and things that only look alive."""

    def __init__(self, r, path, tags):
        self.r, self.path, self.tags = r, path, tags
        self.prefix = r.choice(PREFIXES)
        self.files, self.funcs, self.types, self.kinds = {}, {}, {}, set()
        self.low = (self.prefix or "live_").strip().lower()
        self.root = re.sub(r"\W", "", os.path.basename(path)).lower()
        self.dirs = [""] + r.sample(SUBS, r.randint(0, 5))
        self.used = set()
        self.count = 0
        self.asm = False
        for d in self.dirs:
            self.package(d)
        if r.random() < 0.4:
            self.files["testdata/td.go"] = "package td\n\nfunc %s() {}\n\ntype %s int\n" % (self.name(), self.name())
            self.kinds.add("testdata")
        for k in REQUIRED:
            if k.lower().startswith(self.low):
                self.funcs[k] = REQ_TOKEN
                self.kinds.add("required function is live")

    def case(self, s):
        return "".join(self.r.choice([c.lower(), c.upper()]) if len(c.upper()) == 1 and len(c.lower()) == 1 else c for c in s)

    def name(self, fresh=True):
        """A name that starts with the prefix."""
        r = self.r
        while True:
            n = self.case(self.low) if r.random() < 0.6 else self.low
            k = r.random()
            if k < 0.05:
                self.kinds.add("nothing but the prefix")
            else:
                n += r.choice(["x", "foo", "Bar", "1", "_", "\u00e9", "live_", "init"]) + str(r.randint(0, 99))
            if re.match(r"\d", n) or n in ("init", "main", "_"):
                continue
            if fresh and (n in self.used or n in REQUIRED):
                continue
            self.used.add(n)
            return n

    def other(self):
        """A name that does not start with the prefix."""
        r = self.r
        while True:
            n = r.choice(["my_", "X", "q", "a_", self.low[:-1] + "9", "my"]) + self.low + str(r.randint(0, 99))
            if re.match(r"\d", n) or n.lower().startswith(self.low) or n in self.used:
                continue
            self.used.add(n)
            return n

    def func(self, n, tok):
        sig = self.r.choice(["() string", "(a int) string", "(a, b string, c ...int) string", "(m map[string]int, f func() error) (res string, err error)", "() interface{}", "(a, b, c, d, e int, f ...string) string", "(a struct{ X int }, _ [3]chan int) (x, y string)", "(_ int, _ string) string"])
        ret = '"%s"' % tok + (", nil" if "err error" in sig else ', ""' if "(x, y" in sig else "")
        return "func %s%s { return %s }" % (n, sig, ret)

    def package(self, d):
        r = self.r
        pkg = os.path.basename(d) if d else self.root
        if d and r.random() < 0.2:
            pkg = "renamed" + str(r.randint(0, 9))
            self.kinds.add("package name differs from the directory")
        texts = {}
        def add(f, t):
            texts.setdefault(f, []).append(t)
        for k in range(r.choice([0, 1, 1, 2, 3, 6])):
            self.count += 1
            f = r.choice(["a.go", "b.go", "c_linux.go", "hotswap.util.go", "a.go", "Live_file.go"])
            n = self.name()
            if r.random() < 0.5:
                tok = "T%d:%s" % (self.count, d)
                self.funcs[n] = tok
                add(f, self.func(n, tok))
                self.kinds.add("func")
                if n[0] != n[0].upper():
                    self.kinds.add("unexported func")
            else:
                self.types[n] = d
                t = r.choice(["struct {\n\tA int\n\tB string\n\tc map[string]int\n}"] * 4 + ["struct{ A [3]int }", "struct{}", "struct {\n}", "struct{ A int; _ [0]func() }", "struct{ A int; error }", "struct {\n\tA int `k:\"v\"`\n\tnext *%s\n}" % n])
                if t.endswith("{}") or t.endswith("{\n}"):
                    self.kinds.add("empty struct")
                k = r.random()
                if k < 0.4:
                    add(f, "type %s %s" % (n, t))
                elif k < 0.7:
                    add(f, "type (\n\tt_%d int\n\t// c\n\t%s %s\n\tu_%d []string\n)" % (self.count, n, t, self.count))
                    self.kinds.add("grouped type")
                else:
                    add(f, "type %s %s\n\nfunc (*%s) Foo() {}\n\nfunc (x %s) %s() {}" % (n, t, n, n, self.name(False)))
                    self.kinds.add("type with live methods")
        for k in range(r.randint(0, 6)):
            self.count += 1
            n, c = self.name(), self.count
            kind, f, t = r.choice([
                ("method", "d.go", "type qr_%d struct{}\n\nfunc (qr_%d) %s() {}" % (c, c, n)),
                ("pointer method", "d.go", "type qr_%d int\n\nfunc (x *qr_%d) %s() string { return \"\" }" % (c, c, n)),
                ("local names", "d.go", "func ql_%d() {\n\ttype %s int\n\tvar %s_v %s\n\t_ = %s_v\n}" % (c, n, n, n, n)),
                ("local struct", "d.go", "func ql_%d() {\n\ttype %s struct{ A int }\n\t_ = %s{}\n}" % (c, n, n)),
                ("variable", "d.go", "var %s = func() string { return \"\" }" % n),
                ("constant", "d.go", "const %s = 1" % n),
                ("field", "d.go", "type qf_%d struct{ %s int }" % (c, n)),
                ("interface method", "d.go", "type qi_%d interface{ %s() }" % (c, n)),
                ("parameter", "d.go", "func qp_%d(%s func()) {}" % (c, n)),
                ("comment", "d.go", "// func %s() {}\n// type %s struct{}\nvar qv_%d = `\nfunc %s() {}\n`" % (n, n, c, n)),
                ("test", "e_test.go", "func %s() {}" % n),
                ("test type", "e_test.go", "type %s int" % n),
                ("external test", "f_test.go", "func %s() {}" % n),
                ("other system", "g_windows.go", "func %s() {}" % n),
                ("other system type", "g_windows.go", "type %s int" % n),
                ("build tag", "h.go", "func %s() {}" % n),
                ("build tag type", "h.go", "type %s int" % n),
                ("other name", "d.go", "func %s() {}\n\ntype %s int" % (self.other(), self.other())),
            ])
            add(f, t)
            self.kinds.add(kind)
        if d and r.random() < 0.06:
            n = self.name()
            if re.fullmatch(r"\w+", n, re.A):
                self.count += 1
                self.funcs[n] = str(100000 + self.count)
                self.asm = True
                add("j.go", "func %s(a int) int" % n)
                self.files[os.path.join(d, "j_amd64.s")] = '#include "textflag.h"\n\nTEXT \u00b7%s(SB), NOSPLIT, $0-16\n\tMOVQ $%s, AX\n\tMOVQ AX, ret+8(FP)\n\tRET\n' % (n, self.funcs[n])
                self.kinds.add("assembly")
        elif d and r.random() < 0.05:
            n, m = self.name(), self.name()
            self.count += 1
            self.funcs[n] = "C%d" % self.count
            self.types[m] = d
            add("k.go", "// static const char *say(void) { return \"C%d\"; }\nimport \"C\"\n\nfunc %s() string { return C.GoString(C.say()) }\n\ntype %s struct{ A int }" % (self.count, n, m))
            self.kinds.add("cgo")
        if self.funcs and r.random() < 0.5:
            # The same name again where it does not count.
            n = r.choice(sorted(self.funcs))
            self.count += 1
            kind, f, t = r.choice([
                ("same name, other system", "g_windows.go", "func %s() {}" % n), ("same name, build tag", "h.go", "func %s() {}" % n),
                ("same name, test", "f_test.go", "func %s() {}" % n), ("same name, method", "d.go", "type qs_%d int\n\nfunc (qs_%d) %s() {}" % (self.count, self.count, n)),
                ("same name, other case", "d.go", "type qs_%d struct{ %s int }" % (self.count, n)),
            ])
            if n not in REQUIRED:
                add(f, t)
                self.kinds.add(kind)
        if r.random() < 0.4:
            # A file that takes part with -tags extra only, and one that does not then.
            n = self.name()
            add("t_extra.go", self.func(n, "extra:" + d))
            m = self.name()
            add("t_plain.go", "type %s struct{ A int }" % m)
            if self.tags:
                self.funcs[n] = "extra:" + d
            else:
                self.types[m] = d
            self.kinds.add("tags on" if self.tags else "tags off")
        heads = {"h.go": "//go:build never\n\n", "t_extra.go": "//go:build extra\n\n", "t_plain.go": "//go:build !extra\n\n"}
        for f, t in texts.items():
            p = pkg + "_test" if f == "f_test.go" else pkg
            self.files[os.path.join(d, f)] = heads.get(f, "") + "package %s\n\n%s\n" % (p, "\n\n".join(t))
        if not any(not f.endswith("_test.go") and f not in heads and f != "g_windows.go" for f in texts):
            self.files[os.path.join(d, "z.go")] = "package %s\n" % pkg
        if not d:
            funcs = {}
            self.files["root.go"] = root_source(pkg)

    def args(self):
        return ([] if self.prefix is None else ["--livePrefix", self.prefix]) + (["--include", r"\.s$"] if self.asm else [])


OFFENCES = ["type int", "type func", "type interface", "type map", "type pointer", "type slice", "type alias", "grouped type", "duplicate func", "duplicate type", "func and type", "deep"]


def offend(t, r):
    """Adds one thing that must make the build fail; returns its kind."""
    kind = r.choice(OFFENCES)
    d = r.choice(t.dirs)
    pkg = next(re.search(r"(?m)^package (\w+)", v).group(1) for k, v in sorted(t.files.items()) if os.path.dirname(k) == d and k.endswith(".go") and not k.endswith("_test.go"))
    n = t.name()
    plain = {"type int": "int", "type func": "func()", "type interface": "interface{ A() }", "type map": "map[string]struct{ A int }", "type pointer": "*struct{ A int }", "type slice": "[]struct{ A int }", "type alias": "= map[string]int"}
    f = os.path.join(d, r.choice(["aa.go", "zz.go"]))
    if kind in plain:
        t.files[f] = "package %s\n\ntype %s %s\n" % (pkg, n, plain[kind])
    elif kind == "grouped type":
        t.files[f] = "package %s\n\ntype (\n\tq_offence struct{ A int }\n\t%s string\n)\n" % (pkg, n)
    else:
        other = "offence/deep" if kind == "deep" else "offence"
        one = "func %s() {}" % n if kind in ("duplicate func", "func and type", "deep") else "type %s struct{ A int }" % n
        two = "func %s() {}" % n if kind in ("duplicate func", "deep") else "type %s struct{ B int }" % n
        t.files[f] = "package %s\n\n%s\n" % (pkg, one)
        t.files[other + "/o.go"] = "package offence\n\n%s\n" % two
    return kind, n


HOST = r'''
type answer struct {
	ID    string
	Err   string
	Funcs map[string]string
	Types map[string]string
}

func ask(id string, lf func() map[string]interface{}, lt func() map[string]func() interface{}) {
	a := answer{ID: id, Funcs: map[string]string{}, Types: map[string]string{}}
	defer func() {
		if r := recover(); r != nil {
			a.Err = fmt.Sprint("panic: ", r)
		}
		out, _ := json.Marshal(a)
		fmt.Println("\x01" + string(out))
	}()
	for n, f := range lf() {
		a.Funcs[n] = call(n, f)
	}
	for n, c := range lt() {
		a.Types[n] = build(c)
	}
	if len(lf()) != len(a.Funcs) || len(lt()) != len(a.Types) {
		a.Err = "the second call answers something else"
	}
}

func call(n string, f interface{}) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprint("panic: ", r)
		}
	}()
	v := reflect.ValueOf(f)
	if v.Kind() != reflect.Func {
		return "not a function: " + v.Kind().String()
	}
	switch n {
	case "OnLoad", "OnInit", "OnFree", "Export", "Import", "InvokeFunc", "Reloadable":
		fn := runtime.FuncForPC(v.Pointer()).Name()
		if !strings.HasSuffix(fn, "."+n) {
			return "another function: " + fn
		}
		return "@req"
	}
	var in []reflect.Value
	for i := 0; i < v.Type().NumIn(); i++ {
		if !v.Type().IsVariadic() || i < v.Type().NumIn()-1 {
			in = append(in, reflect.Zero(v.Type().In(i)))
		}
	}
	return fmt.Sprint(v.Call(in)[0].Interface())
}

func build(c func() interface{}) (res string) {
	defer func() {
		if r := recover(); r != nil {
			res = fmt.Sprint("panic: ", r)
		}
	}()
	x, y := reflect.ValueOf(c()), reflect.ValueOf(c())
	if x.Kind() != reflect.Ptr || x.Elem().Kind() != reflect.Struct {
		return "not a pointer to a struct: " + x.Type().String()
	}
	if x.Elem().NumField() == 0 {
		return where(x.Elem().Type())
	}
	if x.Pointer() == y.Pointer() {
		return "the same object twice"
	}
	f := x.Elem().Field(0)
	if f.Kind() == reflect.Int {
		f.SetInt(7)
	} else {
		f.Index(1).SetInt(7)
	}
	z := reflect.ValueOf(c())
	for _, v := range []reflect.Value{y, z} {
		if !v.Elem().IsZero() || v.Type() != x.Type() {
			return "not a zero value of the same type"
		}
	}
	return where(x.Elem().Type())
}

func where(t reflect.Type) string {
	p := t.PkgPath()
	if i := strings.LastIndex(p, "/p"); i >= 0 {
		p = p[i+1:]
	}
	return p + " " + t.Name()
}
'''


def judge(c, i, t, a, how, base):
    """Compares an answer with the tree. base is the package path of the root as seen from /p."""
    if a is None:
        return c.violation("%s: the plugin of case %d gave no answer" % (how, i), {"kind": "cli", "case": i, "files": t.files})
    errs = [a["Err"]] if a["Err"] else []
    for n in sorted(set(a["Funcs"]) | set(t.funcs)):
        if a["Funcs"].get(n) != t.funcs.get(n):
            errs.append("live function %s: %s instead of %s" % (n, a["Funcs"].get(n, "absent"), t.funcs.get(n, "absent")))
    for n in sorted(set(a["Types"]) | set(t.types)):
        want = None
        if n in t.types:
            want = (os.path.join(base, t.types[n]) if t.types[n] else base) + " " + n
        got = a["Types"].get(n)
        if how != "static" and got:
            # The directory of a build is called <plugin>-<something>, and its root package is main.
            if want and not t.types[n] and got == "main " + n:
                got = want
            else:
                got = re.sub(r"^(p\d+)-[^/ ]+", r"\1", got)
        if got != want:
            errs.append("live type %s: %s instead of %s" % (n, got or "absent", want or "absent"))
    if errs:
        c.violation("%s, --livePrefix %r: %s" % (how, t.prefix, "; ".join(errs[:6])), {"kind": "cli", "case": i, "files": t.files, "answer": a})


FLAGS = [([], ""), (["-race"], "r"), (["-race=true"], "r"), (["--race"], "r"), (["-race=false"], ""), (["-tags=x"], "x"), (["-tags", "x"], "x"), (["--tags", "y,x"], "x"), (["-tags=race2,xx"], ""), (["-v", "-race"], "r"),
         (["-ldflags=-s", "-tags=x"], "x"), (["-race", "-tags=x"], "rx"), (["-tags=x", "-race=1"], "rx"), (["-tags=x", "-tags=y"], ""), (["-tags=y", "-tags", "x"], "x"), (["-gcflags=-N -l", "-race"], "r"), (["-tags="], "")]
CONSTRAINTS = [("race", lambda r, x: r), ("!race", lambda r, x: not r), ("x", lambda r, x: x), ("!x", lambda r, x: not x), ("x && race", lambda r, x: r and x), ("x || race", lambda r, x: r or x),
               ("linux && x", lambda r, x: x), ("!x && !race", lambda r, x: not x and not r), ("linux || x", lambda r, x: True), ("windows", lambda r, x: False), ("cgo", lambda r, x: True), ("!race && x", lambda r, x: x and not r)]


def constraints(c, kit, idx, sigs):
    """A file counts exactly if the build flags make it part of the build; a live type in it that must be refused tells."""
    m = kit.module("flags")

    def one(k):
        r = rng(c, "f%d" % k)
        flags, on = FLAGS[k % len(FLAGS)]
        cons, fn = r.choice(CONSTRAINTS)
        d = os.path.join(m, "p%d" % k, "foo")
        sub = r.choice(["", "sub", "sub/deep"])
        pkg = os.path.basename(sub) or "foo"
        write_tree(d, {"foo.go": root_source("foo"), os.path.join(sub, "z.go"): "package %s\n" % pkg, os.path.join(sub, "c.go"): "//go:build %s\n\npackage %s\n\ntype Live_T int\n" % (cons, pkg)})
        out = os.path.join(m, "p%d" % k, "out")
        os.makedirs(out)
        res = kit.run(["build", r.choice(["--staticLinking", "--goBuild=false"]), d, out] + (["--"] + flags if flags else []), cwd=m, env=r.choice([{}, {"GO111MODULE": "off"}, {"GO111MODULE": "auto"}]))
        return k, flags, cons, fn("r" in on, "x" in on), res

    for k, flags, cons, active, res in kit.parallel(one, idx):
        c.evaluations += 1
        c.extra["constraints"] = c.extra.get("constraints", 0) + 1
        sigs.add(digest((flags, cons)))
        if (res.rc == 0) == active or res.crashed() or active and "Live_T" not in res.err:
            c.violation("a file with the constraint %r and the flags %s: the live type in it %s\n%s" % (cons, flags, "must be refused" if active else "does not take part", res.text()), {"kind": "cli", "flags": k})


def run(c, replay):
    kit = Kit(c)
    todo = cases(c, replay, 144, 1600) if not replay or "case" in replay else []
    sigs = set()
    if not replay or "flags" in replay:
        constraints(c, kit, [replay["flags"]] if replay else range(4 * len(FLAGS) if c.quick() else 40 * len(FLAGS)), sigs)
    batches = [todo[k:k + 72] for k in range(0, len(todo), 72)]
    for bi, b in enumerate(batches):
        batch(c, kit, bi, b, sigs, replay)
    c.distinct = len(sigs)
    c.rule = ("generated plugin trees with live functions and types, things that only look alive and prefix options; the registries of statically generated and of dynamically built plugins are asked in a "
              "host program and every entry is called; each tree is generated again with something added that must be refused; distinct by prefix, kinds of content and offence")


def batch(c, kit, bi, todo, sigs, replay):
    mods = {tags: kit.module("m%d%s" % (bi, "t" if tags else ""), "example.com/m") for tags in (False, True)}

    def one(i):
        r = rng(c, i)
        tags = r.random() < 0.4
        m = mods[tags]
        t = Tree(r, "example.com/m/p%d" % i, tags)
        # Patterns such as ./... do not see everything that can be a plugin.
        t.at = rng(c, "at%d" % i).choice(["", "", "", "testdata/", "_x/", "plug/", "a/testdata/b/", "vendored/", "internal/"])
        d = os.path.join(m, t.at, "p%d" % i)
        write_tree(d, t.files)
        out = os.path.join(m, "out%d" % i)
        os.makedirs(out)
        flags = ["--", r.choice(["-tags=extra", "--tags=extra", "-tags=foo,extra"])] if tags else []
        if tags and r.random() < 0.3:
            flags = ["--", "-tags", "extra"]
        res = None
        for k in range(r.choice([1, 1, 1, 2])):
            res = kit.run(["build", "--staticLinking"] + t.args() + [d, out] + flags, cwd=m)
            if res.rc != 0:
                break
        # A copy with something that must be refused.
        bad = dict(t.files)
        r2 = rng(c, "o%d" % i)
        t2 = Tree(rng(c, i), "example.com/m/p%d" % i, tags) if False else t
        keep, used = dict(t.files), set(t.used)
        kind, n = offend(t, r2)
        bad, t.files, t.used = t.files, keep, used
        d2 = os.path.join(m, "bad", t.at, "p%d" % i)
        write_tree(d2, bad)
        os.makedirs(out + "b")
        if r2.random() < 0.5:
            res2 = kit.run(["build", "--staticLinking"] + t.args() + [d2, out + "b"] + flags, cwd=m)
        else:
            res2 = kit.run(["build", "--goBuild=false"] + t.args() + [d2, out + "b"] + flags, cwd=m)
        return i, t, tags, flags, res, (kind, n, bad, res2)

    results = kit.parallel(one, todo)
    good = {False: [], True: []}
    for i, t, tags, flags, res, (kind, n, bad, res2) in results:
        c.evaluations += 1
        if res.rc != 0:
            c.violation("static code of a correct plugin could not be generated (--livePrefix %r)\n%s" % (t.prefix, res.text()), {"kind": "cli", "case": i, "files": t.files})
        else:
            good[tags].append((i, t, flags))
        c.evaluations += 1
        c.extra["offences"] = c.extra.get("offences", 0) + 1
        if res2.rc == 0:
            c.violation("a plugin with an unusable live name was accepted (%s, %s, --livePrefix %r)" % (kind, n, t.prefix), {"kind": "cli", "case": i, "files": bad})
        elif res2.crashed() or not isinstance(res2.rc, int):
            c.violation("a plugin with an unusable live name was not refused properly (%s, %s)\n%s" % (kind, n, res2.text()), {"kind": "cli", "case": i, "files": bad})
        elif res.rc == 0 and n not in res2.err:
            c.violation("the message about an unusable live name does not mention %s\n%s" % (n, res2.text()), {"kind": "cli", "case": i, "files": bad})
        sigs.add(digest((t.prefix, kind)))
        sigs.add(digest((t.prefix, tags, t.at, sorted(t.kinds))))
        if len(c.samples) < 6 and i % 17 == 3:
            c.samples.append({"case": i, "prefix": t.prefix, "below": t.at, "functions": len(t.funcs), "types": len(t.types), "packages": len(t.dirs), "contents": sorted(t.kinds)})

    nso = 1 if replay else (3 if bi == 0 else 2)

    def host(tags):
        m, ts = mods[tags], good[tags]
        if not ts:
            return
        imports = "".join('\tq%d "example.com/m/%sp%d"\n' % (i, t.at, i) for i, t, _ in ts)
        main = "package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"reflect\"\n\t\"runtime\"\n\t\"strings\"\n" + imports + ")\n" + HOST + "\nfunc main() {\n" + "".join(
            '\task("%d", q%d.HotswapLiveFuncs, q%d.HotswapLiveTypes)\n' % (i, i, i) for i, t, _ in ts) + "}\n"
        write(os.path.join(m, "host", "main.go"), main)
        b = kit.go(["build", "-o", "host.exe"] + (["-tags=extra"] if tags else []) + ["./host"], cwd=m)
        if b.returncode != 0:
            # Say which plugins are at fault, or whether it is us.
            for i, t, _ in ts:
                d = c.path("plain", str(i))
                mm = kit.module("plain%d" % i, "example.com/m", git=False)
                write_tree(os.path.join(mm, t.at, "p%d" % i), t.files)
                f = ["-tags=extra"] if tags else []
                if kit.go(["build"] + f + ["./..."], cwd=os.path.join(mm, t.at, "p%d" % i)).returncode != 0:
                    raise Broken("generated source does not compile (case %d): %s" % (i, b.stdout[-3000:]))
            c.violation("static code does not compile: " + b.stdout[-3000:], {"kind": "cli", "case": int(re.search(r"\bp(\d+)/", b.stdout + " p0/").group(1))})
            return
        o = c.sh([os.path.join(m, "host.exe")], cwd=m, timeout=120)
        ans = {}
        for l in o.stdout.split("\n"):
            if l.startswith("\x01"):
                a = json.loads(l[1:])
                ans[a["ID"]] = a
        if o.returncode != 0 or not ans:
            c.violation("a program linked with the static code died: " + o.stdout[-3000:], {"kind": "cli", "case": ts[0][0]})
            return
        for i, t, _ in ts:
            c.evaluations += 1 + len(t.funcs) + len(t.types)
            c.extra["live_names_checked"] = c.extra.get("live_names_checked", 0) + len(t.funcs) + len(t.types)
            judge(c, i, t, ans.get(str(i)), "static", "p%d" % i)

    def dynamic(tags):
        m, ts = mods[tags], good[tags][:nso]
        if not ts:
            return
        jobs = kit.parallel(lambda x: kit.run(["build"] + x[1].args() + ["%sp%d" % (x[1].at, x[0]), "so"] + x[2], cwd=m, timeout=600), ts, 3)
        main = "package main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"os\"\n\t\"plugin\"\n\t\"reflect\"\n\t\"runtime\"\n\t\"strings\"\n\n\t_ \"github.com/edwingeng/hotswap/vault\"\n)\n" + HOST + r'''
func main() {
	for _, id := range os.Args[1:] {
		p, err := plugin.Open("so/p" + id + ".so")
		if err != nil {
			fmt.Println("cannot open", id, err)
			continue
		}
		f, err1 := p.Lookup("HotswapLiveFuncs")
		t, err2 := p.Lookup("HotswapLiveTypes")
		if err1 != nil || err2 != nil {
			fmt.Println("incomplete", id, err1, err2)
			continue
		}
		ask(id, f.(func() map[string]interface{}), t.(func() map[string]func() interface{}))
	}
}
'''
        write(os.path.join(m, "dhost", "main.go"), main)
        b = kit.go(["build", "-trimpath", "-o", "dhost.exe", "./dhost"], cwd=m)
        if b.returncode != 0:
            raise Broken("the host does not compile: " + b.stdout[-3000:])
        ids = []
        for (i, t, _), res in zip(ts, jobs):
            c.evaluations += 1
            if res.rc != 0:
                c.violation("a plugin that can be linked statically cannot be built\n" + res.text(), {"kind": "cli", "case": i, "files": t.files})
            else:
                ids.append(str(i))
        o = c.sh([os.path.join(m, "dhost.exe")] + ids, cwd=m, timeout=120)
        ans = {}
        for l in o.stdout.split("\n"):
            if l.startswith("\x01"):
                a = json.loads(l[1:])
                ans[a["ID"]] = a
        for i, t, _ in ts:
            if str(i) in ids:
                c.evaluations += len(t.funcs) + len(t.types)
                c.extra["plugins_loaded"] = c.extra.get("plugins_loaded", 0) + 1
                if str(i) not in ans:
                    c.violation("a built plugin cannot be asked: " + o.stdout[-2000:], {"kind": "cli", "case": i, "files": t.files})
                    continue
                judge(c, i, t, ans[str(i)], "dynamic", "p%d" % i)
    kit.parallel(lambda f: f[0](f[1]), [(host, False), (host, True), (dynamic, False), (dynamic, True)], 4)
