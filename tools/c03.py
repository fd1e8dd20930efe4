"""C03: versions built by the CLI coexist in one process."""
import json, os, random, re, shutil
from clikit import *
from clicheck import cases

ASSUME = ["Every build is loaded for the first time: the Go runtime cannot open a plugin file with the contents of one that is open already, so nothing rolls back to an older file.",
          "Packages outside the plugin directories do not change during a history (the Go runtime insists on that)."]

PLUGS = ["alpha", "beta-x", "Gamma", "delta.v2", "alpha2"]
SUBS = ["sub", "sub/deep", "internal/in", "{base}", "{base}2", "z", "hotswapx", "a/b/c/d"]

HEADS = ["", "// Code generated by x. DO NOT EDIT.\n\n", "// Copyright of someone.\n// package nonsense\n\n", "//go:build linux && !never\n\n", "/* package x */ /*\nimport \"fmt\" */\n\n", "\ufeff"]
NAMES = ["pkg.go", "pkg_linux.go", "pkg.pb.go", "zz_generated.deepcopy.go", "doc.go", "PKG.go", "main.go", "a-b.go", "p k.go"]


def imports(r, paths):
    """Import declarations of one of the ways in which they can be written."""
    k = r.choice(["block", "block", "raw", "lines", "semicolons", "comments"])
    q = {"raw": "`%s`"}.get(k, '"%s"')
    specs = [("", "fmt")] + [("p%d " % n, p) for n, p in enumerate(paths)]
    if k == "lines":
        return "".join("import %s" % a + q % p + "\n" for a, p in specs)
    if k == "semicolons":
        return "import (" + "; ".join(a + q % p for a, p in specs) + ")\n"
    if k == "comments":
        return "import (\n" + "".join('\t%s/* "%s/x" */ ' % (a, p) + q % p + ' // "%s"\n' % p for a, p in specs) + ")\n"
    return "import (\n" + "".join("\t" + a + q % p + "\n" for a, p in specs) + ")\n"


PKG = '''%(head)spackage %(pkg)s

%(imports)s'''+'''

const version = "%(version)s"

type State struct {
%(fields)s	N int
}

var (
	n     int
	state = &State{}
	m     = map[string]int{}
	log   []string
)

func init() {
	log = append(log, version)
	m["init"]++
}

// Tick changes every kind of state of the package and tells about it.
func Tick() string {
	n++
	state.N += 2
	m["tick"]++
	var x interface{} = state
	_, same := x.(*State)
	res := fmt.Sprintf("%(dir)s:%%s:%%d:%%d:%%d:%%d:%%d:%%v", version, n, state.N/2, m["tick"], m["init"], len(log), same)
%(calls)s	return res
}
'''

ROOT = '''package %(pkg)s

import (
	"github.com/edwingeng/hotswap/vault"
)

var shared *vault.Vault

func OnLoad(data interface{}) error { return nil }

func OnInit(v *vault.Vault) error {
	shared = v
	return nil
}

func OnFree() {}

func Export() interface{} { return nil }

func Import() interface{} { return nil }

func Reloadable() bool { return true }

func live_%(uid)s() string { return Tick() }

type Live_%(uid)s struct{ N int }

func (x *Live_%(uid)s) String() string { return version }

func InvokeFunc(name string, params ...interface{}) (interface{}, error) {
	switch name {
	case "live":
		return shared.LiveFuncs["live_%(uid)s"].(func() string)(), nil
	case "type":
		x := shared.LiveTypes["Live_%(uid)s"]().(*Live_%(uid)s)
		x.N++
		return x.String(), nil
	}
	return Tick(), nil
}
'''


class Plug:
    def __init__(self, r, mod, name):
        self.mod, self.name, self.path = mod, name, "example.com/m/plugin/" + name
        self.uid = re.sub(r"\W", "", name)
        subs = [s.format(base=name) for s in SUBS]
        self.pk = [""] + r.sample(subs, r.randint(1, 5))
        self.ver = {d: 1 for d in self.pk}
        self.edges = {d: [e for k, e in enumerate(self.pk) if k > self.pk.index(d) and r.random() < 0.6] for d in self.pk}
        for d in self.pk[1:]:
            if not any(d in v for v in self.edges.values()):
                self.edges[""].append(d)
        self.fields = {d: 0 for d in self.pk}
        self.free = [s for s in subs if s not in self.pk]
        self.style = {d: (r.choice(HEADS), r.choice(NAMES), r.random(), r.random() < 0.2) for d in [""] + subs}

    def pkg(self, d):
        return re.sub(r"\W", "", os.path.basename(d or self.name)).lower()

    def source(self):
        files = {"root.go": ROOT % {"pkg": self.pkg(""), "uid": self.uid}}
        for d in self.pk:
            head, name, x, crlf = self.style[d]
            imps = imports(random.Random(x), ["%s/%s" % (self.path, e) for e in self.edges[d]])
            calls = "".join('\tres += "," + p%d.Tick()\n' % k for k, e in enumerate(self.edges[d]))
            text = PKG % {"head": head, "pkg": self.pkg(d), "imports": imps, "calls": calls, "version": "v%d" % self.ver[d], "dir": "%s/%s" % (self.name, d),
                                                     "fields": "".join("\tF%d [%d]string\n" % (k, k) for k in range(self.fields[d]))}
            files[os.path.join(d, name)] = text.replace("\n", "\r\n") if crlf else text
        return files

    def edit(self, r):
        """Changes something; returns what."""
        k = r.choice(["root", "one", "all", "layout", "add", "comment", "remove"])
        if k == "root":
            self.ver[""] += 1
        elif k == "one":
            self.ver[r.choice(self.pk)] += 1
        elif k == "all":
            for d in self.pk:
                self.ver[d] += 1
        elif k == "layout":
            self.fields[r.choice(self.pk)] += 1
        elif k == "add" and self.free:
            d = self.free.pop()
            self.pk.append(d)
            self.ver[d], self.fields[d], self.edges[d] = 1, 0, []
            self.edges[r.choice(self.pk[:-1])].append(d)
        elif k == "remove" and len(self.pk) > 2:
            d = self.pk.pop()
            self.free.insert(0, d)
            for v in self.edges.values():
                if d in v:
                    v.remove(d)
        return k

    def expect(self):
        """The packages that tick, in order, with their versions."""
        def walk(d):
            return [[self.name + "/" + d, "v%d" % self.ver[d]]] + [x for e in self.edges[d] for x in walk(e)]
        return walk("")


HOST = r'''package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/slog"
)

type step struct {
	Dir  string
	Arts map[string]int
}

type art struct {
	Plugin string
	Ticks  [][2]string
}

type script struct {
	Steps []step
	Arts  []art
}

type instance struct {
	p     *hotswap.Plugin
	art   int
	count map[string]int
}

var bad int

func complain(format string, a ...interface{}) {
	fmt.Printf("BAD "+format+"\n", a...)
	bad++
}

func (in *instance) tick(arts []art, fn string) {
	defer func() {
		if r := recover(); r != nil {
			complain("build %d of %s: panic in %s: %v", in.art, in.p.Name, fn, r)
		}
	}()
	x, err := in.p.InvokeFunc(fn)
	if err != nil {
		complain("build %d of %s: %v", in.art, in.p.Name, err)
		return
	}
	got := x.(string)
	a := arts[in.art]
	if fn == "type" {
		if got != a.Ticks[0][1] {
			complain("build %d of %s: a live type of version %s answers %s", in.art, in.p.Name, a.Ticks[0][1], got)
		}
		return
	}
	var want []string
	for _, t := range a.Ticks {
		in.count[t[0]]++
		n := in.count[t[0]]
		want = append(want, fmt.Sprintf("%s:%s:%d:%d:%d:1:1:true", t[0], t[1], n, n, n))
	}
	if w := strings.Join(want, ","); w != got {
		complain("build %d of %s answers %s instead of %s", in.art, in.p.Name, got, w)
	}
	fmt.Println("TICK", len(want))
}

func main() {
	var s script
	data, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(data, &s)
	}
	if err != nil {
		fmt.Println("ERR", err)
		os.Exit(3)
	}
	var sw *hotswap.PluginManagerSwapper
	var all []*instance
	current := map[string]*instance{}
	for i, st := range s.Steps {
		if sw == nil {
			sw = hotswap.NewPluginManagerSwapper(st.Dir, hotswap.WithLogger(slog.NewDumbLogger()))
			_, err = sw.LoadPlugins(nil)
		} else {
			sw.ResetPluginDir(st.Dir)
			_, err = sw.Reload(nil)
		}
		if err != nil {
			complain("step %d %v: loading: %v", i, st.Arts, err)
			break
		}
		for name, k := range st.Arts {
			p := sw.Current().FindPlugin(name)
			if p == nil {
				complain("step %d: %s is not there", i, name)
				continue
			}
			if in := current[name]; in != nil && in.art == k {
				// not rebuilt: the state stays
				in.p = p
				fmt.Println("KEPT")
			} else {
				in = &instance{p: p, art: k, count: map[string]int{}}
				current[name] = in
				all = append(all, in)
				fmt.Println("NEW")
			}
		}
		for k := range all {
			in := all[(k*7+i)%len(all)]
			for _, fn := range []string{"tick", "live", "type"} {
				in.tick(s.Arts, fn)
			}
		}
	}
	fmt.Println("END", bad)
}
'''


def history(c, kit, i, quick, sigs):
    r = rng(c, i)
    m = kit.module("h%d" % i)
    plugs = [Plug(r, m, n) for n in r.sample(PLUGS, 2 if quick else 3)]
    write(os.path.join(m, "host", "main.go"), HOST)
    for p in plugs:
        write_tree(os.path.join(m, "plugin", p.name), p.source())
    c.sh(["git", "add", "-A"], cwd=m, what="git add")
    c.sh(["git", "commit", "-qm", "y"], cwd=m, what="git commit")
    m2 = c.path("m", "h%d-other" % i)
    shutil.copytree(m, m2)          # another checkout of the same commit
    hb = []
    arts, queue = [], {p.name: [] for p in plugs}
    what = []

    def build(job):
        k, p, d, how = job
        return kit.run(["build"] + how + [os.path.join(d, "plugin", p.name), c.path("so%d" % i, str(k))], cwd=d, timeout=600)

    for rnd in range(3 if quick else 6):
        jobs = []
        for p in plugs:
            ways = ["plain", "plain"] if rnd == 0 else [r.choice(["keep", "same source", "edit", "edit", "edit and commit"]) for _ in range(1)]
            if rnd == 0 or r.random() < 0.5:
                ways = ways + [r.choice(["same source", "other checkout"])]
            if ways[0].startswith("edit"):
                e = p.edit(r)
                for d in (m, m2):
                    x = os.path.join(d, "plugin", p.name)
                    shutil.rmtree(x)
                    src = p.source()
                    if e == "comment":
                        src["root.go"] += "\n// changed in round %d\n" % rnd
                    write_tree(x, src)
                ways[0] += ": " + e
                if "commit" in ways[0]:
                    c.sh(["git", "commit", "-qam", "z", "--allow-empty"], cwd=m, what="git commit")
            for w in ways:
                if w == "keep":
                    continue
                k = len(arts)
                arts.append({"Plugin": p.name, "Ticks": p.expect()})
                queue[p.name].append(k)
                how = r.choice([[], [], ["-v"], ["--leaveTemps"]])
                jobs.append((k, p, m2 if w == "other checkout" else m, how))
                what.append(w)
        if rnd == 0:
            hb.append(None)
        # All builds of a round run at once.
        for job, res in zip(jobs, kit.parallel(build, jobs, 8)):
            c.evaluations += 1
            if res.rc != 0:
                c.violation("a build failed: %s\n%s" % (what[job[0]], res.text()), {"kind": "cli", "case": i})
                return
    # The history of loading: every build is used once, in order, plugins advance independently.
    steps, at = [], {}
    left = {k: list(v) for k, v in queue.items()}
    while any(left.values()):
        movers = [k for k in sorted(left) if left[k] and (k not in at or r.random() < 0.6)]
        if not at:
            movers = sorted(left)
        if not movers:
            continue
        for k in movers:
            at[k] = left[k].pop(0)
        d = c.path("load%d" % i, str(len(steps)))
        os.makedirs(d)
        for k, a in at.items():
            shutil.copy(c.path("so%d" % i, str(a), k + ".so"), os.path.join(d, k + ".so"))
        steps.append({"Dir": d, "Arts": dict(at)})
    write(c.path("script%d.json" % i), json.dumps({"Steps": steps, "Arts": arts}))
    b = kit.go(["build", "-trimpath", "-o", "host.exe", "./host"], cwd=m)
    if b.returncode != 0:
        raise Broken("the host does not compile: " + b.stdout[-3000:])
    o = c.sh([os.path.join(m, "host.exe"), c.path("script%d.json" % i)], cwd=m, timeout=300)
    ls = o.stdout.split("\n")
    ticks = sum(int(l.split()[1]) for l in ls if l.startswith("TICK "))
    c.evaluations += ticks
    for k, v in (("builds", len(arts)), ("loads", len(steps)), ("versions_kept_over_a_reload", ls.count("KEPT")), ("versions_loaded", ls.count("NEW")), ("package_states_checked", ticks)):
        c.extra[k] = c.extra.get(k, 0) + v
    sigs.update(digest((w, len(p.pk))) for w in what for p in plugs)
    sigs.add(digest((what, [s["Arts"] for s in steps])))
    bad = [l[4:] for l in ls if l.startswith("BAD ")]
    if bad:
        c.violation("; ".join(bad[:4])[:3000], {"kind": "cli", "case": i, "history": what, "steps": steps, "all": bad[:40]})
    elif not any(l.startswith("END 0") for l in ls):
        c.violation("the host died: exit status %s\n%s" % (o.returncode, o.stdout[-3000:]), {"kind": "cli", "case": i, "history": what, "steps": steps})
    if len(c.samples) < 4:
        c.samples.append({"history": i, "builds": what, "loads": [s["Arts"] for s in steps], "packages": {p.name: p.pk for p in plugs}})


def unique(c, kit, n, sigs):
    """Builds that run at the same time must not share a directory, which is the package path of a build."""
    m = kit.module("u")
    d = os.path.join(m, "plugin", "foo")
    write(os.path.join(d, "foo.go"), root_source("foo"))
    seen = {}
    res = kit.parallel(lambda k: kit.run(["build", "--goBuild=false", d, os.path.join(m, "out")], cwd=m), range(n), 24)
    for k, x in enumerate(res):
        c.evaluations += 1
        t = x.out.strip().split("\n")[0]
        if x.rc != 0:
            c.violation("one of many builds at the same time failed\n" + x.text(), {"kind": "cli", "unique": n})
            return
        if t in seen:
            c.violation("two builds used the same directory, and so the same package path: " + t, {"kind": "cli", "unique": n})
            return
        seen[t] = k
    sigs.add("unique")
    c.extra["simultaneous_builds_compared"] = n


def run(c, replay):
    kit = Kit(c)
    sigs = set()
    if not replay or "unique" in replay:
        unique(c, kit, 96 if c.quick() else 1500, sigs)
    if not replay or "case" in replay:
        kit.parallel(lambda i: history(c, kit, i, c.quick(), sigs), cases(c, replay, 4, 80), 3)
    c.distinct = len(sigs)
    c.rule = ("histories of edits, simultaneous builds (also of unchanged source and from another checkout) and reloads; after each reload every version ever loaded is called in the host process and each of its "
              "packages reports its version and its state; distinct by kind of change, shape of the plugin and history")
