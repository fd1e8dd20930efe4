"""C05: static linking code of several plugins coexists, compiles and can be removed."""
import json, os, re, shutil
from clikit import *
from clicheck import cases

ASSUME = ["Plugins linked into one program have different names, also when case is ignored, and no plugin lies inside another one.",
          "Files that have the exact names of generated files count as generated."]

NAMES = ["cat", "cat2", "concat", "my-plug", "x.y", "x.y.z", "cat_test", "Upper", "foo_windows", "bar_amd64", "hotswap", "a", "cat.staticPluginInit", "vault", "go", "n_linux_test", "conf2", "HotswapLiveFuncs", "9lives", "main", "init", "z_test2"]
OUTS = ["plugin", "gen", "gen", "cmd/host", "deep/er/out", "cats", "my-out", "hotswap", "type", "x/9out"]

# Names that begin with, end with or contain each other.
FAMILIES = [["cat", "cat2", "concat", "cat_test", "cat.staticPluginInit"], ["x.y", "x.y.z", "x", "x.yz"], ["z_test2", "z", "z_test", "z_test3"], ["foo_windows", "foo", "foo_"], ["a", "a.go", "aa", "ba"]]

FUNC = {
    "OnLoad": '''func OnLoad(data interface{}) error {
	rec.Add("%(n)s", fmt.Sprint("OnLoad ", data))
%(deps)s	return nil
}''',
    "OnInit": '''func OnInit(v *vault.Vault) error {
	rec.Add("%(n)s", "OnInit")
	shared = v
	return nil
}''',
    "OnFree": '''func OnFree() { rec.Add("%(n)s", "OnFree") }''',
    "Export": '''func Export() interface{} {
	rec.Add("%(n)s", "Export")
	return "exported by %(n)s"
}''',
    "Import": '''func Import() interface{} {
	rec.Add("%(n)s", "Import")
	return &imported
}''',
    "InvokeFunc": '''func InvokeFunc(name string, params ...interface{}) (interface{}, error) {
	if f, ok := shared.LiveFuncs[name].(func() string); ok {
		return f(), nil
	}
	if f, ok := shared.LiveTypes[name]; ok {
		return fmt.Sprintf("%%T", f()), nil
	}
	return fmt.Sprintf("%(n)s %%v %%v", name, params), nil
}''',
    "Reloadable": '''func Reloadable() bool {
	rec.Add("%(n)s", "Reloadable")
	return %(rel)s
}''',
}

IMPORTS = {"OnLoad": ("fmt", "rec"), "OnInit": ("vault", "rec"), "OnFree": ("rec",), "Export": ("rec",), "Import": ("rec",), "InvokeFunc": ("fmt",), "Reloadable": ("rec",)}
PATHS = {"fmt": "fmt", "rec": "example.com/m/rec", "vault": "github.com/edwingeng/hotswap/vault"}


class Plug:
    def __init__(self, r, name, where, deps, nr):
        self.r, self.name, self.dir, self.deps, self.nr = r, name, os.path.join(where, name), deps, nr
        self.pkg = r.choice([re.sub(r"\W", "", name).lower(), "common", "common", "hotswap", "hotswapx", "plugin", "vaulty", "Mixed_Case"])
        if not re.match(r"[A-Za-z_]", self.pkg) or self.pkg in ("main", "init", "go"):
            self.pkg = "p" + self.pkg
        if self.pkg.endswith("_test"):
            self.pkg += "s"
        self.rel = "true"
        self.prefix = r.choice([None, None, "hot_", "H"])
        self.subs = r.sample(["sub", "sub/deep", "internal/in", "z", name], r.randint(0, 3))
        self.live = {}      # (dir, name) -> kind
        self.serial = 0
        for k in range(r.randint(0, 4)):
            self.add_live()
        self.layout = [r.randint(0, 2) for _ in REQUIRED]
        self.tests = r.random() < 0.4

    def add_live(self):
        self.serial += 1
        n = "%s%s%d_%d" % ((self.prefix or "live_"), "x", self.nr, self.serial)
        self.live[(self.r.choice([""] + self.subs), n)] = self.r.choice(["func", "type"])

    def edit(self):
        r = self.r
        k = r.choice(["add", "remove", "remove", "all"])
        if k == "add":
            self.add_live()
        elif k == "remove" and self.live:
            self.live.pop(r.choice(sorted(self.live)))
        elif k == "all":
            self.live = {}
        return k

    def source(self):
        files = {}
        for fi in range(3):
            fs = [f for f, l in zip(REQUIRED, self.layout) if l == fi]
            t = "package %s\n\n" % self.pkg
            imps = sorted({i for f in fs for i in IMPORTS[f]} | ({"vault"} if fi == 0 else set()))
            if imps:
                t += "import (\n" + "".join('\t"%s"\n' % PATHS[i] for i in imps) + ")\n\n"
            deps = "".join('\trec.Add("%s", fmt.Sprint("dep %s ", imported.%s))\n' % (self.name, d, d[0].upper() + d[1:]) for d in self.deps)
            t += "\n\n".join(FUNC[f] % {"n": self.name, "deps": deps, "rel": self.rel} for f in fs) + "\n"
            if fi == 0:
                t += "\nvar shared *vault.Vault\n\nvar imported struct {\n" + "".join("\t%s interface{}\n" % (d[0].upper() + d[1:]) for d in self.deps) + "}\n"
            files["f%d.go" % fi] = t
        for d in [""] + self.subs:
            pkg = self.pkg if not d else re.sub(r"\W", "", os.path.basename(d)).lower()
            if not re.match(r"[A-Za-z_]", pkg) or pkg in ("main", "init", "go"):
                pkg = "q" + pkg
            if pkg.endswith("_test"):
                pkg += "s"
            t = "package %s\n" % pkg
            for (dd, n), kind in sorted(self.live.items()):
                if dd == d:
                    t += '\nfunc %s() string { return "%s" }\n' % (n, n) if kind == "func" else "\ntype %s struct{ A int }\n" % n
            files[os.path.join(d, "lv.go")] = t
        if self.tests:
            files["x_test.go"] = "package %s_test\n\nfunc OnLoad() {}\n" % self.pkg
        return files

    def strangers(self):
        """Files of the user that resemble generated ones."""
        r = self.r
        opts = {"hotswap.go.txt": "t", "hotswap.live.go.bak": "t", "hotswap.main.txt": "t", "my.hotswap.main.go.x": "t", "hotswap.live.gox": "t", "hotswapbureau.txt": "t", "sub2/hotswap.txt": "t",
                "hotswap.staticPluginInit.%s.go.txt" % self.name: "t", "hotswap.staticPlugins.txt": "t", "xhotswap.bureau.go": "package %s\n" % self.pkg, "hotswap.mainx.go": "package %s\n" % self.pkg,
                "hotswap.lives.go": "package %s\n" % self.pkg, "hotswapbureau/notes.txt": "t", "hotswapbureau/sub/x.txt": "t", "Hotswap.live.txt": "t"}
        return {k: opts[k] for k in r.sample(sorted(opts), r.randint(0, 5))}


REC = '''package rec

import "sync"

var (
	mu  sync.Mutex
	Log = map[string][]string{}
)

func Add(plugin, what string) {
	mu.Lock()
	defer mu.Unlock()
	Log[plugin] = append(Log[plugin], what)
}
'''

HOST = r'''package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"

	"example.com/m/rec"
	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/slog"
%(imp)s)

type answer struct {
	Err    string
	Names  map[string]string
	Logs   map[string][]string
	Freed  map[string][]string
	Invoke map[string]string
	Live   map[string]map[string]string
}

func main() {
	var ask map[string][]string
	if err := json.Unmarshal([]byte(os.Args[1]), &ask); err != nil {
		panic(err)
	}
	a := answer{Names: map[string]string{}, Invoke: map[string]string{}, Live: map[string]map[string]string{}}
	defer func() {
		if r := recover(); r != nil {
			a.Err = fmt.Sprint("panic: ", r)
		}
		out, _ := json.Marshal(a)
		fmt.Println("\x01" + string(out))
	}()
	for k, p := range %(v)sHotswapStaticPlugins {
		a.Names[k] = p.Name
	}
	sw := hotswap.NewPluginManagerSwapper("", hotswap.WithStaticPlugins(%(v)sHotswapStaticPlugins), hotswap.WithLogger(slog.NewDumbLogger()))
	if _, err := sw.LoadPlugins("data"); err != nil {
		a.Err = err.Error()
		return
	}
	for _, p := range sw.Current().Plugins() {
		x, err := p.InvokeFunc("hello", 1, "two")
		a.Invoke[p.Name] = fmt.Sprintf("%%v %%v", x, err)
		a.Live[p.Name] = map[string]string{}
		for _, n := range ask[p.Name] {
			x, err := p.InvokeFunc(n)
			a.Live[p.Name][n] = fmt.Sprintf("%%v %%v", x, err)
		}
	}
	a.Logs = rec.Log
	rec.Log = map[string][]string{}
	bad := hotswap.NewPluginManagerSwapper("", hotswap.WithStaticPlugins(%(v)sHotswapStaticPlugins), hotswap.WithLogger(slog.NewDumbLogger()),
		hotswap.WithReloadCallback(func(a, b *hotswap.PluginManager) error { return errors.New("no") }))
	if _, err := bad.LoadPlugins(nil); err == nil {
		a.Err = "the callback failed, but not the loading"
	}
	a.Freed = rec.Log
}
'''


def owner(p, plugs, out, known):
    """Whose generated file this is: a plugin, 'shared', or None."""
    b = os.path.basename(p)
    for q in plugs:
        if p.startswith(q.dir + "/"):
            inner = p[len(q.dir) + 1:]
            if inner == "hotswapbureau" or inner == "hotswapbureau/hotswap.bureau.go" or inner == "hotswap.main.go" or b == "hotswap.live.go":
                return q.name
            return None
    if os.path.dirname(p) == out:
        if b == "hotswap.staticPlugins.go":
            return "shared"
        return known.get(p)
    return None


def history(c, kit, i, sigs):
    r = rng(c, i)
    m = kit.module("h%d" % i)
    out = r.choice(OUTS)
    where = out if r.random() < 0.35 else r.choice(["plugin", "src/plugins"])
    names = []
    pool = r.sample(NAMES, r.randint(2, 5))
    if r.random() < 0.6:
        fam = r.choice(FAMILIES)
        pool = r.sample(fam, r.randint(2, min(4, len(fam)))) + pool[:1]
    for n in pool:
        if n.lower() not in [x.lower() for x in names]:
            names.append(n)
    plugs = []
    for k, n in enumerate(names):
        ok = [q.name for q in plugs if re.fullmatch(r"[A-Za-z]\w*", q.name) and r.random() < 0.4]
        w = where if r.random() < 0.8 else "more/" + r.choice(["x", "y"])
        plugs.append(Plug(r, n, w, ok, k))
    if out not in (where, "cmd/host") and r.random() < 0.25:
        # an output directory whose name begins with that of a plugin directory
        o = plugs[0].dir + r.choice(["gen", "-out", "_x", "3"])
        if not any((o + "/").startswith(p.dir + "/") or (p.dir + "/").startswith(o + "/") for p in plugs):
            out = o
    files = {"rec/rec.go": REC}
    for p in plugs:
        for k, v in list(p.source().items()) + list(p.strangers().items()):
            files[os.path.join(p.dir, k)] = v
    # the output directory
    mainout = out == "cmd/host"
    if mainout:
        files[out + "/main.go"] = HOST % {"imp": "", "v": ""}
    else:
        okind = r.choice(["empty", "source", "test", "external test", "strangers"])
        o = re.sub(r"\W", "_", os.path.basename(out))
        if o[0].isdigit() or o == "type":
            o = "_" + o
        if okind == "source":
            files[out + "/own.go"] = "package renamed\n\nvar Own = 1\n"
        elif okind == "test":
            files[out + "/own_test.go"] = "package %s\n" % o
        elif okind == "external test":
            files[out + "/own.go"] = "package %s\n" % o
            files[out + "/own_test.go"] = "package %s_test\n" % o
        elif okind == "strangers":
            for s in ("hotswap.staticPluginInit.go.txt", "hotswap.staticPluginInit.cat.go.bak", "hotswap.staticPlugins.go.orig", "my.hotswap.staticPluginInit.cat.txt", "hotswap.main.txt"):
                files[out + "/" + s] = "t"
        files["host/main.go"] = HOST % {"imp": '\n\tout "example.com/m/%s"\n' % out, "v": "out."}
    write_tree(m, files)
    os.makedirs(os.path.join(m, out), exist_ok=True)
    for p in plugs:
        for s in p.subs:
            os.makedirs(os.path.join(m, p.dir, s), exist_ok=True)
    known = {}          # files in the output directory -> plugin
    state = {p.name: None for p in plugs}     # None, "old" (source changed since), "new"
    ops = []
    shape = []

    def viol(msg, res=None):
        c.violation("%s (after %s)%s" % (msg, "; ".join(ops[-6:]), "\n" + res.text() if res else ""), {"kind": "cli", "case": i, "operations": ops, "out": out, "plugins": {p.name: p.dir for p in plugs}})

    def generate(p, mm, mflags=()):
        return kit.run(["build", "--staticLinking"] + list(mflags) + (["--livePrefix", p.prefix] if p.prefix else []) + [os.path.join(mm, p.dir), os.path.join(mm, out)], cwd=mm)

    n = r.randint(5, 11)
    for k in range(n):
        p = r.choice(plugs)
        op = r.choice(["generate", "generate", "generate", "regenerate", "clean", "edit"])
        if k == n - 1:
            op = "generate"
        if op == "edit":
            e = p.edit()
            ops.append("edit %s (%s)" % (p.name, e))
            shape.append("edit " + e)
            for f, v in p.source().items():
                write(os.path.join(m, p.dir, f), v)
            if state[p.name] == "new":
                state[p.name] = "old"
            continue
        before = snapshot(m)
        flags = r.choice([[], [], ["-v"], ["--leaveTemps"], ["--goBuild=false"]])
        if op == "clean":
            res = kit.run(["build", "--staticLinking", "--clean"] + flags + [p.dir, out], cwd=m)
        else:
            res = generate(p, m, flags)
        ops.append("%s %s %s" % (op, p.name, " ".join(flags)))
        shape.append(op)
        c.evaluations += 1
        c.extra["commands"] = c.extra.get("commands", 0) + 1
        if res.rc != 0:
            viol("%s of %s failed" % (op, p.name), res)
            return
        after = snapshot(m)
        if op != "clean":
            for f in after:
                if f not in before and os.path.dirname(f) == out and re.match(r"hotswap\.staticPluginInit\..*\.go$", os.path.basename(f)):
                    known[f] = p.name
        for d in diff(before, after):
            f = d.split(": ")[0]
            o = owner(f, plugs, out, known)
            if o == "shared" and op != "clean":
                continue
            if o != p.name:
                viol("%s of %s touched something else: %s" % (op, p.name, d))
                return
        mine = {f for f in after if owner(f, plugs, out, known) == p.name}
        if op == "clean":
            state[p.name] = None
            mine = {f for f in mine if not (f.endswith("/hotswapbureau") and any(x.startswith(f + "/") for x in after))}
            if mine:
                viol("--clean of %s leaves %s" % (p.name, sorted(mine)))
                return
            for f in [f for f, o in known.items() if o == p.name]:
                del known[f]
        else:
            if state[p.name] == "new" and diff(before, after):
                viol("generating %s again changes %s" % (p.name, diff(before, after)[:4]))
                return
            state[p.name] = "new"
            if op == "regenerate":
                res = generate(p, m)
                again = snapshot(m)
                c.evaluations += 1
                if res.rc != 0 or diff(after, again):
                    viol("generating %s again changes %s" % (p.name, diff(after, again)[:4]), res)
                    return
    for p in plugs:
        if state[p.name] == "old":
            generate(p, m)
            ops.append("generate %s at the end" % p.name)
            state[p.name] = "new"
    have = [p for p in plugs if state[p.name]]
    # The order of events must not matter: the same in one go.
    m2 = kit.module("h%d-fresh" % i)
    for f, v in files.items():
        write(os.path.join(m2, f), v)
    for p in plugs:
        for f, v in p.source().items():
            write(os.path.join(m2, p.dir, f), v)
    os.makedirs(os.path.join(m2, out), exist_ok=True)
    for p in plugs:
        for s in p.subs:
            os.makedirs(os.path.join(m2, p.dir, s), exist_ok=True)
    for p in sorted(have, key=lambda p: p.name):
        res = generate(p, m2)
        if res.rc != 0:
            viol("generating %s failed" % p.name, res)
            return
    d = [x for x in diff(snapshot(m2), snapshot(m)) if have or "hotswap.staticPlugins.go" not in x]
    c.evaluations += 1
    if d:
        viol("the files are not those of generating the same plugins once: %s" % d[:5])
        return
    # Does it compile, and what is registered?
    pk = out if mainout else "host"
    b = kit.go(["build", "-o", "host.exe", "./" + pk], cwd=m)
    if b.returncode != 0:
        viol("the static linking code does not compile: " + b.stdout[-2500:])
        return
    ask = {p.name: sorted(x for _, x in p.live) for p in have}
    o = c.sh([os.path.join(m, "host.exe"), json.dumps(ask)], cwd=m, timeout=60)
    l = [x for x in o.stdout.split("\n") if x.startswith("\x01")]
    if not l:
        viol("a program with the static linking code died: " + o.stdout[-2500:])
        return
    a = json.loads(l[0][1:])
    errs = []
    names = {p.name: p.name for p in have}
    if a["Names"] != names:
        errs.append("registered are %s instead of %s" % (a["Names"], names))
    if a["Err"]:
        errs.append(a["Err"])
    deps_ok = all(state[x] for p in have for x in p.deps)
    if not deps_ok:
        if "unknown dependency" in a["Err"]:
            errs = errs[:-1]
    elif not errs:
        for p in have:
            w = sorted(["Reloadable", "Export", "Import", "OnLoad data", "OnInit"] + ["dep %s exported by %s" % (x, x) for x in p.deps])
            if sorted(a["Logs"].get(p.name, [])) != w:
                errs.append("%s: calls %s instead of %s" % (p.name, sorted(a["Logs"].get(p.name, [])), w))
            if "OnFree" not in a["Freed"].get(p.name, []):
                errs.append("%s: OnFree is not called after a failure" % p.name)
            if a["Invoke"].get(p.name) != "%s hello [1 two] <nil>" % p.name:
                errs.append("%s: InvokeFunc answers %s" % (p.name, a["Invoke"].get(p.name)))
            for (_, n), kind in p.live.items():
                got = a["Live"][p.name].get(n, "")
                if got != n + " <nil>" if kind == "func" else not got.endswith("." + n + " <nil>") or not got.startswith("*"):
                    errs.append("%s: live %s %s answers %s" % (p.name, kind, n, got))
        c.extra["plugins_called"] = c.extra.get("plugins_called", 0) + len(have)
    c.evaluations += 1 + len(have)
    if errs:
        viol("; ".join(errs[:5]))
        return
    # and away again
    snap = snapshot(m)
    for p in r.sample(have, len(have)):
        res = kit.run(["build", "--staticLinking", "--clean", p.dir, out], cwd=m)
        if res.rc != 0:
            viol("clean of %s failed" % p.name, res)
            return
    m3 = kit.module("h%d-user" % i)
    for f, v in files.items():
        write(os.path.join(m3, f), v)
    for p in plugs:
        for f, v in p.source().items():
            write(os.path.join(m3, p.dir, f), v)
    os.makedirs(os.path.join(m3, out), exist_ok=True)
    for p in plugs:
        for s in p.subs:
            os.makedirs(os.path.join(m3, p.dir, s), exist_ok=True)
    d = [x for x in diff(snapshot(m3), snapshot(m)) if "hotswap.staticPlugins.go" not in x and not x.startswith("host.exe")]
    if d:
        viol("cleaning everything does not bring back the user's files: %s" % d[:5])
    elif i % 3 == 0:
        # The program is left without plugins.
        c.evaluations += 1
        b = kit.go(["build", "-o", "host.exe", "./" + pk], cwd=m)
        o = c.sh([os.path.join(m, "host.exe"), "{}"], cwd=m, timeout=60) if b.returncode == 0 else b
        l = [x for x in o.stdout.split("\n") if x.startswith("\x01")]
        if not l or json.loads(l[0][1:])["Names"]:
            viol("after everything was cleaned, the program does not compile or still has plugins: " + o.stdout[-1500:])
    sigs.add(digest((shape, out, sorted(names))))
    if len(c.samples) < 6:
        c.samples.append({"history": i, "operations": ops, "output": out, "registered": sorted(names)})


def run(c, replay):
    kit = Kit(c)
    sigs = set()
    kit.parallel(lambda i: history(c, kit, i, sigs), cases(c, replay, 40, 400), 8)
    c.distinct = len(sigs)
    c.rule = ("histories of generating, regenerating, editing and cleaning for several plugins; each command may change only its plugin's own generated files, the result must equal generating once in order, compile, "
              "and register exactly these plugins, whose functions are called through the library; distinct by operations, layout and plugins left")
