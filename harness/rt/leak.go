package rt

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"os/signal"
	"path/filepath"
	"plugin"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
	"weak"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/slog"
)

// A host that reloads for weeks. The plugins keep nothing of the generation they
// are loaded into, so that what stays reachable is kept by the library.

type leakObj struct{ pad [64]int }

// leakGen is what the harness remembers of one generation; it keeps nothing alive.
type leakGen struct {
	round int
	fate  string
	mgr   weak.Pointer[hotswap.PluginManager]
	vault weak.Pointer[vault.Vault]
	bag   weak.Pointer[leakObj]
	ext   weak.Pointer[leakObj]
}

type leaker struct {
	rng   *rand.Rand
	dir   string
	names []string
	fault string // of the load in progress
	at    string // the plugin that has it
	gen   *leakGen
	files []string // what the loader was given
	sig   []string
	odd   int // loads that ended unexpectedly
}

func (l *leaker) open(path string) (*plugin.Plugin, error) {
	progress.Add(1)
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	l.files = append(l.files, path)
	head, _, _ := strings.Cut(string(data[:min(len(data), 200)]), "\n")
	f := strings.Fields(head) // LEAK name id reloadable deps...
	if len(f) < 4 || f[0] != "LEAK" {
		return nil, errors.New("invalid ELF header")
	}
	name, id := f[1], f[2]
	hit := func(fn string) bool { return l.fault == fn && l.at == name }
	fail := func(fn string) error {
		if hit(fn + ".err") {
			return errors.New("refused")
		}
		if hit(fn + ".panic") {
			panic("oh no")
		}
		return nil
	}
	imp := importOf(f[4:])
	syms := map[string]any{
		"OnLoad": func(data interface{}) error { return fail("OnLoad") },
		"OnInit": func(v *vault.Vault) error {
			if g := l.gen; g != nil {
				g.vault = weak.Make(v)
				o := new(leakObj)
				v.DataBag[name] = o
				g.bag = weak.Make(o)
				if e, ok := v.Extension.(*leakObj); ok {
					g.ext = weak.Make(e)
				}
			}
			return fail("OnInit")
		},
		"OnFree": func() {
			if l.fault == "OnFree.panic" {
				panic("cannot be freed")
			}
		},
		"Export": func() interface{} { _ = fail("Export"); return &leakObj{} },
		"Import": func() interface{} { return imp },
		"InvokeFunc": func(fn string, params ...interface{}) (interface{}, error) {
			return id, nil
		},
		"Reloadable":       func() bool { return f[3] == "true" },
		"HotswapLiveFuncs": func() map[string]interface{} { return map[string]interface{}{"live_" + name: func() {}} },
		"HotswapLiveTypes": func() map[string]func() interface{} {
			return map[string]func() interface{}{"type_" + name: func() interface{} { return new(leakObj) }}
		},
	}
	if hit("missing") {
		delete(syms, "Export")
	}
	return plugin.VerifNew("verif/leak/"+id, syms), nil
}

type (
	leakImp0 struct{ Alpha *leakObj }
	leakImp1 struct{ Beta interface{} }
	leakImp2 struct {
		Alpha interface{}
		Beta  *leakObj
	}
)

func importOf(deps []string) interface{} {
	switch strings.Join(deps, " ") {
	case "":
		return nil
	case "alpha":
		return new(leakImp0)
	case "beta":
		return new(leakImp1)
	default:
		return new(leakImp2)
	}
}

// fds are the open files below dir.
func (l *leaker) fds() (res []string) {
	ents, _ := os.ReadDir("/proc/self/fd")
	for _, e := range ents {
		p, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(p, l.dir) {
			res = append(res, strings.TrimPrefix(p, l.dir))
		}
	}
	return
}

func libGoroutines() (res []string) {
	buf := make([]byte, 1<<20)
	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if !strings.Contains(g, "verif/rt.") && strings.Contains(g, "github.com/edwingeng/hotswap") {
			res = append(res, g)
		}
	}
	return
}

func heap() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

var leakFaults = []string{"OnLoad.err", "OnLoad.panic", "OnInit.err", "OnInit.panic", "Export.panic", "missing", "junk",
	"veto", "vetopanic", "OnFree.panic", "cycle", "nospace"}

//go:noinline
func (l *leaker) round(sw *hotswap.PluginManagerSwapper, r, pad int, fault string) *leakGen {
	write := func(name string) {
		head := fmt.Sprintf("LEAK %s %s-%d %v", name, name, r, l.rng.IntN(8) > 0 || r > 0)
		switch name {
		case "gamma":
			head += pick(l.rng, "", " alpha", " beta", " alpha beta")
		case "beta":
			if head += pick(l.rng, "", " alpha"); fault == "cycle" && !strings.HasSuffix(head, " alpha") {
				head += " alpha"
			}
		case "alpha":
			if fault == "cycle" {
				head += " beta"
			}
		}
		b := make([]byte, len(head)+1+pad)
		copy(b, head+"\n")
		if fault == "junk" && name == l.names[0] {
			copy(b, "JUNK")
		}
		must(os.WriteFile(filepath.Join(l.dir, name+".so"), b, 0644))
	}
	l.at = pick(l.rng, l.names...)
	n := 0
	for i, name := range l.names {
		if r == 0 || l.rng.IntN(2) == 0 || i == len(l.names)-1 && n == 0 || fault != "" {
			write(name)
			n++
		}
	}
	g := &leakGen{round: r, fate: fault}
	l.gen, l.fault = g, fault
	cb := func(nm, om *hotswap.PluginManager) error {
		g.mgr = weak.Make(nm)
		switch fault {
		case "veto":
			return errors.New("vetoed")
		case "vetopanic":
			panic("vetoed")
		}
		return nil
	}
	if fault == "nospace" {
		var old syscall.Rlimit
		signal.Ignore(syscall.SIGXFSZ)
		must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(1 + pad/2), Max: old.Max}))
		defer func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
	}
	var err error
	if r == 0 {
		_, err = sw.LoadPlugins(r)
	} else {
		_, err = sw.ReloadWithCallback(r, cb)
	}
	if err == nil {
		g.mgr = weak.Make(sw.Current())
		if fault == "" {
			g.fate = "published"
		}
	}
	if (err != nil) != (fault != "" && fault != "OnFree.panic") {
		l.odd++
		if os.Getenv("VERIF_DEBUG") != "" {
			panic(fmt.Sprintf("round %d with fault %q: %v", r, fault, err))
		}
	}
	l.gen = nil
	if fault != "OnFree.panic" {
		l.fault = ""
	}
	l.sig = append(l.sig, fmt.Sprintf("%s:%d", g.fate, n))
	return g
}

func (l *leaker) run(rec *Rec, viol func(f string, a ...any)) {
	rng := l.rng
	must(os.MkdirAll(l.dir, 0755))
	l.names = []string{"alpha", "beta", "gamma"}[:1+rng.IntN(3)]
	delay := pick(rng, 0, time.Second, time.Minute, 10*time.Minute)
	pad := pick(rng, 10, 1000, 100_000)
	if rng.IntN(4) == 0 {
		pad = 1 << 20
	}
	only := "" // the fault every other round has
	if rng.IntN(2) == 0 {
		only = pick(rng, leakFaults...)
	}
	rounds := 12 + rng.IntN(8)
	opts := []hotswap.Option{hotswap.WithLogger(slog.NewDumbLogger()), hotswap.WithFreeDelay(delay)}
	if rng.IntN(2) == 0 {
		opts = append(opts, hotswap.WithExtensionNewer(func() interface{} { return new(leakObj) }))
	}
	if rng.IntN(3) == 0 {
		opts = append(opts, hotswap.WithReloadCallback(func(nm, om *hotswap.PluginManager) error { return nil }))
	}
	sw := hotswap.NewPluginManagerSwapper(l.dir, opts...)
	hotswapOpen = l.open
	defer func() { hotswapOpen = nil }()

	old := debug.SetGCPercent(-1) // so that nothing is closed by chance
	defer debug.SetGCPercent(old)
	nap := pick(rng, 0, time.Second, time.Hour)
	wait := max(delay, 15*time.Second) + time.Hour
	var gens []*leakGen
	var base int64
	for r := 0; r < rounds; r++ {
		fault := ""
		if r > 0 && only != "" && r%2 == 0 {
			fault = only
		} else if r > 0 && only == "" && rng.IntN(4) == 0 {
			fault = pick(rng, leakFaults...)
		}
		if fault == "cycle" && len(l.names) < 2 {
			fault = ""
		}
		gens = append(gens, l.round(sw, r, pad, fault))
		time.Sleep(nap)
		if r == 3 {
			time.Sleep(wait)
			synctest.Wait()
			base = heap()
		}
	}
	sig := strings.Join(l.sig, " ")
	fds := l.fds()
	rec.hit("R20", fmt.Sprintf("%d plugins, %d bytes, delay %s: %s", len(l.names), pad, delay, sig))
	rec.count("leak_loads", rounds)
	rec.count("leak_loads_unexpected", l.odd)
	rec.count("leak_copies", len(l.files))
	if len(fds) > 3 {
		viol("%d file descriptors are still open after %d loads: %s", len(fds), rounds, strings.Join(fds, ", "))
	}
	time.Sleep(wait)
	synctest.Wait()
	if gs := libGoroutines(); len(gs) > 3 {
		viol("%d goroutines are still there after %d loads and all free delays:\n%s", len(gs), rounds, strings.Join(gs, "\n\n"))
	}
	rec.eval("R20", 2)
	end := heap()
	if d := end - base; d > int64((rounds-4)*pad/3)+1<<20 {
		viol("%d loads of plugin files of %d bytes left %d more bytes in use", rounds-4, pad, d)
	}
	rec.eval("R20", 1)
	cur := sw.Current()
	what := map[string][]string{}
	for _, g := range gens {
		if m := g.mgr.Value(); m != nil && m != cur {
			what["managers"] = append(what["managers"], fmt.Sprintf("%d (%s)", g.round, g.fate))
		}
		if v := g.vault.Value(); v != nil && v != &cur.Vault {
			what["vaults"] = append(what["vaults"], fmt.Sprintf("%d (%s)", g.round, g.fate))
		}
		if v := g.bag.Value(); v != nil && v != cur.Vault.DataBag[l.names[len(l.names)-1]] {
			what["data of the vault"] = append(what["data of the vault"], fmt.Sprintf("%d (%s)", g.round, g.fate))
		}
		if v := g.ext.Value(); v != nil && v != cur.Vault.Extension {
			what["extensions"] = append(what["extensions"], fmt.Sprintf("%d (%s)", g.round, g.fate))
		}
		rec.eval("R20", 4)
	}
	for k, a := range what {
		if len(a) > 3 {
			viol("%s of %d of %d generations are kept although they were replaced or refused and all free delays are over: %s",
				k, len(a), rounds, strings.Join(a, ", "))
		}
	}
	runtime.KeepAlive(sw)
}

// Leaks runs one long life of a host.
func Leaks(t *testing.T, rec *Rec, root string, seed, idx uint64) (viols []Viol, trace []string) {
	dir := filepath.Join(root, fmt.Sprintf("l%d", idx))
	synctest.Test(t, func(t *testing.T) {
		l := &leaker{rng: rand.New(rand.NewPCG(seed, idx+2<<40)), dir: dir}
		l.run(rec, func(f string, a ...any) { viols = append(viols, Viol{"R20", fmt.Sprintf(f, a...)}) })
		trace = l.sig
	})
	rec.count("leak_histories", 1)
	_ = os.RemoveAll(dir)
	return
}
