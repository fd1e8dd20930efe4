package rt

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"plugin"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/slog"
)

// cInst is one running instance in a concurrent history. Its plain fields are
// written by plugin functions without any synchronisation of their own: the
// library has to order them, and the race detector watches.
type cInst struct {
	id, name string
	loads    int
	inits    int
	freed    int
	ready    bool
	data     interface{}
	calls    *atomic.Int64
}

// cWorld is a concurrent history.
type cWorld struct {
	race   bool // built with the race detector: no synchronisation that could hide a race
	rng    *rand.Rand
	dir    [2]string
	sw     *hotswap.PluginManagerSwapper
	nextID atomic.Int64

	ldMu  sync.Mutex // the dynamic loader has a lock of its own, too
	insts []*cInst
	byID  map[string]bool

	canary int      // plain: written by callbacks
	byGo   sync.Map // goroutine -> load in progress (not in race mode)
	clock  atomic.Int64
	yield  int
	panics bool
	static bool
	clean  bool              // nothing can keep a load from succeeding
	inner  int               // which method of the swapper plugin functions and callbacks call
	stat   map[string]*cInst // the instance that the load in progress is making; plain, as loads do not overlap

	vmu   sync.Mutex
	viols []Viol
}

func (c *cWorld) viol(prop, f string, a ...interface{}) {
	c.vmu.Lock()
	defer c.vmu.Unlock()
	if len(c.viols) < 30 {
		c.viols = append(c.viols, Viol{prop, fmt.Sprintf(f, a...)})
	}
}

func (c *cWorld) tick() int64 { return c.clock.Add(1) }

func (c *cWorld) pause() {
	for i := 0; i < c.yield; i++ {
		runtime.Gosched()
	}
}

// bump tells the watchdog that there is life, without synchronising anything.
//
//go:norace
func bump() { bumps++ }

var bumps int64

//go:norace
func progressNow() int64 { return bumps + progress.Load() }

type cData struct {
	id     int64
	fail   int // fail at OnLoad(1), OnInit(2), configured callback(3), extra callback(4); panic if >10
	newM   mgrPtr
	oldM   mgrPtr
	lo, hi int64 // the span in which plugin functions and callbacks of this load were seen running
	cbSeq  int64
}

// hook notes that the library is inside the load that runs in this goroutine.
func (c *cWorld) hook() {
	switch c.inner {
	case 1:
		if c.sw.ReloadCounter() < 0 || c.sw.StaticLinkingMode() != c.static {
			c.viol("R13", "odd counter or mode")
		}
	case 2:
		c.sw.ResetPluginDir(c.dir[0])
	case 3:
		if m := c.sw.Current(); m != nil && len(m.Plugins()) == 0 {
			c.viol("R02", "a generation without plugins")
		}
	}
	if c.race {
		return
	}
	if x, ok := c.byGo.Load(goid()); ok {
		d := x.(*cData)
		t := c.tick()
		if d.lo == 0 {
			d.lo = t
		}
		d.hi = t
	}
}

func (c *cWorld) fail(d *cData, at int) error {
	if d == nil || d.fail%10 != at {
		return nil
	}
	if d.fail > 10 {
		panic("conc fault")
	}
	return errors.New("conc fault")
}

func (c *cWorld) open(path string) (*plugin.Plugin, error) {
	bump()
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	f := strings.Fields(string(data))
	if len(f) < 3 {
		return nil, errors.New("not a plugin")
	}
	c.ldMu.Lock()
	defer c.ldMu.Unlock()
	if c.byID[f[1]] {
		return nil, errors.New("plugin already loaded")
	}
	c.byID[f[1]] = true
	in := &cInst{id: f[1], name: f[2], calls: &atomic.Int64{}}
	c.insts = append(c.insts, in)
	return plugin.VerifNew("verif/"+in.id, c.syms(in)), nil
}

// syms are the functions of one instance.
func (c *cWorld) syms(in *cInst) map[string]any {
	var imp interface{}
	switch in.name {
	case "beta":
		imp = &struct{ Alpha interface{} }{}
	case "gamma":
		imp = &struct{ Alpha, Beta interface{} }{}
	}
	return map[string]any{
		"Reloadable": func() bool { c.hook(); c.pause(); return in.name != "fixed" },
		"Export":     func() interface{} { return in },
		"Import":     func() interface{} { c.hook(); c.pause(); return imp },
		"OnLoad": func(x interface{}) error {
			bump()
			d, _ := x.(*cData)
			c.hook()
			in.loads++
			in.data = x
			c.pause()
			return c.fail(d, 1)
		},
		"OnInit": func(v *vault.Vault) error {
			bump()
			d, _ := in.data.(*cData)
			c.hook()
			if in.loads != 1 {
				c.viol("R03", "OnInit of %s ran after %d OnLoad calls", in.id, in.loads)
			}
			in.inits++
			v.DataBag[in.id] = in
			c.pause()
			if err := c.fail(d, 2); err != nil {
				return err
			}
			in.ready = true
			return nil
		},
		"OnFree": func() {
			bump()
			c.hook()
			c.pause()
			in.freed++
			if in.freed > 1 {
				c.viol("R05", "%s was freed %d times", in.id, in.freed)
				c.viol("R13", "%s was freed %d times", in.id, in.freed)
			}
			if c.panics && in.id[len(in.id)-1]%3 == 0 {
				panic("conc OnFree")
			}
		},
		"InvokeFunc": func(name string, p ...interface{}) (interface{}, error) {
			bump()
			if !in.ready {
				c.viol("R02", "%s is visible before its OnInit finished", in.id)
			}
			if len(p) == 1 && p[0] == "current" && in.freed > 0 {
				c.viol("R05", "%s was freed while it is part of the current generation", in.id)
			}
			if c.panics && name == "panic" {
				panic("conc invoke")
			}
			return in, nil
		},
		"HotswapLiveFuncs": func() map[string]interface{} {
			return map[string]interface{}{"live_" + in.name: func() string { return in.id }}
		},
		"HotswapLiveTypes": func() map[string]func() interface{} {
			return map[string]func() interface{}{"Live_" + in.name: func() interface{} { return &ExpA{in.id} }}
		},
	}
}

// staticPlugin stands for the plugin in every load: a load makes an instance of its own.
func (c *cWorld) staticPlugin(name string) *hotswap.StaticPlugin {
	cur := func() map[string]any { return c.syms(c.stat[name]) }
	live := &cInst{id: "static", name: name}
	return &hotswap.StaticPlugin{Name: name, PluginFuncs: hotswap.NewPluginFuncs(
		func() interface{} { return c.stat[name] },
		c.syms(live)["HotswapLiveFuncs"].(func() map[string]interface{}),
		c.syms(live)["HotswapLiveTypes"].(func() map[string]func() interface{}),
		func() interface{} { return cur()["Import"].(func() interface{})() },
		func(f string, p ...interface{}) (interface{}, error) {
			bump()
			if c.panics && f == "panic" {
				panic("conc invoke")
			}
			return live, nil
		},
		func() { cur()["OnFree"].(func())() },
		func(v *vault.Vault) error { return cur()["OnInit"].(func(*vault.Vault) error)(v) },
		func(x interface{}) error { return cur()["OnLoad"].(func(interface{}) error)(x) },
		func() bool {
			in := &cInst{id: fmt.Sprintf("st%d", c.nextID.Add(1)), name: name, calls: &atomic.Int64{}}
			c.stat[name] = in
			c.insts = append(c.insts, in)
			return cur()["Reloadable"].(func() bool)()
		},
	)}
}

func (c *cWorld) build(name string, rng *rand.Rand) {
	for _, d := range c.dir {
		id := c.nextID.Add(1)
		p := filepath.Join(d, name+".so")
		t := fmt.Sprintf("%s.%d", p, id)
		if c.clean {
			t = fmt.Sprintf("%s-%s.%d", d, name, id) // a vanishing file may be what keeps a load from succeeding
		}
		must(os.WriteFile(t, []byte(fmt.Sprintf("CONC id%d %s", id, name)), 0644))
		must(os.Rename(t, p))
	}
}

type regIn struct {
	load     bool
	old, new mgrPtr
}

// Conc runs one concurrent history: loaders, readers, a builder and background
// frees, all in a bubble of virtual time but on real threads.
func Conc(t *testing.T, rec *Rec, root string, seed, idx uint64, race bool) (viols []Viol, trace []string) {
	dir := filepath.Join(root, fmt.Sprintf("x%d", idx))
	defer os.RemoveAll(dir)
	synctest.Test(t, func(t *testing.T) {
		c := &cWorld{race: race, rng: rand.New(rand.NewPCG(seed, idx+2<<40)), byID: map[string]bool{}}
		c.run(rec, dir)
		viols = c.viols
	})
	trace = append(trace, fmt.Sprintf("concurrent history %d", idx))
	for _, v := range viols {
		trace = append(trace, "!! ["+v.Prop+"] "+v.Msg)
	}
	return
}

func (c *cWorld) run(rec *Rec, dir string) {
	rng := c.rng
	for i := range c.dir {
		c.dir[i] = filepath.Join(dir, fmt.Sprint(i))
		must(os.MkdirAll(c.dir[i], 0755))
	}
	hotswapOpen = c.open
	defer func() { hotswapOpen = nil }()
	names := []string{"alpha", "beta", "gamma", "delta", "fixed"}[:1+rng.IntN(5)]
	if c.clean = rng.IntN(4) == 0; c.clean {
		names = []string{"alpha", "delta", "fixed"}[:1+rng.IntN(3)]
	}
	for _, n := range names {
		c.build(n, rng)
	}
	c.yield = pick(rng, 0, 0, 1, 3, 20)
	c.panics = rng.IntN(3) == 0
	c.inner = pick(rng, 0, 0, 0, 1, 2, 3)
	delay := pick(rng, 0, 15*time.Second, 20*time.Second, 60*time.Second)
	cb := func(nm, om mgrPtr) error {
		bump()
		c.canary++ // ordered by the library, or not at all
		d := c.dataOf(nm)
		c.hook()
		if d != nil {
			d.newM, d.oldM = nm, om
		}
		c.pause()
		if d != nil {
			if err := c.fail(d, 3); err != nil {
				return err
			}
			if !c.race {
				d.cbSeq = c.tick()
			}
		}
		return nil
	}
	opts := []hotswap.Option{hotswap.WithLogger(slog.NewDumbLogger()), hotswap.WithFreeDelay(delay),
		hotswap.WithReloadCallback(cb), hotswap.WithExtensionNewer(func() interface{} { return new(int) })}
	if rng.IntN(6) == 0 {
		opts = append(opts, hotswap.WithWhitelist(names...))
	}
	if c.static = !c.clean && rng.IntN(6) == 0; c.static {
		c.stat = map[string]*cInst{}
		m := map[string]*hotswap.StaticPlugin{}
		for _, n := range names {
			if n == "fixed" {
				continue // beta and gamma may be imported by reloadable plugins only
			}
			m[n] = c.staticPlugin(n)
		}
		if len(opts) > 4 {
			opts = opts[:4]
		}
		opts = append(opts, hotswap.WithStaticPlugins(m))
	}
	c.sw = hotswap.NewPluginManagerSwapper(c.dir[0], opts...)

	var okReloads atomic.Int64
	var okReloadsP []int // per goroutine, for race mode
	G := 2 + rng.IntN(6)
	okReloadsP = make([]int, G)
	nops := 3 + rng.IntN(8)
	type rd struct {
		call, ret int64
		v         mgrPtr
	}
	type ldRec struct {
		call, ret int64
		d         *cData
		om, nm    mgrPtr
		ok        bool
	}
	reads := make([][]rd, G)
	loadsR := make([][]ldRec, G)
	seeds := make([]uint64, G)
	for i := range seeds {
		seeds[i] = rng.Uint64()
	}
	step := pick(rng, time.Second, 5*time.Second, 15*time.Second)
	useMove := !c.clean && rng.IntN(3) == 0
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewPCG(seeds[g], 1))
			loader := g < 2 || rng.IntN(2) == 0
			for i := 0; i < nops; i++ {
				bump()
				if rng.IntN(3) == 0 {
					time.Sleep(time.Duration(rng.IntN(4)) * step)
				}
				if loader && rng.IntN(2) == 0 {
					if rng.IntN(2) == 0 {
						for k, n := 0, 1+rng.IntN(3); k < n; k++ {
							c.build(names[rng.IntN(len(names))], rng)
						}
					}
					d := &cData{id: int64(g)*1000 + int64(i) + 1}
					if !c.clean && rng.IntN(4) == 0 {
						d.fail = pick(rng, 1, 2, 3, 4, 11, 12, 13, 14)
					}
					l := ldRec{d: d}
					var extraN, extraO mgrPtr
					nextra := 0
					extra := func(nm, om mgrPtr) error {
						nextra++
						extraN, extraO = nm, om
						c.hook()
						c.canary++
						c.pause()
						if err := c.fail(d, 4); err != nil {
							return err
						}
						if !c.race {
							d.cbSeq = c.tick()
						}
						return nil
					}
					if !c.race {
						c.byGo.Store(goid(), d)
						l.call = c.tick()
					}
					var err error
					var det hotswap.Details
					kind := rng.IntN(4)
					if c.static {
						if kind == 1 {
							if _, err := c.sw.ReloadWithCallback(d, extra); err == nil || nextra > 0 {
								c.viol("R14", "a reload under static linking: error %v, callback called %d times", err, nextra)
							}
						}
						kind = 0
					}
					switch kind {
					case 0:
						det, err = c.sw.LoadPlugins(d)
					case 1:
						det, err = c.sw.Reload(d)
					default:
						det, err = c.sw.ReloadWithCallback(d, extra)
					}
					if err == nil && len(strings.Split(det.String(), ", ")) != len(det) {
						c.viol("R07", "odd details: %s", det)
					}
					if !c.race {
						l.ret = c.tick()
						c.byGo.Delete(goid())
					}
					l.ok = err == nil
					if c.clean && err != nil {
						c.viol("R13", "a load without any fault fails beside other calls: %v", err)
					}
					if l.ok && !c.race && d.newM == nil {
						c.viol("R17", "a load was successful, but its callback was not called")
						if c.static {
							c.viol("R14", "a load was successful, but its callback was not called")
						}
					}
					if err == nil && kind > 0 {
						okReloads.Add(1)
						okReloadsP[g]++
					}
					if kind > 1 && err == nil && nextra != 1 {
						c.viol("R17", "the extra callback was called %d times", nextra)
					}
					if kind > 1 {
						l.nm, l.om = extraN, extraO
					}
					loadsR[g] = append(loadsR[g], l)
					continue
				}
				switch rng.IntN(7) {
				case 0, 1, 2:
					r := rd{}
					if !c.race {
						r.call = c.tick()
					}
					r.v = c.sw.Current()
					if !c.race {
						r.ret = c.tick()
					}
					reads[g] = append(reads[g], r)
					if r.v != nil {
						for _, pl := range r.v.Plugins() {
							_, _ = pl.InvokeFunc("whoami")
							if r.v.FindPlugin(strings.ToUpper(pl.Name)) != pl {
								c.viol("R12", "FindPlugin(%s) finds another plugin", pl.Name)
							}
							var f func() bool
							if err := pl.Lookup("Reloadable", &f); (err == nil) == c.static || (f == nil) != c.static {
								c.viol("R15", "Lookup of Reloadable: %v", err)
							}
							if err := pl.Lookup("Nothing", &f); err == nil || !c.static && err != hotswap.ErrNotExist {
								c.viol("R15", "Lookup of a symbol that does not exist: %v", err)
							}
							_ = pl.Note + pl.File
							_ = len(pl.Deps)
						}
					}
				case 3:
					if m := c.sw.Current(); m != nil {
						name := pick(rng, "x", "panic")
						if rng.IntN(2) == 0 {
							m.InvokeEach(name, 1, 2)
						} else {
							m.InvokeEachBackward(name, 1, 2)
						}
					}
				case 4:
					if m := c.sw.Current(); m != nil {
						n := 0
						for k, f := range m.LiveFuncs {
							if f.(func() string)() == "" || k == "" {
								c.viol("R10", "odd live function")
							}
							n++
						}
						for _, f := range m.LiveTypes {
							_ = f().(*ExpA).ID
						}
						for range m.DataBag {
							n++
						}
						_ = m.Extension.(*int)
					}
				case 5:
					a := c.sw.ReloadCounter()
					if b := c.sw.ReloadCounter(); b < a {
						c.viol("R13", "ReloadCounter went from %d to %d", a, b)
					}
					if c.sw.StaticLinkingMode() != c.static {
						c.viol("R14", "StaticLinkingMode() is %v", !c.static)
					}
				case 6:
					if useMove {
						c.sw.ResetPluginDir(c.dir[rng.IntN(2)])
					}
				}
			}
		}()
	}
	wg.Wait()
	total := 0
	for _, n := range okReloadsP {
		total += n
	}
	if n := c.sw.ReloadCounter(); n != int64(total) {
		c.viol("R13", "ReloadCounter is %d after %d reloads without error", n, total)
	}
	time.Sleep(delay + 10*time.Minute)
	synctest.Wait()
	// Everything that is not current has been freed exactly once.
	cur := map[*cInst]bool{}
	if m := c.sw.Current(); m != nil {
		for _, pl := range m.Plugins() {
			x, _ := pl.InvokeFunc("whoami", "current")
			in, _ := x.(*cInst)
			cur[in] = true
		}
	}
	for _, in := range c.insts {
		want := 1
		if cur[in] {
			want = 0
		}
		if c.static {
			want = in.freed // generations of static plugins are not released
		}
		if in.freed != want {
			c.viol("R05", "%s (%s) was freed %d times, want %d (current: %v)", in.id, in.name, in.freed, want, cur[in])
		}
		if in.loads > 1 || in.inits > 1 {
			c.viol("R03", "%s: %d OnLoad and %d OnInit calls", in.id, in.loads, in.inits)
		}
		rec.eval("R05", 1)
	}
	nl, nok, nr := 0, 0, 0
	for g := range loadsR {
		nr += len(reads[g])
		for _, l := range loadsR[g] {
			nl++
			if l.ok {
				nok++
			}
		}
	}
	rec.count("conc_histories", 1)
	if c.static {
		rec.count("conc_static_histories", 1)
	}
	if c.clean {
		rec.count("conc_faultless_loads", nl)
	}
	rec.count("conc_loads", nl)
	rec.count("conc_loads_ok", nok)
	rec.count("conc_reads", nr)
	rec.count("conc_instances", len(c.insts))
	rec.eval("R13", nl+nr)
	sig := fmt.Sprintf("static=%v G=%d loads=%d ok=%d reads=%d plugins=%d instances=%d delay=%s yield=%d", c.static, G, nl, nok, nr, len(names), len(c.insts), delay, c.yield)
	if nok >= 2 && nl >= 3 {
		rec.hit("R13", sig)
	}
	if c.race {
		return
	}

	// Loads take place one at a time.
	var spans []*cData
	for g := range loadsR {
		for _, l := range loadsR[g] {
			if l.d.hi > l.d.lo {
				spans = append(spans, l.d)
			}
		}
	}
	sort.Slice(spans, func(i, j int) bool { return spans[i].lo < spans[j].lo })
	for i := 1; i < len(spans); i++ {
		if a, b := spans[i-1], spans[i]; b.lo < a.hi {
			c.viol("R13", "loads %d [%d,%d] and %d [%d,%d] overlap", a.id, a.lo, a.hi, b.id, b.lo, b.hi)
		}
	}

	// One atomic register, updated by successful loads.
	var ops []porcupine.Operation
	gens := map[mgrPtr]*cData{}
	for g := range loadsR {
		for _, l := range loadsR[g] {
			if !l.ok {
				continue
			}
			nm, om := l.d.newM, l.d.oldM
			if l.nm != nil {
				if nm != nil && (nm != l.nm || om != l.om) {
					c.viol("R17", "the two callbacks of a load got different managers")
				}
				nm, om = l.nm, l.om
			}
			if nm == nil {
				continue
			}
			gens[nm] = l.d
			ops = append(ops, porcupine.Operation{ClientId: g, Input: regIn{true, om, nm}, Call: l.call, Return: l.ret})
		}
	}
	known := len(ops) == nok
	for g := range reads {
		for _, r := range reads[g] {
			ops = append(ops, porcupine.Operation{ClientId: g, Input: regIn{}, Output: r.v, Call: r.call, Return: r.ret})
			if r.v != nil {
				if d := gens[r.v]; d == nil && known {
					c.viol("R02", "Current() returned a generation that no successful load produced")
				} else if d != nil && d.cbSeq > r.ret {
					c.viol("R02", "Current() returned a generation whose callbacks had not finished")
				}
			}
		}
	}
	if known && len(ops) > 0 {
		model := porcupine.Model{
			Init: func() any { return mgrPtr(nil) },
			Step: func(st, in, out any) (bool, any) {
				i := in.(regIn)
				if i.load {
					return st.(mgrPtr) == i.old || c.static && i.old == nil, i.new
				}
				return out.(mgrPtr) == st.(mgrPtr), st
			},
		}
		// In virtual time no wall-clock limit applies: bound the work instead.
		res := porcupine.CheckOperations(model, ops)
		rec.count("linearizability_checks", 1)
		rec.eval("R02", len(ops))
		if !res {
			sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
			var b strings.Builder
			idn := map[mgrPtr]int{nil: 0}
			nr := func(m mgrPtr) int {
				if _, ok := idn[m]; !ok {
					idn[m] = len(idn)
				}
				return idn[m]
			}
			for _, o := range ops {
				i := o.Input.(regIn)
				if i.load {
					fmt.Fprintf(&b, "\n  [%d,%d] load %d -> %d", o.Call, o.Return, nr(i.old), nr(i.new))
				} else {
					fmt.Fprintf(&b, "\n  [%d,%d] read %d", o.Call, o.Return, nr(o.Output.(mgrPtr)))
				}
			}
			c.viol("R02", "Current() and the loads do not behave like one atomic register:%s", b.String())
		} else if nok >= 1 && nr >= 1 {
			rec.hit("R02", fmt.Sprintf("register %s overlap=%d", sig, overlap(ops)))
		}
	}
}

func overlap(ops []porcupine.Operation) (n int) {
	for i := range ops {
		for j := range ops[:i] {
			if ops[i].Call < ops[j].Return && ops[j].Call < ops[i].Return {
				n++
			}
		}
	}
	return
}

// dataOf finds the load a callback belongs to: callbacks run in the loading goroutine. Under the
// race detector, where looking it up would synchronise, the new plugins know it.
func (c *cWorld) dataOf(nm mgrPtr) *cData {
	if !c.race {
		if d, ok := c.byGo.Load(goid()); ok {
			return d.(*cData)
		}
		return nil
	}
	for _, v := range nm.DataBag {
		if in, _ := v.(*cInst); in != nil {
			if d, _ := in.data.(*cData); d != nil {
				return d
			}
		}
	}
	return nil
}

func goid() string {
	var b [64]byte
	f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	return f[1]
}
