package rt

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"plugin"
	"reflect"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/slog"
)

// Dependency graphs of many plugins: dense ones, deep ones and wide ones, in which
// the number of paths is astronomical.

type dense struct {
	rng   *rand.Rand
	dir   string
	names []string
	deps  map[string][]string // by name
	ver   map[string]int
	log   []string // "OnLoad name"
	fault string   // this plugin's OnInit fails
}

func (d *dense) write(name string) {
	d.ver[name]++
	must(os.WriteFile(filepath.Join(d.dir, name+".so"), []byte(fmt.Sprintf("DENSE %s %d", name, d.ver[name])), 0644))
}

func (d *dense) open(path string) (*plugin.Plugin, error) {
	progress.Add(1)
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	f := strings.Fields(string(data))
	if len(f) != 3 || f[0] != "DENSE" {
		return nil, errors.New("invalid ELF header")
	}
	name := f[1]
	var imp interface{}
	if a := d.deps[name]; len(a) > 0 {
		fields := make([]reflect.StructField, len(a))
		for i, x := range a {
			fields[i] = reflect.StructField{Name: strings.ToUpper(x[:1]) + x[1:], Type: reflect.TypeOf((*interface{})(nil)).Elem()}
		}
		imp = reflect.New(reflect.StructOf(fields)).Interface()
	}
	do := func(fn string) { d.log = append(d.log, fn+" "+name); progress.Add(1) }
	return plugin.VerifNew("verif/dense/"+name+f[2], map[string]any{
		"OnLoad": func(data interface{}) error { do("OnLoad"); return nil },
		"OnInit": func(v *vault.Vault) error {
			do("OnInit")
			if d.fault == name {
				return errors.New("refused")
			}
			return nil
		},
		"OnFree":           func() { do("OnFree") },
		"Export":           func() interface{} { return name },
		"Import":           func() interface{} { return imp },
		"InvokeFunc":       func(fn string, params ...interface{}) (interface{}, error) { return f[2], nil },
		"Reloadable":       func() bool { return true },
		"HotswapLiveFuncs": func() map[string]interface{} { return map[string]interface{}{} },
		"HotswapLiveTypes": func() map[string]func() interface{} { return map[string]func() interface{}{} },
	}), nil
}

// sound tells whether the dependencies of all plugins form no cycle.
func (d *dense) sound() bool {
	left := map[string]int{}
	users := map[string][]string{}
	var ready []string
	for _, n := range d.names {
		left[n] = len(d.deps[n])
		if left[n] == 0 {
			ready = append(ready, n)
		}
		for _, x := range d.deps[n] {
			users[x] = append(users[x], n)
		}
	}
	n := 0
	for ; len(ready) > 0; n++ {
		x := ready[0]
		ready = ready[1:]
		for _, u := range users[x] {
			if left[u]--; left[u] == 0 {
				ready = append(ready, u)
			}
		}
	}
	return n == len(d.names)
}

// closed tells whether everything that imports a rebuilt plugin is rebuilt.
func (d *dense) closed(rebuilt map[string]bool) bool {
	for _, n := range d.names {
		if !rebuilt[n] {
			for _, x := range d.deps[n] {
				if rebuilt[x] {
					return false
				}
			}
		}
	}
	return true
}

// inOrder verifies that fn was called once on each of the plugins in set, dependencies first (or last).
func (d *dense) inOrder(fn string, set map[string]bool, last bool) string {
	at := map[string]int{}
	for i, l := range d.log {
		if f, n, _ := strings.Cut(l, " "); f == fn {
			if _, ok := at[n]; ok {
				return fmt.Sprintf("%s of %s was called twice", fn, n)
			}
			at[n] = i
		}
	}
	for n := range set {
		i, ok := at[n]
		if !ok {
			return fmt.Sprintf("%s of %s was not called", fn, n)
		}
		for _, x := range d.deps[n] {
			if j, ok := at[x]; ok && (j > i) != last {
				return fmt.Sprintf("%s of %s and %s, which it imports, were called in the wrong order", fn, n, x)
			}
		}
	}
	if len(at) != len(set) {
		return fmt.Sprintf("%s was called on %d plugins, not %d", fn, len(at), len(set))
	}
	return ""
}

func (d *dense) run(rec *Rec, viol func(prop, f string, a ...any)) {
	rng := d.rng
	must(os.MkdirAll(d.dir, 0755))
	n := pick(rng, 10, 20, 40, 80)
	kind := pick(rng, "total order", "layers", "ladder", "chain", "star", "random", "random")
	perm := rng.Perm(n)
	d.deps, d.ver = map[string][]string{}, map[string]int{}
	for i := 0; i < n; i++ {
		d.names = append(d.names, fmt.Sprintf("p%03d", perm[i]))
	}
	edge := func(i, j int) { d.deps[d.names[i]] = append(d.deps[d.names[i]], d.names[j]) } // i imports j
	k := 2 + rng.IntN(4)
	for i := range d.names {
		for j := 0; j < i; j++ {
			var on bool
			switch kind {
			case "total order":
				on = true
			case "layers":
				on = i/k == j/k+1
			case "ladder":
				on = i-j <= k
			case "chain":
				on = i == j+1
			case "star":
				on = j == 0 || i == n-1
			case "random":
				on = rng.IntN(k) == 0
			}
			if on {
				edge(i, j)
			}
		}
	}
	back := ""
	if rng.IntN(3) == 0 {
		j := rng.IntN(n)
		i := j + rng.IntN(n-j) // possibly itself
		back = fmt.Sprintf(" and %d imports %d", j, i)
		edge(j, i)
		for _, l := range d.deps {
			rng.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
		}
	}
	delay := pick(rng, 0, time.Minute)
	what := fmt.Sprintf("%d plugins, %s (%d)%s", n, kind, k, back)
	sw := hotswap.NewPluginManagerSwapper(d.dir, hotswap.WithLogger(slog.NewDumbLogger()), hotswap.WithFreeDelay(delay))
	hotswapOpen = d.open
	defer func() { hotswapOpen = nil }()
	all := map[string]bool{}
	for _, x := range d.names {
		d.write(x)
		all[x] = true
	}
	judge := func(err error, want bool, when string) bool {
		rec.hit("R09", what+" "+when)
		if (err == nil) == want {
			return true
		}
		if err != nil {
			viol("R09", "%s was refused (%s): %s", what, when, firstLine(err))
		} else {
			viol("R09", "%s was accepted (%s)", what, when)
		}
		return false
	}
	order := func(fn string, set map[string]bool, last bool, when string) {
		rec.hit("R04", fmt.Sprintf("%s, %s of %d %s", what, fn, len(set), when))
		if s := d.inOrder(fn, set, last); s != "" {
			viol("R04", "%s (%s): %s", what, when, s)
		}
	}
	if rng.IntN(4) == 0 {
		d.fault = pick(rng, d.names...)
	}
	_, err := sw.LoadPlugins(nil)
	rec.count("large_graphs", 1)
	sound := d.sound()
	if !sound || d.fault == "" {
		if !judge(err, sound, "first load") || !sound {
			return
		}
	}
	if d.fault != "" {
		order("OnLoad", all, false, "in a load that fails")
		order("OnFree", all, true, "in a load that fails")
		d.fault = ""
		for _, x := range d.names {
			d.write(x)
		}
		d.log = nil
		if _, err = sw.LoadPlugins(nil); !judge(err, true, "load after a failed one") {
			return
		}
	}
	order("OnLoad", all, false, "loading")
	order("OnInit", all, false, "loading")
	for r, rounds := 0, 1+rng.IntN(3); r < rounds; r++ {
		rebuilt := map[string]bool{}
		for m := 1 + rng.IntN(3); m > 0; m-- {
			rebuilt[pick(rng, d.names...)] = true
		}
		if rng.IntN(4) > 0 { // and everything that depends on them
			for again := true; again; {
				again = false
				for _, x := range d.names {
					for _, y := range d.deps[x] {
						if rebuilt[y] && !rebuilt[x] {
							rebuilt[x], again = true, true
						}
					}
				}
			}
		}
		for _, x := range d.names {
			if rebuilt[x] {
				d.write(x)
			}
		}
		d.log = nil
		ok := d.closed(rebuilt)
		_, err = sw.Reload(nil)
		if !judge(err, ok, fmt.Sprintf("reload of %d", len(rebuilt))) {
			return
		}
		if !ok {
			// The files cannot be used any more.
			for _, x := range d.names {
				d.write(x)
			}
			d.log, rebuilt = nil, all
			if _, err = sw.Reload(nil); !judge(err, true, "reload of all") {
				return
			}
		}
		order("OnLoad", rebuilt, false, "reloading")
		order("OnInit", rebuilt, false, "reloading")
		pos := map[string]int{}
		for i, p := range sw.Current().Plugins() {
			pos[p.Name] = i
		}
		for x, l := range d.deps {
			for _, y := range l {
				if pos[y] > pos[x] {
					viol("R04", "%s: Plugins() lists %s before %s, which it imports", what, x, y)
				}
			}
		}
		time.Sleep(time.Hour)
		synctest.Wait()
		order("OnFree", rebuilt, true, "after a reload")
	}
}

// Dense runs one history of large dependency graphs.
func Dense(t *testing.T, rec *Rec, root string, seed, idx uint64) (viols []Viol, trace []string) {
	dir := filepath.Join(root, fmt.Sprintf("d%d", idx))
	synctest.Test(t, func(t *testing.T) {
		d := &dense{rng: rand.New(rand.NewPCG(seed, idx+3<<40)), dir: dir}
		d.run(rec, func(prop, f string, a ...any) { viols = append(viols, Viol{prop, fmt.Sprintf(f, a...)}) })
		for _, x := range d.names {
			trace = append(trace, x+" imports "+strings.Join(d.deps[x], " "))
		}
	})
	_ = os.RemoveAll(dir)
	return
}
