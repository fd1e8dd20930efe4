package rt

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/edwingeng/hotswap"
)

// runCopy replaces, rewrites, truncates and removes plugin files while they
// are being loaded. The model cannot say which content a load must see, so only
// what must hold in any case is checked: what runs is what the plugin's digest
// says, and copies are never touched.
func (w *World) runCopy() {
	rng := w.rng
	defer func() {
		for _, o := range w.openLog {
			o.f.Close()
		}
	}()
	must(os.MkdirAll(w.dir, 0755))
	w.dirOK, w.lenient = true, true
	w.perm = plugNames
	hotswapOpen = w.open
	defer func() { hotswapOpen = nil }()

	simple := func(name string) *Img {
		w.nextID++
		m := &Img{ID: w.nextID, Name: name, Reloadable: true, Faults: map[string]*Fault{}, VarSym: map[string]bool{},
			Pad: pick(rng, 0, 50, 4096, 33000)}
		if w.p(0.1) {
			m.Faults["OnInit"] = w.newFault(false, "OnInit:"+m.id())
		}
		m.render()
		w.mu.Lock()
		w.byID[m.ID] = m
		w.mu.Unlock()
		return m
	}
	n := 1 + rng.IntN(5)
	names := plugNames[:n]
	put := func(name string) { must(os.WriteFile(filepath.Join(w.dir, name+".so"), simple(name).Content, 0644)) }
	for _, x := range names {
		put(x)
	}
	w.sw = hotswap.NewPluginManagerSwapper(w.dir, w.options()...)

	var did []string
	act := func() {
		name := pick(rng, names...)
		p := filepath.Join(w.dir, name+".so")
		kind := rng.IntN(5)
		did = append(did, fmt.Sprintf("%d:%s", kind, name))
		w.tracef("during the load: change %d of %s", kind, name)
		switch kind {
		case 0: // replaced by a new file
			must(os.WriteFile(p+".new", simple(name).Content, 0644))
			must(os.Rename(p+".new", p))
		case 1: // rewritten in place
			put(name)
		case 2: // truncated
			must(os.WriteFile(p, nil, 0644))
		case 3: // removed
			_ = os.Remove(p)
		case 4: // one byte changed in place
			if f, err := os.OpenFile(p, os.O_RDWR, 0); err == nil {
				_, _ = f.WriteAt([]byte("X"), 3)
				_ = f.Close()
			}
		}
	}

	for round, rounds := 0, 2+rng.IntN(3); round < rounds; round++ {
		for _, x := range names {
			p := filepath.Join(w.dir, x+".so")
			data, err := os.ReadFile(p)
			id, ok := parseImg(data)
			if err != nil || !ok || w.p(0.5) || w.loaded[id] && w.inst(w.sw.Current(), x) == nil {
				put(x)
			}
		}
		if w.p(0.3) {
			for _, x := range names { // a version the process cannot load any more would only make the load fail
				put(x)
			}
		}
		at, reps := 1+rng.IntN(4*n), 1+rng.IntN(3)
		hooks := 0
		hook := func() {
			hooks++
			if hooks >= at && reps > 0 {
				reps--
				act()
			}
		}
		w.onHook = func(in *Inst, fn string) { hook() }
		w.onOpen = hook
		var bg sync.WaitGroup
		stop := make(chan struct{})
		if w.p(0.25) {
			// A build writing to the directory all the time.
			at = 1 << 30
			name := pick(rng, names...)
			a, b := simple(name), simple(name)
			bg.Add(1)
			go func() {
				defer bg.Done()
				p := filepath.Join(w.dir, name+".so")
				for i := 0; ; i++ {
					select {
					case <-stop:
						return
					default:
					}
					m := a
					if i%2 == 1 {
						m = b
					}
					if i%3 == 0 {
						_ = os.WriteFile(p, m.Content, 0644)
					} else {
						_ = os.WriteFile(p+".new", m.Content, 0644)
						_ = os.Rename(p+".new", p)
					}
				}
			}()
			did = append(did, "bg:"+name)
		}
		before := w.sw.Current()
		old := map[string]*Inst{}
		for _, x := range names {
			old[x] = w.inst(before, x)
		}
		w.mu.Lock()
		w.attempt++
		w.inLoad, w.before, w.relBefore = true, before, w.sw.ReloadCounter()
		w.mu.Unlock()
		_, err := w.sw.LoadPlugins(nil)
		close(stop)
		bg.Wait()
		w.mu.Lock()
		w.inLoad = false
		w.mu.Unlock()
		w.onHook, w.onOpen = nil, nil
		w.tracef("load returned %s", firstLine(err))
		w.rec.count("copy_loads", 1)
		w.checkCopies(true)
		cur := w.sw.Current()
		if err != nil {
			if cur != before {
				w.viol("R01", "Current() changed although the load failed: %s", firstLine(err))
			}
			w.rec.count("copy_loads_failed", 1)
			continue
		}
		for _, pl := range cur.Plugins() {
			in := w.inst(cur, pl.Name)
			if in == nil {
				continue
			}
			w.rec.eval("R16", 1)
			if in.sha != pl.FileSha1 {
				w.viol("R16", "plugin %s records digest %x, but the code that runs has %x", pl.Name, pl.FileSha1[:6], in.sha[:6])
			}
			if old[pl.Name] != in && in.attempt != w.attempt {
				w.viol("R16", "plugin %s is served by an instance of an earlier load: %s", pl.Name, in)
			}
		}
		// One generation only: a later load releases what this one replaced.
		w.mu.Lock()
		g := &Gen{mgr: cur, m: map[string]*Inst{}, supersedeT: -1}
		for _, x := range names {
			if in := w.instLocked(cur, x); in != nil {
				g.m[name2key(x)] = in
				in.published = true
			}
		}
		if o := w.cur(); o != nil {
			o.supersedeT = w.now()
		}
		w.gens = append(w.gens, g)
		w.mu.Unlock()
		w.rec.hit("R16", fmt.Sprintf("n=%d round=%d changes=%s at=%d", n, round, strings.Join(did, ","), at))
		did = nil
	}
	w.sleep(w.effDelay() + 10*time.Minute) // until every background free is over
	w.checkCopies(true)
	for _, o := range w.openLog {
		if got, err := os.ReadFile(o.path); err == nil && !bytes.Equal(got, o.data) {
			w.viol("R16", "another file took the place of the loaded copy %s", filepath.Base(o.path))
		}
	}
}

func (w *World) inst(pm mgrPtr, name string) *Inst {
	if pm == nil {
		return nil
	}
	pl := pm.FindPlugin(name)
	if pl == nil {
		return nil
	}
	r, _ := pl.InvokeFunc("whoami")
	in, _ := r.(*Inst)
	return in
}

func (w *World) instLocked(pm mgrPtr, name string) *Inst { return w.inst(pm, name) }

// Copies runs one history of runCopy.
func Copies(t *testing.T, rec *Rec, root string, seed, idx uint64) (viols []Viol, trace []string) {
	prof := profileOf("R16")
	prof.Sleeps = false // a writer that never waits keeps virtual time from passing
	dir := filepath.Join(root, fmt.Sprintf("c%d", idx))
	synctest.Test(t, func(t *testing.T) {
		w := newWorld(rec, rand.New(rand.NewPCG(seed, idx+1<<40)), &prof, dir)
		w.runCopy()
		w.mu.Lock()
		viols, trace = w.viols, w.trace
		rec.count("copy_histories", 1)
		w.mu.Unlock()
	})
	_ = os.RemoveAll(dir)
	return
}
