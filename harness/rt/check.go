package rt

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/edwingeng/hotswap"
)

type loadKind int

const (
	kLoadPlugins loadKind = iota
	kReload
	kReloadCb
)

var kindName = []string{"LoadPlugins", "Reload", "ReloadWithCallback"}

type loadData struct{ attempt int }

// newData is what the host hands to OnLoad: something of its own choosing.
func (w *World) newData() interface{} {
	if w.p(0.5) {
		return &loadData{w.attempt + 1}
	}
	m := map[string]interface{}{"": w.attempt}
	for _, n := range w.perm {
		m[n], m[strings.ToLower(n)] = "for "+n, "for "+n
	}
	switch w.rng.IntN(10) {
	case 0:
		return nil
	case 1:
		return (*loadData)(nil)
	case 2:
		return m
	case 3:
		return []interface{}{w.attempt, m}
	case 4:
		return loadData{w.attempt}
	case 5:
		return func() int { return w.attempt }
	case 6:
		return ""
	case 7:
		return map[string]string(nil)
	case 8:
		return fmt.Errorf("data %d", w.attempt)
	}
	return w.attempt
}

func sameData(a, b interface{}) bool {
	return reflect.TypeOf(a) == reflect.TypeOf(b) && identity(a) == identity(b)
}

// load performs one load of the given kind and checks everything about it.
func (w *World) load(kind loadKind, extra bool, cbFaults [2]*Fault) {
	extra = extra && kind == kReloadCb
	pred := &Pred{noop: true}
	if !w.static || kind == kLoadPlugins {
		pred = w.predict(cbFaults, extra)
	}
	data := w.newData()
	before := w.sw.Current()
	snapBefore := ""
	if before != nil {
		snapBefore = w.snapshot(before)
	}
	relBefore := w.sw.ReloadCounter()
	frees := w.freeCounts()
	w.tracef("attempt %d: %s%s -> expect %s", w.attempt+1, kindName[kind], map[bool]string{true: " with extra callback"}[extra], pred)

	w.mu.Lock()
	w.attempt++
	w.inLoad, w.before, w.relBefore, w.curPred, w.curData = true, before, relBefore, pred, data
	w.cbCalls, w.cbFaults = nil, cbFaults
	seq0 := w.seq
	ev0 := len(w.events)
	t0 := w.now()
	w.mu.Unlock()

	var details hotswap.Details
	var err error
	panicked := func() (r interface{}) {
		defer func() {
			if r = recover(); r != nil {
				w.viol("R11", "%s panicked: %v\n%s", kindName[kind], r, debug.Stack())
				w.viol("R01", "%s panicked: %v", kindName[kind], r)
			}
		}()
		switch kind {
		case kLoadPlugins:
			details, err = w.sw.LoadPlugins(data)
		case kReload:
			details, err = w.sw.Reload(data)
		case kReloadCb:
			var cb hotswap.ReloadCallback
			if extra {
				cb = w.callback(1)
			}
			details, err = w.sw.ReloadWithCallback(data, cb)
		}
		return nil
	}()

	w.mu.Lock()
	w.inLoad = false
	w.seq++
	evs := append([]Ev(nil), w.events[ev0:]...)
	w.mu.Unlock()
	progress.Add(1)
	after := w.sw.Current()
	w.tracef("attempt %d returned %v, err=%s", w.attempt, details, errTrace(err))
	w.rec.count("loads", 1)
	if pred.has("R16") {
		w.rec.count("loads_without_copies", 1)
	}
	if panicked != nil {
		w.trivial = true
		return
	}
	if !w.static {
		w.checkOriginals()
		w.checkCopies(false)
	}

	// Static mode refuses reloads.
	if w.static && kind != kLoadPlugins {
		if err == nil {
			w.viol("R14", "%s under static linking reports success", kindName[kind])
		}
		if len(evs) > 0 {
			w.viol("R14", "%s under static linking ran %v", kindName[kind], evs[0])
		}
		if after != before || w.sw.ReloadCounter() != relBefore {
			w.viol("R14", "%s under static linking changed the swapper", kindName[kind])
		}
		w.rec.hit("R14", "static reload refused "+kindName[kind])
		w.rec.eval("R14", 1)
		return
	}
	w.resolveDeps(w.attempt)
	w.checkTrace(pred, evs, err == nil && !pred.noop)

	switch {
	case pred.noop:
		w.checkNoop(kind, err, before, after, snapBefore, evs, relBefore)
	case err != nil && len(pred.causes) == 0:
		msg := fmt.Sprintf("attempt %d (%s) was refused although nothing is wrong with it [%s]: %v", w.attempt, kindName[kind], pred, firstLine(err))
		w.viol("R01", "%s", msg)
		w.viol(w.stageProp(pred, evs), "%s", msg)
		w.checkFailed(kind, pred, err, before, after, snapBefore, seq0, evs, relBefore, frees)
	case err != nil:
		w.checkFailed(kind, pred, err, before, after, snapBefore, seq0, evs, relBefore, frees)
	case len(pred.causes) > 0:
		c := pred.causes[0]
		for _, x := range pred.causes {
			if x.stage < c.stage {
				c = x
			}
		}
		w.viol("R01", "attempt %d (%s) reports success although %s", w.attempt, kindName[kind], c.text)
		for _, x := range pred.causes {
			if x.prop != "R01" {
				w.viol(x.prop, "attempt %d (%s) reports success although %s", w.attempt, kindName[kind], x.text)
			}
		}
		w.trivial = true // the model cannot follow any further
	default:
		w.checkSuccess(kind, pred, details, before, after, snapBefore, evs, relBefore, extra, data, t0)
	}
}

// stageProp says which property governs the stage at which a load came to its end.
func (w *World) stageProp(p *Pred, evs []Ev) string {
	n := map[string]int{}
	for _, e := range evs {
		if e.Inst != nil && e.Inst.attempt == w.attempt && e.Fn != "OnFree" || strings.HasPrefix(e.Fn, "callback") {
			n[e.Fn]++
		}
	}
	fresh := 0
	for _, e := range p.m {
		if e.mode == modeFresh {
			fresh++
		}
	}
	switch {
	case n["callback0"]+n["callback1"] > 0 || n["OnInit"] == fresh && fresh > 0:
		return "R17"
	case n["OnInit"] > 0 || n["OnLoad"] == fresh && fresh > 0:
		return "R10"
	case n["OnLoad"] > 0 || n["Import"] > 0 || n["Export"] == fresh:
		return "R09"
	case n["Export"] > 0 || n["Reloadable"] > 0:
		return "R01"
	default:
		return "R12"
	}
}

func errTrace(err error) string {
	if err == nil {
		return "<nil>"
	}
	s := err.Error()
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func firstLine(err error) string {
	if err == nil {
		return "<nil>"
	}
	s := err.Error()
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func (w *World) freeCounts() map[*Inst]int {
	w.mu.Lock()
	defer w.mu.Unlock()
	m := map[*Inst]int{}
	for _, in := range w.all {
		m[in] = in.counts["OnFree"]
	}
	return m
}

// resolveDeps links the instances of an attempt whose dependencies were sound.
func (w *World) resolveDeps(attempt int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.resolveDepsLocked(attempt)
}

func (w *World) resolveDepsLocked(attempt int) {
	p := w.curPred
	if p == nil || attempt != w.attempt || p.noop || p.minStage() <= stDeps {
		return
	}
	for _, e := range p.m {
		if e.mode != modeFresh {
			continue
		}
		in := w.insts[[2]int{e.img.ID, attempt}]
		if in == nil || in.resolved {
			continue
		}
		in.deps = nil
		for _, dk := range e.deps {
			d := p.m[dk]
			var x *Inst
			if d.mode == modeFresh {
				x = w.insts[[2]int{d.img.ID, attempt}]
			} else {
				x = d.old
			}
			if x != nil {
				in.deps = append(in.deps, x)
			}
		}
		in.resolved = true
	}
}

func (w *World) checkNoop(kind loadKind, err error, before, after mgrPtr, snap string, evs []Ev, rel int64) {
	if err != nil {
		w.viol("R12", "nothing to load, but %s reports %v", kindName[kind], err)
	}
	if after != before {
		w.viol("R12", "nothing to load, but Current() changed")
		w.viol("R02", "Current() changed without a load")
		w.trivial = true
	} else if before != nil && w.snapshot(before) != snap {
		w.viol("R12", "nothing to load, but the running generation changed")
	}
	for _, e := range evs {
		if strings.HasPrefix(e.Fn, "callback") {
			w.viol("R17", "a callback ran although there was nothing to load")
		} else if e.Fn != "OnFree" {
			w.viol("R12", "nothing to load, but %s ran", e)
		}
	}
	want := rel
	if kind != kLoadPlugins {
		want++
	}
	if err == nil && w.sw.ReloadCounter() != want {
		w.viol("R13", "ReloadCounter is %d after a reload without error, want %d", w.sw.ReloadCounter(), want)
	}
	w.rec.eval("R12", 1)
	w.rec.hit("R12", fmt.Sprintf("noop old=%v white=%v", before != nil, w.white != nil))
}

var phaseOf = map[string]int{"Reloadable": 1, "Export": 2, "Import": 3, "OnLoad": 4, "HotswapLiveFuncs": 5, "HotswapLiveTypes": 5, "OnInit": 6, "callback0": 7, "callback1": 8}

// checkTrace is the monitor for phases, barriers, order and multiplicity.
func (w *World) checkTrace(p *Pred, evs []Ev, success bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	maxPhase := 0
	maxFn := ""
	n := 0
	for _, e := range evs {
		ph := phaseOf[e.Fn]
		if ph == 0 || (e.Inst != nil && e.Inst.attempt != e.Attempt) {
			if ph != 0 && ph != 5 {
				w.violLocked("R03", "%s was called on %s, which is carried over", e.Fn, e.Inst)
				if w.inCurGens(e.Inst) {
					w.violLocked("R07", "%s was called on %s, which is carried over", e.Fn, e.Inst)
				}
			}
			continue
		}
		n++
		if ph <= 2 { // Reloadable and Export are ordered per plugin only
			if maxPhase > 2 {
				w.violLocked("R03", "%s of %s ran after %s", e.Fn, e.Inst, maxFn)
			}
			if l := e.Inst.lastEnd["Reloadable"]; e.Fn == "Export" && (l == 0 || l > e.Seq) {
				w.violLocked("R03", "Export of %s ran before Reloadable", e.Inst)
			}
			if maxPhase < ph {
				maxPhase, maxFn = ph, e.Fn
			}
		} else {
			if ph < maxPhase {
				if ph >= 7 {
					w.violLocked("R17", "%s ran after %s", e.Fn, maxFn)
				} else if maxPhase >= 7 {
					w.violLocked("R17", "%s ran after %s", e.Fn, maxFn)
					w.violLocked("R03", "%s ran after %s", e.Fn, maxFn)
				} else {
					w.violLocked("R03", "%s of %s ran after %s", e.Fn, e.Inst, maxFn)
				}
			} else {
				maxPhase, maxFn = ph, e.Fn
			}
		}
		if e.Inst != nil && ph != 5 && e.Inst.counts[e.Fn] > 1 {
			w.violLocked("R03", "%s of %s was called %d times", e.Fn, e.Inst, e.Inst.counts[e.Fn])
		}
		// Order along dependencies.
		if (e.Fn == "OnLoad" || e.Fn == "OnInit") && e.Inst.resolved {
			for _, d := range e.Inst.deps {
				if d.attempt == e.Inst.attempt {
					w.rec.eval("R04", 1)
					if l := d.lastEnd[e.Fn]; l == 0 || l > e.Seq {
						w.violLocked("R04", "%s of %s ran before that of its dependency %s", e.Fn, e.Inst, d)
					}
				}
			}
		}
	}
	w.rec.eval("R03", n)
	for _, in := range w.all {
		if in.attempt != w.attempt {
			continue
		}
		if in.counts["OnLoad"] > 0 && !sameData(in.onData, w.curData) {
			w.violLocked("R03", "OnLoad of %s did not get the caller's data", in)
		}
	}
	if !success {
		return
	}
	for _, k := range p.keys() {
		e := p.m[k]
		if e.mode != modeFresh || e.img == nil {
			continue
		}
		in := w.insts[[2]int{e.img.ID, w.attempt}]
		if in == nil {
			w.violLocked("R03", "%s was never loaded", e.name)
			w.violLocked("R07", "%s (%s) was never loaded", e.name, e.img)
			continue
		}
		for _, fn := range []string{"Reloadable", "Export", "Import", "OnLoad", "OnInit"} {
			if c := in.counts[fn]; c != 1 {
				w.violLocked("R03", "%s of %s was called %d times in a successful load", fn, in, c)
				w.violLocked("R02", "a generation was published although %s of %s was called %d times", fn, in, c)
			} else if !in.ended[fn] {
				w.violLocked("R02", "a generation was published although %s of %s failed", fn, in)
			}
		}
		if in.onVault != nil && after(w) != nil && in.onVault != &after(w).Vault {
			w.violLocked("R03", "OnInit of %s got another vault than that of its generation", in)
		}
	}
	// Vault set-up happens between the last OnLoad and the first OnInit.
	for _, in := range w.all {
		if in.attempt != w.attempt {
			continue
		}
		lf := 0
		for _, e := range evs {
			if e.Inst == in && e.Fn == "HotswapLiveFuncs" {
				lf++
			}
		}
		if lf == 0 {
			w.violLocked("R03", "the live functions of %s were never collected", in)
		}
	}
}

func after(w *World) mgrPtr { return w.sw.Current() }

func (w *World) inCurGens(in *Inst) bool {
	for _, g := range w.gens {
		for _, x := range g.m {
			if x == in {
				return true
			}
		}
	}
	return false
}

func (w *World) checkFailed(kind loadKind, p *Pred, err error, before, after mgrPtr, snap string, seq0 int, evs []Ev, rel int64, frees map[*Inst]int) {
	w.rec.count("loads_failed", 1)
	w.rec.eval("R01", 1)
	if after != before {
		w.viol("R01", "Current() changed although %s failed: %s", kindName[kind], firstLine(err))
		w.viol("R02", "Current() changed although %s failed: %s", kindName[kind], firstLine(err))
		w.trivial = true
		return
	}
	if before != nil {
		if s := w.snapshot(before); s != snap {
			w.viol("R01", "the running generation changed although %s failed.\nbefore:\n%safter:\n%s", kindName[kind], snap, s)
			w.viol("R10", "the running generation changed although %s failed.\nbefore:\n%safter:\n%s", kindName[kind], snap, s)
		}
	}
	if kind != kLoadPlugins && w.sw.ReloadCounter() != rel {
		w.viol("R13", "ReloadCounter went from %d to %d in a failed reload", rel, w.sw.ReloadCounter())
	}
	// Everything that got far enough to be a plugin is freed when the call returns, exactly once.
	w.mu.Lock()
	nfreed, nfresh := 0, 0
	for _, in := range w.all {
		if in.attempt != w.attempt {
			continue
		}
		nfresh++
		c := in.counts["OnFree"]
		if c > 0 {
			nfreed++
		}
		if in.ended["Export"] && c != 1 {
			w.violLocked("R05", "OnFree of %s was called %d times before its failed load returned", in, c)
			if x := w.panickedFree(func(x *Inst) bool { return x.attempt == w.attempt }); x != nil && c == 0 {
				w.violLocked("R11", "OnFree of %s was not called after that of %s had panicked", in, x)
			}
		}
		w.rec.eval("R05", 1)
	}
	w.mu.Unlock()
	// What may be logged or reported about the fault that fired.
	var fired []*Fault
	w.mu.Lock()
	for _, c := range p.causes {
		if c.fault == nil {
			continue
		}
		fired = append(fired, c.fault)
	}
	w.mu.Unlock()
	onlyFaults := len(fired) > 0 && len(fired) == len(p.causes)
	if onlyFaults {
		ok := false
		for _, f := range fired {
			if strings.Contains(err.Error(), f.text()) {
				ok = true
			}
		}
		w.rec.eval("R11", 1)
		if !ok {
			w.viol("R11", "the error of the failed load does not name the failure (%s %d): %s", fired[0].text(), fired[0].Kind, firstLine(err))
			for _, c := range p.causes {
				if c.prop == "R17" {
					w.viol("R17", "the error of the failed load is not that of the callback (%s): %s", c.fault.text(), firstLine(err))
				}
			}
		}
	}
	w.inLoadEvs = true
	w.checkLoggedFrees(evs, seq0)
	w.inLoadEvs = false
	// Callbacks of loads that failed earlier.
	min := p.minStage()
	for _, c := range w.cbCalls {
		if (c.which == 0 && min < stCb0) || (c.which == 1 && min < stCb1) {
			w.viol("R17", "callback %d ran in a load that had failed before", c.which)
		}
	}
	if min == stCb0 || min == stCb1 {
		w.checkCallbacks(p, nil, before, min == stCb1)
		if nfresh > nfreed {
			w.viol("R17", "a vetoed load left %d new versions unfreed", nfresh-nfreed)
		}
	}

	sig := fmt.Sprintf("%s old=%v %s %s", kindName[kind], before != nil, p.causeSig(), p.shape())
	w.hitCauses(p, sig)
	w.rec.hit("R01", sig)
	if nfreed > 0 {
		w.rec.hit("R05", "rollback "+sig)
		if min > stDeps {
			w.rec.hit("R04", "rollback "+sig)
		}
	}
	if len(evs) > 0 {
		w.rec.hit("R03", "failed "+sig)
	}
	if w.static {
		w.rec.hit("R14", "failed "+sig)
		w.rec.eval("R14", 1)
	}
	w.rec.hit("R02", "failed "+sig)
}

func (w *World) hitCauses(p *Pred, sig string) {
	for _, c := range p.causes {
		w.rec.eval(c.prop, 1)
		w.rec.hit(c.prop, sig)
	}
	if len(p.causes) > 0 && (p.has("R17") || p.minStage() == stLoad) {
		w.rec.hit("R11", sig)
	}
}

// checkLoggedFrees: a panicking OnFree is logged.
func (w *World) checkLoggedFrees(evs []Ev, seq0 int) {
	for _, e := range evs {
		if e.Fn != "OnFree" || e.Inst.lastEnd["OnFree"] == 0 || (w.inLoadEvs && e.Inst.attempt != w.attempt) {
			continue
		}
		if f := e.Inst.img.Faults["OnFree"]; f != nil && f.Kind >= 0 {
			w.rec.eval("R11", 1)
			w.rec.hit("R11", fmt.Sprintf("OnFree panic %d in load", f.Kind))
			if !w.logged(seq0, f.text()) {
				w.viol("R11", "the panic of OnFree of %s is not logged (%s)", e.Inst, f.text())
			}
		}
	}
}

func (w *World) checkCallbacks(p *Pred, newMgr, oldMgr mgrPtr, both bool) {
	var want []int
	if w.useCb {
		want = append(want, 0)
	}
	if both {
		want = append(want, 1)
	}
	var got []int
	for _, c := range w.cbCalls {
		got = append(got, c.which)
	}
	w.rec.eval("R17", 1)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		w.viol("R17", "callbacks called: %v, want %v (0 configured, 1 extra)", got, want)
	}
	fresh := 0
	for _, e := range p.m {
		if e.mode == modeFresh {
			fresh++
		}
	}
	for _, c := range w.cbCalls {
		if c.om != oldMgr {
			w.viol("R17", "callback %d got %p as the old manager, want %p", c.which, c.om, oldMgr)
			w.viol("R02", "callback %d got %p as the old manager, want %p", c.which, c.om, oldMgr)
		}
		if c.nm == nil || c.nm == oldMgr || (newMgr != nil && c.nm != newMgr) {
			w.viol("R17", "callback %d got %p as the new manager, want %p", c.which, c.nm, newMgr)
		}
		if c.numInits != fresh {
			w.viol("R17", "callback %d ran after %d of %d OnInit calls", c.which, c.numInits, fresh)
			w.viol("R03", "callback %d ran after %d of %d OnInit calls", c.which, c.numInits, fresh)
		}
	}
}

func (w *World) checkSuccess(kind loadKind, p *Pred, details hotswap.Details, before, after mgrPtr, snap string, evs []Ev,
	rel int64, extra bool, data interface{}, t0 time.Duration) {

	w.rec.count("loads_ok", 1)
	if after == before || after == nil {
		w.viol("R02", "Current() is still the old generation after a successful %s", kindName[kind])
		w.trivial = true
		return
	}
	sig := fmt.Sprintf("%s old=%v %s", kindName[kind], before != nil, p.shape())
	w.rec.eval("R02", 1)
	w.rec.hit("R02", sig)
	w.checkCallbacks(p, after, before, extra)
	if w.useCb || extra {
		w.rec.hit("R17", fmt.Sprintf("ok cb=%v extra=%v ", w.useCb, extra)+sig)
	}

	// The model's next generation.
	g := &Gen{n: len(w.gens), mgr: after, m: map[string]*Inst{}, supersedeT: -1}
	carried := 0
	w.mu.Lock()
	for _, e := range p.m {
		if e.mode == modeFresh {
			if in := w.insts[[2]int{e.img.ID, w.attempt}]; in != nil {
				g.m[e.key] = in
				in.published = true
				if in.counts["OnFree"] > 0 {
					w.violLocked("R05", "%s was freed although its load succeeded", in)
				}
			}
		} else {
			g.m[e.key] = e.old
			carried++
		}
	}
	if o := w.cur(); o != nil {
		o.supersedeT = w.now()
	}
	w.gens = append(w.gens, g)
	w.mu.Unlock()
	w.okLoads++
	w.rec.count("carried", carried)

	// Membership, instances, order.
	w.silent.Store(true)
	pls := after.Plugins()
	pos := map[string]int{}
	var have []string
	for i, pl := range pls {
		k := name2key(pl.Name)
		if _, dup := pos[k]; dup {
			w.viol("R12", "Plugins() lists %s twice", pl.Name)
		}
		pos[k] = i
		have = append(have, k)
		e := p.m[k]
		if e == nil {
			w.viol("R12", "Plugins() lists %s, which is not a plugin to consider", pl.Name)
			w.viol("R07", "Plugins() lists %s, which should not be there", pl.Name)
			continue
		}
		r, err := pl.InvokeFunc("whoami")
		in, _ := r.(*Inst)
		want := g.m[k]
		if err != nil || in != want {
			w.viol("R07", "plugin %s is served by %v, want %v (%s)", pl.Name, in, want, modeNote[e.mode])
		}
		if e.mode == modeFresh && !w.static {
			if want != nil && pl.FileSha1 != want.sha {
				w.viol("R16", "plugin %s records digest %x, the loaded file has %x", pl.Name, pl.FileSha1, want.sha)
			}
		}
		if e.mode == modeFresh && pl.Name != e.name {
			w.viol("R12", "plugin %s is called %s", e.name, pl.Name)
		}
	}
	sort.Strings(have)
	if strings.Join(have, ",") != strings.Join(p.keys(), ",") {
		w.viol("R12", "the generation consists of %v, want %v", have, p.keys())
		w.viol("R07", "the generation consists of %v, want %v", have, p.keys())
	}
	for _, e := range p.m {
		for _, dk := range e.deps {
			w.rec.eval("R04", 1)
			if pos[dk] > pos[e.key] {
				w.viol("R04", "Plugins() lists %s before its dependency %s", e.name, dk)
			}
		}
	}
	w.rec.eval("R07", len(p.m))
	w.rec.eval("R09", 1)
	w.rec.eval("R12", 1)
	// FindPlugin.
	for _, e := range p.m {
		for _, v := range variants(w, e.name) {
			x := after.FindPlugin(v)
			if x == nil || name2key(x.Name) != e.key {
				w.viol("R12", "FindPlugin(%q) does not find %s", v, e.name)
				break
			}
			if i, ok := pos[e.key]; ok && pls[i] != x {
				w.viol("R12", "FindPlugin(%q) finds another plugin than Plugins() lists", v)
				break
			}
		}
	}
	for _, v := range []string{"", "nosuch", "alpha ", "alph", "alphaa", "alpha.so", "tmp"} {
		if _, ok := p.m[name2key(v)]; !ok && after.FindPlugin(v) != nil {
			w.viol("R12", "FindPlugin(%q) finds something", v)
		}
	}
	near := append(append([]string(nil), plugNames...), oddNames...)
	for _, e := range p.m {
		near = append(near, e.name+"é", e.name+".so", e.name+" ", e.name+"\x00", "."+e.name, strings.Map(func(r rune) rune {
			if r > 127 {
				return -1
			}
			return r
		}, e.name))
	}
	for _, n := range near {
		if _, ok := p.m[name2key(n)]; !ok && after.FindPlugin(n) != nil {
			w.viol("R12", "FindPlugin(%q) finds a plugin that is not part of the generation", n)
			w.viol("R07", "FindPlugin(%q) finds a plugin that is not part of the generation", n)
		}
	}
	w.silent.Store(false)

	w.checkDescription(p, pls, pos, details, before, t0)

	// Details.
	got := map[string]string{}
	for f, note := range details {
		k := f
		if !w.static {
			k = strings.TrimSuffix(filepath.Base(f), ".so")
		} else if w.statMap[k] == nil {
			w.viol("R14", "Details mention %q, which is not the name of a static plugin", k)
		}
		got[name2key(k)] = note
		if !w.static && !strings.Contains(", "+details.String()+", ", ", "+k+": "+note+", ") {
			w.viol("R07", "Details read %q, which does not tell %s: %s", details.String(), k, note)
		}
	}
	for _, k := range p.keys() {
		e := p.m[k]
		if got[k] != modeNote[e.mode] {
			w.viol("R07", "Details say %q about %s, want %q", got[k], e.name, modeNote[e.mode])
		}
		delete(got, k)
	}
	for k := range got {
		w.viol("R07", "Details mention %s, which is not part of the load", k)
	}

	// Vault.
	v := &after.Vault
	if keys := vaultKeys(v); keys != p.vaultWant() {
		w.viol("R10", "the vault holds %s, want %s", keys, p.vaultWant())
	}
	for _, e := range p.m {
		m := e.live()
		for _, n := range m.LF {
			f, _ := v.LiveFuncs[n].(func() string)
			if f == nil {
				continue
			}
			if got := f(); got != m.id()+"."+n {
				w.viol("R10", "live function %s is %s, want %s", n, got, m.id()+"."+n)
			}
		}
		for _, n := range m.LT {
			f := v.LiveTypes[n]
			if f == nil {
				continue
			}
			x, _ := f().(*ExpA)
			if x == nil || x.ID != m.id()+"."+n {
				w.viol("R10", "live type %s is %v, want %s", n, x, m.id()+"."+n)
			}
			if y, _ := f().(*ExpA); x != nil && y == x {
				w.viol("R10", "live type %s gives the same object twice", n)
			}
		}
	}
	w.rec.eval("R10", 1)
	if before != nil {
		if w.useExt && v.Extension == before.Extension {
			w.viol("R10", "two generations share their Extension")
		}
		v.DataBag["probe"] = len(w.gens)
		if x := before.DataBag["probe"]; x == len(w.gens) {
			w.viol("R10", "two generations share their DataBag")
		}
		delete(v.DataBag, "probe")
	}
	if w.useExt {
		e, _ := v.Extension.(*extObj)
		if e == nil || e.attempt != w.attempt {
			w.viol("R10", "the Extension is not a fresh object of the configured constructor: %v", v.Extension)
		}
		if n := w.extCalls(w.attempt); n != 1 {
			w.viol("R10", "the Extension constructor was called %d times in one load", n)
		}
	} else if v.Extension != nil {
		w.viol("R10", "there is an Extension without a constructor: %v", v.Extension)
	}
	for in := range w.freshOf(p) {
		if v.DataBag[in.String()] != in {
			w.viol("R10", "what %s put into the DataBag in OnInit is gone", in)
		}
	}
	for k, x := range v.DataBag {
		if in, _ := x.(*Inst); in == nil || in.attempt != w.attempt || in.String() != k {
			w.viol("R10", "the DataBag holds %q, which no plugin put there in this load", k)
		}
	}

	// Imports.
	w.mu.Lock()
	for _, e := range p.m {
		if in := g.m[e.key]; in != nil {
			w.checkImportsOf(in, func(k string) *Inst { return g.m[k] }, "after the load")
		}
	}
	w.mu.Unlock()

	// The replaced generation is unaffected.
	if before != nil {
		if s := w.snapshot(before); s != snap {
			w.viol("R07", "the replaced generation changed.\nbefore:\n%safter:\n%s", snap, s)
			w.viol("R10", "the replaced generation changed.\nbefore:\n%safter:\n%s", snap, s)
			w.sameDescription(snap, s)
		}
	}
	g.snap = w.snapshot(after)

	want := rel
	if kind != kLoadPlugins {
		want++
	}
	w.rec.eval("R13", 1)
	if c := w.sw.ReloadCounter(); c != want {
		w.viol("R13", "ReloadCounter is %d after a successful %s, want %d", c, kindName[kind], want)
	}
	if w.sw.StaticLinkingMode() != w.static {
		w.viol("R14", "StaticLinkingMode() is %v", w.sw.StaticLinkingMode())
	}

	ndeps, nimp := 0, 0
	for _, e := range p.m {
		ndeps += len(e.deps)
		if e.live().Imp == ImpStruct && e.mode == modeFresh {
			nimp++
		}
	}
	w.rec.hit("R03", "ok "+sig)
	w.rec.hit("R19", "ok "+sig)
	if ndeps > 0 {
		w.rec.hit("R04", "ok "+sig)
		w.rec.hit("R09", "ok "+sig)
	}
	if nimp > 0 {
		w.rec.hit("R08", "ok "+sig+impSig(p))
	}
	if before != nil {
		w.rec.hit("R07", sig)
	}
	if carried > 0 {
		w.rec.hit("R05", "carry "+sig)
	}
	w.rec.hit("R10", fmt.Sprintf("%d funcs %d types ext=%v ", len(v.LiveFuncs), len(v.LiveTypes), w.useExt)+sig)
	w.rec.hit("R12", fmt.Sprintf("white=%v %d files ", w.white != nil, len(w.files))+strings.Join(p.keys(), ","))
	if w.static {
		w.rec.hit("R14", "ok "+sig)
		w.rec.eval("R14", 1)
	} else {
		w.rec.hit("R16", sig)
	}
	w.rec.hit("R13", sig)
	w.rec.hit("R01", fmt.Sprintf("ok after failures=%v ", w.failedBefore())+sig)
}

func impSig(p *Pred) string {
	var b strings.Builder
	for _, k := range p.keys() {
		m := p.m[k].live()
		fmt.Fprintf(&b, " %d/%d", m.Exp, m.Imp)
		for _, f := range m.Fields {
			fmt.Fprintf(&b, ":%d%v%v", f.Type, f.exported(), f.skipped())
		}
	}
	return b.String()
}

// checkDescription looks at what the plugins of a new generation say of themselves.
func (w *World) checkDescription(p *Pred, pls []*hotswap.Plugin, pos map[string]int, details hotswap.Details, before mgrPtr, t0 time.Duration) {
	for _, pl := range pls {
		e := p.m[name2key(pl.Name)]
		if e == nil {
			continue
		}
		w.rec.eval("R19", 1)
		// Several import fields may name one plugin.
		num := map[string]int{}
		for _, k := range e.deps {
			num[k]++
		}
		seen := map[string]int{}
		for _, d := range pl.Deps {
			k := name2key(d)
			if seen[k]++; seen[k] > num[k] {
				w.viol("R19", "Deps of %s is %q, want %q", pl.Name, pl.Deps, e.deps)
			}
			if i, ok := pos[k]; !ok {
				w.viol("R19", "Deps of %s lists %q, which is not part of the generation", pl.Name, d)
			} else if e.mode == modeFresh && pls[i].Name != d {
				w.viol("R19", "Deps of %s lists %q, which is called %q", pl.Name, d, pls[i].Name)
			}
		}
		for _, k := range e.deps {
			if seen[k] == 0 {
				w.viol("R19", "Deps of %s is %q and lacks %s", pl.Name, pl.Deps, k)
			}
		}
		if n := pl.Refs.Load(); n <= 0 {
			w.viol("R19", "Refs of %s is %d in the current generation", pl.Name, n)
		}
		if _, err := json.Marshal(pl); err != nil {
			w.viol("R19", "plugin %s cannot be marshalled: %v", pl.Name, err)
		}
		if w.static {
			if pl.Note != modeNote[e.mode] || pl.File != "" || pl.P != nil {
				w.viol("R19", "static plugin %s has note %q and file %q", pl.Name, pl.Note, pl.File)
			}
		} else if note, ok := details[pl.File]; !ok || note != modeNote[e.mode] {
			w.viol("R19", "Details say %q (%v) about %s, whose file is %q and which is %s", note, ok, pl.Name, pl.File, modeNote[e.mode])
		}
		if e.mode == modeFresh {
			if a, b := w.start.Add(t0), w.start.Add(w.now()); pl.When.Before(a) || pl.When.After(b) {
				w.viol("R19", "plugin %s says it was loaded at %v, the load took from %v to %v", pl.Name, pl.When, a, b)
			}
			if !w.static {
				if want := filepath.Join(w.given(), e.name+".so"); pl.File != want && pl.File != filepath.Join(w.dir, e.name+".so") {
					w.viol("R19", "plugin %s says it is %q, want %q", pl.Name, pl.File, want)
				}
				if pl.Note != "" {
					w.viol("R19", "the note of %s, which was loaded anew, is %q", pl.Name, pl.Note)
				}
				if pl.P == nil {
					w.viol("R19", "plugin %s has no symbols", pl.Name)
				}
			}
			continue
		}
		if pl.Note != modeNote[e.mode] {
			w.viol("R19", "the note of %s is %q, want %q", pl.Name, pl.Note, modeNote[e.mode])
		}
		if o := before.FindPlugin(pl.Name); o != nil && (o.Name != pl.Name || o.File != pl.File || o.FileSha1 != pl.FileSha1 || !o.When.Equal(pl.When) || o.P != pl.P) {
			w.viol("R19", "%s is carried over but describes itself differently: %s %s %x %v, before: %s %s %x %v",
				pl.Name, pl.Name, pl.File, pl.FileSha1, pl.When, o.Name, o.File, o.FileSha1, o.When)
		}
	}
	if !w.static {
		files := map[string]bool{}
		for _, pl := range pls {
			files[pl.File] = true
		}
		for f := range details {
			if !files[f] {
				w.viol("R19", "Details mention %q, which is the file of no plugin", f)
			}
		}
	}
}

// sameDescription compares the plugins' descriptions in two snapshots.
func (w *World) sameDescription(before, after string) {
	cut := func(s string) string {
		var b strings.Builder
		for _, l := range strings.Split(s, "\n") {
			if f := strings.SplitN(l, "|", 7); len(f) == 7 {
				fmt.Fprintln(&b, f[:6])
			}
		}
		return b.String()
	}
	if a, b := cut(before), cut(after); a != b {
		w.viol("R19", "descriptions changed while their generation lives.\nbefore:\n%safter:\n%s", a, b)
	}
}

func (w *World) failedBefore() bool { return w.attempt > w.okLoads }

func (w *World) freshOf(p *Pred) map[*Inst]bool {
	m := map[*Inst]bool{}
	for _, e := range p.m {
		if e.mode == modeFresh {
			if in := w.insts[[2]int{e.img.ID, w.attempt}]; in != nil {
				m[in] = true
			}
		}
	}
	return m
}

func (w *World) extCalls(attempt int) (n int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, e := range w.extMade {
		if e.(*extObj).attempt == attempt {
			n++
		}
	}
	return
}

func variants(w *World, name string) []string {
	a := []string{name, strings.ToUpper(name), strings.ToLower(name)}
	var b strings.Builder
	for i, r := range name {
		if (w.attempt+i)%2 == 0 {
			b.WriteString(strings.ToUpper(string(r)))
		} else {
			b.WriteString(strings.ToLower(string(r)))
		}
	}
	return append(a, b.String())
}

// ---- other operations ---------------------------------------------------------------

// sleep advances virtual time and then looks for instances that are overdue.
func (w *World) sleep(d time.Duration) {
	w.mu.Lock()
	ev0, seq0 := len(w.events), w.seq
	w.mu.Unlock()
	w.tracef("sleep %s", d)
	time.Sleep(d)
	w.settle()
	progress.Add(1)
	w.checkOverdue()
	w.mu.Lock()
	evs := append([]Ev(nil), w.events[ev0:]...)
	w.mu.Unlock()
	for _, e := range evs {
		if e.Fn != "OnFree" {
			w.viol("R03", "%s ran without a load", e)
			continue
		}
		w.rec.count("frees_delayed", 1)
	}
	if len(evs) > 0 {
		g := w.cur()
		n := 0
		for _, e := range evs {
			n += len(e.Inst.deps)
		}
		sig := fmt.Sprintf("%d freed, %d deps, delay=%s have=%v, gens=%d, age=%s", len(evs), n, w.delay, w.haveDel, len(w.gens), d)
		w.rec.hit("R05", sig)
		w.rec.hit("R06", sig)
		if n > 0 {
			w.rec.hit("R04", "free "+sig)
		}
		if g != nil && g.snap != "" {
			if s := w.snapshotNoBag(g.mgr); s != "" && s != stripBag(g.snap) {
				w.viol("R05", "the current generation changed when an old one was released.\nbefore:\n%safter:\n%s", g.snap, s)
				w.sameDescription(g.snap, s)
			}
		}
		w.checkLoggedFrees(evs, seq0)
	}
}

func stripBag(s string) string {
	var a []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.HasPrefix(l, "D ") {
			a = append(a, l)
		}
	}
	return strings.Join(a, "\n")
}

func (w *World) snapshotNoBag(pm mgrPtr) string { return stripBag(w.snapshot(pm)) }

// invoke calls InvokeEach and InvokeEachBackward and compares what the plugins saw.
func (w *World) invoke(g *Gen, backward bool) {
	w.mu.Lock()
	ev0, seq0 := len(w.events), w.seq
	w.mu.Unlock()
	name := fmt.Sprintf("fn%d", seq0)
	switch w.rng.IntN(8) {
	case 0:
		name = ""
	case 1:
		name = pick(w.rng, "OnFree", "OnInit", "Export", "alpha", "a.b", "日本", " ")
	}
	var args []interface{}
	for i, n := 0, w.rng.IntN(5); i < n; i++ {
		args = append(args, pick[interface{}](w.rng, &loadData{seq0}, 7, nil, "x", "", (*loadData)(nil), []interface{}{1, nil},
			map[string]int{}, []string(nil), func() {}, 2.5, struct{}{}, loadData{seq0}))
	}
	if w.p(0.1) {
		args = []interface{}{[]interface{}{}}
	}
	w.tracef("invoke gen %d backward=%v", g.n, backward)
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.viol("R11", "InvokeEach panicked: %v", r)
				w.viol("R18", "InvokeEach panicked: %v", r)
			}
		}()
		if backward {
			g.mgr.InvokeEachBackward(name, args...)
		} else {
			g.mgr.InvokeEach(name, args...)
		}
	}()
	w.mu.Lock()
	evs := append([]Ev(nil), w.events[ev0:]...)
	w.mu.Unlock()
	wantArgs := argString(name, args)
	pos := map[*Inst]int{}
	var order []*Inst
	for _, e := range evs {
		if e.Fn != "InvokeFunc" {
			continue
		}
		if e.Args != wantArgs {
			w.viol("R18", "InvokeFunc of %s got %s, want %s", e.Inst, e.Args, wantArgs)
		}
		if _, dup := pos[e.Inst]; dup {
			w.viol("R18", "InvokeFunc of %s was called twice", e.Inst)
		}
		pos[e.Inst] = len(order)
		order = append(order, e.Inst)
		if f := e.Inst.img.Faults["InvokeFunc"]; f != nil && f.Kind >= 0 {
			w.rec.eval("R11", 1)
			w.rec.hit("R11", fmt.Sprintf("InvokeFunc fault %d", f.Kind))
			if !w.logged(seq0, f.text()) {
				w.viol("R11", "the failure of InvokeFunc of %s is not logged (%s)", e.Inst, f.text())
				w.viol("R18", "the failure of InvokeFunc of %s is not logged (%s)", e.Inst, f.text())
			}
		}
	}
	for _, in := range g.m {
		if _, ok := pos[in]; !ok {
			w.viol("R18", "InvokeFunc of %s was not called", in)
		}
	}
	for in, i := range pos {
		if g.m[name2key(in.img.Name)] != in {
			w.viol("R18", "InvokeFunc of %s was called, which is not part of the generation", in)
		}
		for _, d := range in.deps {
			if j, ok := pos[d]; ok && (j < i) == backward {
				w.viol("R18", "InvokeFunc of %s and of its dependency %s were called in the wrong order (backward=%v)", in, d, backward)
			}
		}
	}
	// Exactly reverse.
	pls := g.mgr.Plugins()
	w.silent.Store(true)
	for i, in := range order {
		j := i
		if backward {
			j = len(order) - 1 - i
		}
		if j < len(pls) {
			if r, _ := pls[j].InvokeFunc("whoami"); r != in {
				w.viol("R18", "call %d went to %s, Plugins() has %v there (backward=%v)", i, in, r, backward)
				break
			}
		}
	}
	w.silent.Store(false)
	w.rec.eval("R18", len(order)+1)
	nf := 0
	for _, in := range order {
		if f := in.img.Faults["InvokeFunc"]; f != nil {
			nf++
		}
	}
	w.rec.hit("R18", fmt.Sprintf("backward=%v n=%d faults=%d current=%v %s", backward, len(order), nf, g.supersedeT < 0, w.genShape(g)))
}

func (w *World) genShape(g *Gen) string {
	var ks []string
	for k := range g.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		b.WriteString(k)
		for _, d := range g.m[k].deps {
			b.WriteString(">" + d.img.Name)
		}
		b.WriteByte(' ')
	}
	return b.String()
}
