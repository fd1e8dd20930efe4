package rt

import (
	"fmt"
	"sort"
	"strings"

	"github.com/edwingeng/hotswap"
)

// The reference model: what one load must do, given the files, the running
// generation and the faults planted in the plugins.

const (
	stSelect = iota
	stLoad
	stDeps
	stOnLoad
	stVault
	stOnInit
	stCb0
	stCb1
	stNone
)

const (
	modeFresh = iota
	modeUnchanged
	modeNotReloadable
)

var modeNote = []string{"ok", "unchanged", "not reloadable"}

type cause struct {
	prop  string
	stage int
	text  string
	fault *Fault
}

type pent struct {
	key  string
	name string // as the file says
	img  *Img   // content of the file
	mode int
	old  *Inst
	deps []string // keys
}

type Pred struct {
	noop   bool
	causes []cause
	m      map[string]*pent
}

func (p *Pred) minStage() int {
	s := stNone
	for _, c := range p.causes {
		if c.stage < s {
			s = c.stage
		}
	}
	return s
}

func (p *Pred) has(prop string) bool {
	for _, c := range p.causes {
		if c.prop == prop {
			return true
		}
	}
	return false
}

func (p *Pred) keys() []string {
	a := make([]string, 0, len(p.m))
	for k := range p.m {
		a = append(a, k)
	}
	sort.Strings(a)
	return a
}

func (p *Pred) add(prop string, stage int, f *Fault, format string, args ...interface{}) {
	p.causes = append(p.causes, cause{prop, stage, fmt.Sprintf(format, args...), f})
}

// live is the image that is actually running under a key.
func (e *pent) live() *Img {
	if e.mode == modeFresh {
		return e.img
	}
	return e.old.img
}

func (p *Pred) vaultWant() string {
	var a, b []string
	for _, e := range p.m {
		a = append(a, e.live().LF...)
		b = append(b, e.live().LT...)
	}
	sort.Strings(a)
	sort.Strings(b)
	return fmt.Sprintf("F%v T%v", a, b)
}

func (p *Pred) String() string {
	if p.noop {
		return "nothing to load"
	}
	var a []string
	for _, k := range p.keys() {
		e := p.m[k]
		a = append(a, fmt.Sprintf("%s:%s", e.name, modeNote[e.mode]))
	}
	s := strings.Join(a, " ")
	for _, c := range p.causes {
		s += fmt.Sprintf(" !%s@%d(%s)", c.prop, c.stage, c.text)
	}
	return s
}

// predict says what a load would do now.
func (w *World) predict(cbFaults [2]*Fault, extraCb bool) *Pred {
	p := &Pred{m: map[string]*pent{}}
	old := w.cur()

	type sel struct {
		name string
		img  *Img
		ent  *fileEnt
	}
	var sels []sel
	if w.static {
		if old != nil {
			panic("the workload loads static plugins successfully only once")
		}
		for n, m := range w.statImg {
			sels = append(sels, sel{n, m, nil})
		}
	} else {
		if !w.dirOK {
			p.add("R01", stSelect, nil, "bad plugin directory")
			return p
		}
		for n, e := range w.files {
			if !e.isDir && strings.HasSuffix(n, ".so") {
				sels = append(sels, sel{strings.TrimSuffix(n, ".so"), e.img, e})
			}
		}
	}
	sort.Slice(sels, func(i, j int) bool { return sels[i].name < sels[j].name })
	if len(w.white) > 0 {
		want := map[string]bool{}
		for _, n := range w.white {
			want[n] = true
		}
		var b []sel
		for _, s := range sels {
			if want[s.name] {
				b = append(b, s)
				delete(want, s.name)
			}
		}
		sels = b
		if len(want) > 0 {
			p.add("R12", stSelect, nil, "%d listed plugins are missing", len(want))
			return p
		}
	}
	if len(sels) == 0 {
		p.noop = true
		return p
	}
	seen := map[string]string{}
	for _, s := range sels {
		k := name2key(s.name)
		if o, ok := seen[k]; ok {
			p.add("R12", stSelect, nil, "%s and %s differ in case only", o, s.name)
		}
		seen[k] = s.name
	}
	if len(p.causes) > 0 {
		return p
	}

	for _, s := range sels {
		e := &pent{key: name2key(s.name), name: s.name, img: s.img}
		p.m[e.key] = e
		if s.ent != nil && s.ent.dangling {
			p.add("R01", stSelect, nil, "%s cannot be read", s.name)
		}
		if old != nil {
			if in := old.m[e.key]; in != nil {
				if !in.img.Reloadable {
					e.mode, e.old = modeNotReloadable, in
				} else if s.img != nil && in.img == s.img {
					e.mode, e.old = modeUnchanged, in
				}
			}
		}
	}

	// Loading the files.
	for _, k := range p.keys() {
		e := p.m[k]
		if e.mode != modeFresh {
			continue
		}
		m := e.img
		if m == nil {
			p.add("R01", stLoad, nil, "%s is not a plugin", e.name)
			continue
		}
		if !w.static {
			switch {
			case w.tmpBlock || w.fsLimit > 0 && len(m.Content) > w.fsLimit:
				p.add("R16", stLoad, nil, "%s cannot be copied", e.name)
				continue
			case m.OpenErr:
				p.add("R01", stLoad, &Fault{Kind: FErr, Mark: "openerr:" + m.id()}, "%s cannot be opened", e.name)
				continue
			case w.loaded[m.ID]:
				p.add("R01", stLoad, nil, "%s is already loaded", e.name)
				continue
			case m.InitPanic > 0:
				p.add("R11", stLoad, &Fault{Kind: FaultKind(m.InitPanic - 1), Mark: "init:" + m.id()}, "initialisation of %s panics", e.name)
				continue
			case m.BadType != "":
				p.add("R15", stLoad, nil, "%s.%s has a wrong type", e.name, m.BadType)
			}
		}
		if len(m.Missing) > 0 {
			p.add("R01", stLoad, nil, "%s lacks %v", e.name, m.Missing)
		}
		for _, fn := range []string{"Reloadable", "Export"} {
			if f := m.Faults[fn]; f != nil && f.Kind >= 0 {
				p.add("R11", stLoad, f, "%s.%s panics", e.name, fn)
			}
		}
	}

	// Dependencies.
	p.resolve()

	for _, k := range p.keys() {
		e := p.m[k]
		if e.mode != modeFresh || e.img == nil {
			continue
		}
		if f := e.img.Faults["OnLoad"]; f != nil && f.Kind >= 0 {
			p.add("R11", stOnLoad, f, "%s.OnLoad fails", e.name)
		}
		if f := e.img.Faults["OnInit"]; f != nil && f.Kind >= 0 {
			p.add("R11", stOnInit, f, "%s.OnInit fails", e.name)
		}
	}
	fns, typs := map[string]string{}, map[string]string{}
	for _, k := range p.keys() {
		e := p.m[k]
		m := e.live()
		if m == nil {
			continue
		}
		for _, fn := range []string{"HotswapLiveFuncs", "HotswapLiveTypes"} {
			if f := m.Faults[fn]; f != nil && f.Kind >= 0 {
				p.add("R11", stVault, f, "%s.%s fails", e.name, fn)
			}
		}
		for _, n := range m.LF {
			if o, ok := fns[n]; ok {
				p.add("R10", stVault, nil, "live function %s is offered by %s and %s", n, o, e.name)
			}
			fns[n] = e.name
		}
		for _, n := range m.LT {
			if o, ok := typs[n]; ok {
				p.add("R10", stVault, nil, "live type %s is offered by %s and %s", n, o, e.name)
			}
			typs[n] = e.name
		}
	}
	if w.useCb && cbFaults[0] != nil && cbFaults[0].Kind >= 0 {
		p.add("R17", stCb0, cbFaults[0], "the configured callback fails")
	}
	if extraCb && cbFaults[1] != nil && cbFaults[1].Kind >= 0 {
		p.add("R17", stCb1, cbFaults[1], "the extra callback fails")
	}
	return p
}

func (p *Pred) resolve() {
	reloadable := func(e *pent) bool { return e.live() != nil && e.live().Reloadable }
	for _, k := range p.keys() {
		e := p.m[k]
		m := e.live()
		if m == nil {
			continue
		}
		if e.mode == modeFresh {
			if f := m.Faults["Import"]; f != nil && f.Kind >= 0 {
				p.add("R11", stDeps, f, "%s.Import panics", e.name)
			}
			if m.Imp.refused() {
				p.add("R09", stDeps, nil, "%s.Import returns something unusable (%d)", e.name, m.Imp)
			}
		}
		if m.Imp != ImpStruct {
			continue
		}
		for _, f := range m.Fields {
			if !f.exported() || f.skipped() {
				continue
			}
			dk := name2key(f.Name)
			d := p.m[dk]
			if d == nil {
				p.add("R09", stDeps, nil, "%s imports %s, which is absent", e.name, f.Name)
				continue
			}
			e.deps = append(e.deps, dk)
			if e.mode != modeFresh {
				if d.mode == modeFresh {
					p.add("R09", stDeps, nil, "%s is carried over while its dependency %s is replaced", e.name, d.name)
				}
				continue
			}
			if !m.Reloadable && reloadable(d) {
				p.add("R09", stDeps, nil, "%s is not reloadable, its dependency %s is", e.name, d.name)
			}
			if dm := d.live(); dm != nil && !fits(dm.Exp, f.Type) {
				p.add("R09", stDeps, nil, "the export of %s does not fit %s.%s", d.name, e.name, f.Name)
			}
		}
	}
	color := map[string]int{}
	cyc := false
	var visit func(k string)
	visit = func(k string) {
		color[k] = 1
		for _, d := range p.m[k].deps {
			switch color[d] {
			case 0:
				visit(d)
			case 1:
				cyc = true
			}
		}
		color[k] = 2
	}
	for _, k := range p.keys() {
		if color[k] == 0 {
			visit(k)
		}
	}
	if cyc {
		p.add("R09", stDeps, nil, "the imports form a cycle")
	}
}

// shape describes the dependency structure of a prediction, for coverage counting.
func (p *Pred) shape() string {
	var b strings.Builder
	idx := map[string]int{}
	for i, k := range p.keys() {
		idx[k] = i
	}
	for _, k := range p.keys() {
		e := p.m[k]
		fmt.Fprintf(&b, "%d%c", idx[k], "ou!"[e.mode])
		if m := e.live(); m != nil && !m.Reloadable {
			b.WriteByte('N')
		}
		for _, d := range e.deps {
			fmt.Fprintf(&b, ">%d", idx[d])
		}
		b.WriteByte(' ')
	}
	return b.String()
}

func (p *Pred) causeSig() string {
	var a []string
	for _, c := range p.causes {
		x := fmt.Sprintf("%s@%d", c.prop, c.stage)
		if c.fault != nil {
			x += fmt.Sprintf("k%d", c.fault.Kind)
		}
		a = append(a, x)
	}
	sort.Strings(a)
	return strings.Join(a, ",")
}

type mgrPtr = *hotswap.PluginManager
