package rt

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"os"
	"os/signal"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"syscall"
	"testing/synctest"
	"time"
	"unicode"
	"unicode/utf8"

	"testing"

	"github.com/edwingeng/hotswap"
)

// Profile weights the generator towards what one property needs.
type Profile struct {
	Static  float64 // share of histories with static linking
	Fault   float64 // per load: a planted failure in some plugin function or callback
	Bad     float64 // per image: something structurally wrong
	Bad2    float64 // per load: a wrong set of files is left as it is
	Sleeps  bool    // slow plugin functions (virtual time)
	MaxPl   int
	MinOps  int
	MaxOps  int
	FreeMix float64 // weight of sleeping operations
	Invoke  float64
	White   float64
	Cb      float64
}

var baseProfile = Profile{Static: 0.12, Fault: 0.22, Bad: 0.02, Bad2: 0.25, Sleeps: true, MaxPl: 7, MinOps: 4, MaxOps: 11,
	FreeMix: 0.22, Invoke: 0.08, White: 0.12, Cb: 0.5}

func profileOf(prop string) Profile {
	p := baseProfile
	switch prop {
	case "R01":
		p.Fault, p.Bad, p.Static = 0.45, 0.04, 0.05
	case "R02":
		p.Cb, p.Static = 0.8, 0.05
	case "R03":
		p.Static = 0.15
	case "R04":
		p.Fault, p.FreeMix, p.MaxPl = 0.3, 0.3, 9
	case "R05", "R06":
		p.Fault, p.FreeMix, p.Static, p.MaxOps = 0.3, 0.35, 0, 16
	case "R07":
		p.Fault, p.Static = 0.1, 0
	case "R08":
		p.Fault, p.Bad2 = 0.05, 0.1
	case "R09":
		p.Fault, p.Bad, p.Bad2, p.MaxPl = 0.03, 0.08, 0.6, 9
	case "R10":
		p.Fault = 0.15
	case "R11":
		p.Fault, p.Invoke = 0.7, 0.2
	case "R12":
		p.White, p.Fault, p.Bad2 = 0.45, 0.05, 0.4
	case "R14":
		p.Static, p.Fault, p.MinOps, p.White = 1, 0.5, 3, 0.25
	case "R16":
		p.Fault, p.Static = 0.2, 0
	case "R17":
		p.Cb, p.Fault = 0.85, 0.6
	case "R18":
		p.Invoke, p.Fault = 0.5, 0.1
	}
	return p
}

var plugNames = []string{"alpha", "Beta", "gammA", "delta", "Epsilon", "zeta_1", "éclair", "ωmega", "my-plug", "x.y", "ETA"}

// Names that are rarer.
var oddNames = []string{".hid", "x.so", "", "tmp", "sp ace", "a%sb", "st*r", "-x", "alpha2", "eclair", "mega", "ωme", "q'uote", "日本", ".so", "a.", "_", "Alph"}

func pick[T any](rng *rand.Rand, a ...T) T { return a[rng.IntN(len(a))] }

func (w *World) p(x float64) bool { return w.rng.Float64() < x }

// importable tells whether an exported field can have that name, in some
// capitalisation.
func importable(name string) bool {
	if first, _ := utf8.DecodeRuneInString(name); !unicode.IsUpper(unicode.ToUpper(first)) {
		return false
	}
	for i, r := range name {
		if !(unicode.IsLetter(r) || r == '_' || i > 0 && unicode.IsDigit(r)) {
			return false
		}
	}
	return true
}

// fieldName is name in some capitalisation that makes it an exported field.
func (w *World) fieldName(name string) string {
	var b strings.Builder
	style := w.rng.IntN(3)
	for i, r := range name {
		switch {
		case i == 0, style == 0 && w.p(0.5), style == 1:
			r = unicode.ToUpper(r)
		default:
			r = unicode.ToLower(r)
		}
		b.WriteRune(r)
	}
	return b.String()
}

// target is the image that will run under a key after a load of what is on disk.
func (w *World) target(key string) *Img {
	if w.static {
		for n, m := range w.statImg {
			if name2key(n) == key {
				return m
			}
		}
		return nil
	}
	var onDisk *Img
	found := false
	for n, e := range w.files {
		if strings.HasSuffix(n, ".so") && !e.isDir && name2key(strings.TrimSuffix(n, ".so")) == key {
			onDisk, found = e.img, true
		}
	}
	if !found {
		return nil
	}
	if g := w.cur(); g != nil {
		if in := g.m[key]; in != nil && !in.img.Reloadable {
			return in.img
		}
	}
	return onDisk
}

// newImg builds a new version of the plugin called name.
func (w *World) newImg(name string, strict bool) *Img {
	rng := w.rng
	w.nextID++
	m := &Img{ID: w.nextID, Name: name, Reloadable: w.p(0.8), Faults: map[string]*Fault{}, VarSym: map[string]bool{}}
	w.byID[m.ID] = m
	m.Pad = pick(rng, 0, 1, 7, 100, 513, 4096)
	if w.p(0.02) {
		m.Pad = 40000 + rng.IntN(60000)
	}
	if w.p(0.0015) {
		// As big as real ones.
		m.Pad = 1<<20 + rng.IntN(3<<20)
		w.rec.count("big_images", 1)
	}
	m.Exp = pick(rng, ExpPtrAB, ExpPtrAB, ExpPtrA, ExpPtrB, ExpValue, ExpFunc, ExpMap, ExpInt, ExpNil, ExpTypedNil, ExpNilMap, ExpNilFunc)
	if w.p(0.25) {
		m.Exp = ExpKind(rng.IntN(int(nExpKinds)))
	}
	bad := func(x float64) bool { return !strict && w.p(x) }

	switch r := rng.Float64(); {
	case r < 0.12:
		m.Imp = ImpNil
	case r < 0.15:
		m.Imp = ImpTypedNil
	case r < 0.17:
		m.Imp = ImpEmbedUnexp
	case r < 0.19:
		m.Imp = ImpEmbedTagged
	default:
		m.Imp = ImpStruct
	}
	if bad(w.prof.Bad) {
		m.Imp = pick(rng, ImpValue, ImpPtrInt, ImpPtrPtr, ImpMap, ImpEmbed, ImpEmbedPtr)
	}
	if m.Imp == ImpStruct {
		w.genFields(m, bad)
	}
	for i, n := 0, rng.IntN(3); i < n; i++ {
		m.LF = append(m.LF, fmt.Sprintf("live_%s_%d", strings.ToLower(name), i))
	}
	for i, n := 0, rng.IntN(3); i < n; i++ {
		m.LT = append(m.LT, fmt.Sprintf("Live_%s_%d", strings.ToLower(name), i))
	}
	if w.p(0.1) {
		// Names differing in case only, or shared between a function and a type, are different names.
		m.LF = append(m.LF, "LIVE_"+name, "live_"+name, "Live_"+name+"_0x")
		m.LT = append(m.LT, "Live_"+name+"_0x")
	}
	if bad(w.prof.Bad * 2) {
		m.LF = append(m.LF, "live_shared")
	}
	if bad(w.prof.Bad * 2) {
		m.LT = append(m.LT, "live_shared")
	}
	if o := pick(rng, w.perm...); bad(w.prof.Bad*2) && name2key(o) != name2key(name) {
		if w.p(0.5) {
			m.LF = append(m.LF, fmt.Sprintf("live_%s_0", strings.ToLower(o)))
		} else {
			m.LT = append(m.LT, fmt.Sprintf("Live_%s_0", strings.ToLower(o)))
		}
	}
	if bad(w.prof.Bad / 2) {
		m.Missing = append(m.Missing, pick(rng, requiredFns...))
		if w.p(0.3) {
			if x := pick(rng, requiredFns...); x != m.Missing[0] {
				m.Missing = append(m.Missing, x)
			}
		}
	}
	if !w.static {
		if bad(w.prof.Bad / 2) {
			m.BadType = pick(rng, requiredFns...)
		}
		if bad(w.prof.Bad / 2) {
			m.OpenErr = true
		}
		if bad(w.prof.Bad / 2) {
			m.InitPanic = 1 + int(pick(rng, FPanicStr, FPanicErr, FPanicNilDeref, FPanicCustom))
		}
		if w.p(0.1) {
			m.VarSym[pick(rng, requiredFns...)] = true
		}
	}
	if w.p(0.1) {
		m.Faults["OnFree"] = w.newFault(true, "OnFree:"+m.id())
	} else if w.p(0.1) {
		m.Faults["OnFree"] = &Fault{Kind: -1, Sleep: 1 + rng.IntN(3000)}
	}
	if w.p(0.12) {
		m.Faults["InvokeFunc"] = w.newFault(w.p(0.5), "Invoke:"+m.id())
	}
	w.render(m)
	return m
}

// render makes the content of a new version. Now and then it differs from an
// earlier version of the plugin in a single byte, or only in its length.
func (w *World) render(m *Img) {
	m.render()
	if !w.static {
		for id := m.ID - 1; id > 0; id-- {
			old := w.byID[id]
			if old == nil || old.Name != m.Name || len(old.Content) == 0 {
				continue
			}
			if big := len(old.Content) > 1<<20; !w.p(0.15) && !(big && w.p(0.7)) {
				break
			}
			c := append([]byte(nil), old.Content...)
			head := bytes.IndexByte(c, '\n') + 1
			switch n := len(c) - head; w.rng.IntN(4) {
			case 0:
				c = append(c, pick(w.rng, "\x00", "\n", " ", "\x00\x00\x00", "\r\n", "x")...)
			case 1:
				if n > 0 {
					c[head+w.rng.IntN(n)] ^= 1 << w.rng.IntN(8)
				}
			case 2:
				if n > 0 {
					c[len(c)-1]++
				}
			case 3:
				if n > 0 {
					c = c[:len(c)-1]
				}
			}
			if w.byData[string(c)] == nil {
				m.Content = c
				w.rec.count("near_copies", 1)
			}
			break
		}
	}
	w.byData[string(m.Content)] = m
}

func (w *World) newFault(mustPanic bool, mark string) *Fault {
	k := FaultKind(w.rng.IntN(int(nFaultKinds)))
	if mustPanic {
		k = FPanicStr + FaultKind(w.rng.IntN(int(nFaultKinds-FPanicStr)))
	}
	f := &Fault{Kind: k, Mark: fmt.Sprintf("<%s;%d>", mark, w.rng.IntN(1000))}
	if w.p(0.15) {
		f.Sleep = 1 + w.rng.IntN(20000)
		if strings.HasPrefix(mark, "OnFree") {
			f.Sleep = 1 + w.rng.IntN(3000)
		}
	}
	return f
}

func (w *World) genFields(m *Img, bad func(float64) bool) {
	rng := w.rng
	used := map[string]bool{}
	add := func(f Field) {
		if f.Name != "_" && used[f.Name] {
			return
		}
		used[f.Name] = true
		m.Fields = append(m.Fields, f)
	}
	me := -1
	for i, n := range w.perm {
		if name2key(n) == name2key(m.Name) {
			me = i
		}
	}
	dens := pick(rng, 0.15, 0.4, 0.8)
	for i, n := range w.perm {
		if !importable(n) {
			continue
		}
		if i == me && !bad(w.prof.Bad) {
			continue
		}
		if i > me && !bad(w.prof.Bad*2) {
			continue
		}
		if !w.p(dens) {
			continue
		}
		t := w.target(name2key(n))
		if t == nil && !bad(w.prof.Bad*3) {
			continue
		}
		if t != nil && !m.Reloadable && t.Reloadable && !bad(w.prof.Bad*3) {
			continue
		}
		f := Field{Name: w.fieldName(n), Preset: w.p(0.3)}
		var ok []int
		for ft := range fieldTypes {
			if t == nil || fits(t.Exp, ft) {
				ok = append(ok, ft)
			}
		}
		f.Type = pick(rng, ok...)
		if bad(w.prof.Bad * 3) {
			f.Type = rng.IntN(len(fieldTypes))
		}
		f.Tag = pick(rng, "", "", "", `json:"-"`, `hotswap:"x"`, `hotswap:"-x"`, `hotswap:"-,"`, `hotswap:" -"`, `hotswap:"--"`, `hotswap:""`, `hotSwap:"-"`, `json:"hotswap:-" x:"-"`)
		add(f)
		if w.p(0.03) { // the same plugin twice, under different capitalisations
			f.Name = w.fieldName(n)
			add(f)
		}
	}
	for i, n := 0, rng.IntN(3); i < n; i++ {
		f := Field{Type: rng.IntN(len(fieldTypes)), Preset: w.p(0.6)}
		switch rng.IntN(4) {
		case 0:
			f.Name = strings.ToLower(pick(rng, "alpha", "beta", "gamma", "delta", "éclair"))
		case 1:
			f.Name = pick(rng, "_x", "ωmega", "ßeta", "世界", "éclair", "_Alpha", "μ")
		default:
			f.Name = w.fieldName(pick(rng, "alpha", "Beta", "nosuch", "delta", "ωmega", "gammA", m.Name))
			f.Tag = pick(rng, `hotswap:"-"`, `hotswap:"-"`, `json:"x" hotswap:"-"`, `hotswap:"-" json:"x"`)
			if !importable(f.Name) {
				continue
			}
		}
		add(f)
	}
	rng.Shuffle(len(m.Fields), func(i, j int) { m.Fields[i], m.Fields[j] = m.Fields[j], m.Fields[i] })
}

// ---- the plugin directory --------------------------------------------------------

func (w *World) write(name string, e *fileEnt) {
	p := filepath.Join(w.dir, name)
	if e.isDir {
		must(os.MkdirAll(p, 0755))
	} else if e.dangling {
		_ = os.Remove(p)
		must(os.Symlink(filepath.Join(w.dir, "nowhere"), p))
	} else {
		data := e.raw
		if e.img != nil {
			data = e.img.Content
		}
		if w.p(0.5) {
			// Like go build: a new file moved over the old one.
			t := p + ".new"
			must(os.WriteFile(t, data, 0644))
			must(os.Rename(t, p))
		} else {
			must(os.WriteFile(p, data, pick(w.rng, os.FileMode(0644), 0755, 0600)))
		}
	}
	fi, err := os.Lstat(p)
	must(err)
	e.fi = fi
	w.files[name] = e
}

func (w *World) remove(name string) {
	p := filepath.Join(w.dir, name)
	if !strings.HasPrefix(p, w.dir+string(filepath.Separator)) {
		panic("outside the scratch directory: " + p)
	}
	must(os.Remove(p))
	delete(w.files, name)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func (w *World) soFiles() []string {
	var a []string
	for n, e := range w.files {
		if e.img != nil && strings.HasSuffix(n, ".so") {
			a = append(a, n)
		}
	}
	sort.Strings(a)
	return a
}

func (w *World) fileOf(key string) string {
	for _, n := range w.soFiles() {
		if name2key(strings.TrimSuffix(n, ".so")) == key {
			return n
		}
	}
	return ""
}

func (w *World) permRank(name string) int {
	for i, n := range w.perm {
		if name2key(n) == name2key(name) {
			return i
		}
	}
	return -1
}

func (w *World) sortByPerm(a []string) {
	sort.SliceStable(a, func(i, j int) bool {
		return w.permRank(strings.TrimSuffix(a[i], ".so")) < w.permRank(strings.TrimSuffix(a[j], ".so"))
	})
}

func (w *World) rebuild(file string, strict bool) {
	m := w.newImg(strings.TrimSuffix(file, ".so"), strict)
	w.write(file, &fileEnt{img: m})
	w.tracef("build %s", m)
}

// dependents are the files of plugins that directly or indirectly import key.
func (w *World) dependents(key string) []string {
	in := map[string]bool{key: true}
	for changed := true; changed; {
		changed = false
		for _, f := range w.soFiles() {
			k := name2key(strings.TrimSuffix(f, ".so"))
			m := w.target(k)
			if in[k] || m == nil || m.Imp != ImpStruct {
				continue
			}
			for _, x := range m.Fields {
				if x.exported() && !x.skipped() && in[name2key(x.Name)] {
					in[k] = true
					changed = true
				}
			}
		}
	}
	var a []string
	for k := range in {
		if f := w.fileOf(k); k != key && f != "" {
			a = append(a, f)
		}
	}
	sort.Strings(a)
	w.sortByPerm(a)
	return a
}

var junkNames = []string{"readme.txt", "x.so.bak", "UPPER.SO", "noext", "so", "alpha.so~", "beta.so.1", ".hidden", "alpha.soo"}

func (w *World) edit(strict bool) {
	rng := w.rng
	sos := w.soFiles()
	switch r := rng.Float64(); {
	case r < 0.48 && len(sos) > 0:
		f := pick(rng, sos...)
		deps := w.dependents(name2key(strings.TrimSuffix(f, ".so")))
		w.rebuild(f, strict)
		if w.p(0.85) {
			for _, d := range deps {
				w.rebuild(d, strict)
			}
		}
	case r < 0.68 || len(sos) == 0:
		n := pick(rng, w.perm...)
		if w.fileOf(name2key(n)) == "" && len(sos) < w.prof.MaxPl {
			w.rebuild(n+".so", strict)
		}
	case r < 0.78:
		f := pick(rng, sos...)
		deps := w.dependents(name2key(strings.TrimSuffix(f, ".so")))
		w.remove(f)
		w.tracef("remove %s", f)
		if w.p(0.8) {
			for _, d := range deps {
				w.rebuild(d, strict)
			}
		}
	case r < 0.84:
		f := pick(rng, sos...)
		w.write(f, w.files[f])
		w.tracef("touch %s", f)
	case r < 0.87:
		f := pick(rng, sos...)
		n := strings.TrimSuffix(f, ".so")
		g := pick(rng, strings.ToUpper(n), strings.ToLower(n)) + ".so"
		if w.files[g] == nil && w.white == nil {
			e := w.files[f]
			w.remove(f)
			w.write(g, &fileEnt{img: e.img})
			w.tracef("rename %s to %s", f, g)
		}
	case r < 0.89:
		w.write("dir.so", &fileEnt{isDir: true})
		w.tracef("mkdir dir.so")
	case r < 0.95:
		n := pick(rng, junkNames...)
		e := &fileEnt{raw: []byte("junk")}
		if len(sos) > 0 && w.p(0.5) {
			e = &fileEnt{raw: w.files[pick(rng, sos...)].img.Content}
		}
		w.write(n, e)
		w.tracef("junk file %s", n)
	default:
		if strict {
			return
		}
		switch rng.IntN(4) {
		case 0:
			n := strings.TrimSuffix(pick(rng, sos...), ".so")
			if n == "" {
				return
			}
			g := pick(rng, strings.ToUpper(n), strings.ToLower(n), strings.ToUpper(n[:1])+n[1:]) + ".so"
			if w.files[g] == nil && n[0] < 128 {
				w.rebuild(g, strict)
			}
		case 1:
			w.write("junk.so", &fileEnt{raw: []byte(pick(rng, "", "junk", "\x7fELF"))})
			w.tracef("junk.so")
		case 2:
			w.write("dangling.so", &fileEnt{dangling: true})
			w.tracef("dangling.so")
		case 3:
			f := pick(rng, sos...)
			k := name2key(strings.TrimSuffix(f, ".so"))
			for id := 1; id <= w.nextID; id++ {
				if m := w.byID[id]; m != nil && name2key(m.Name) == k && w.p(0.5) {
					w.write(f, &fileEnt{img: m})
					w.tracef("restore %s", m)
					break
				}
			}
		}
	}
}

// repair turns the directory into one that can be loaded.
func (w *World) repair() {
	if w.p(0.9) {
		w.unblockCopies()
	}
	for _, n := range []string{"junk.so", "dangling.so"} {
		if w.files[n] != nil {
			w.remove(n)
		}
	}
	seen := map[string]bool{}
	for _, f := range w.soFiles() {
		k := name2key(strings.TrimSuffix(f, ".so"))
		if seen[k] {
			w.remove(f)
			continue
		}
		seen[k] = true
	}
	if g := w.cur(); g != nil {
		// Plugins that stay need what they import.
		for changed := true; changed; {
			changed = false
			for _, f := range w.soFiles() {
				in := g.m[name2key(strings.TrimSuffix(f, ".so"))]
				if in == nil || in.img.Reloadable {
					continue
				}
				for _, d := range in.deps {
					if w.fileOf(name2key(d.img.Name)) == "" {
						w.rebuild(d.img.Name+".so", true)
						changed = true
					}
				}
			}
		}
	}
	if w.white != nil {
		for _, n := range w.white {
			if w.files[n+".so"] == nil {
				w.rebuild(n+".so", true)
			}
		}
	}
	a := w.soFiles()
	w.sortByPerm(a)
	for _, f := range a {
		k := name2key(strings.TrimSuffix(f, ".so"))
		if g := w.cur(); g != nil && g.m[k] != nil && !g.m[k].img.Reloadable {
			continue
		}
		w.rebuild(f, true)
	}
}

// freshen makes versions again that the process cannot load any more.
func (w *World) freshen() {
	p := w.predict([2]*Fault{}, false)
	var again []string
	for _, k := range p.keys() {
		e := p.m[k]
		if e.mode != modeFresh || e.img == nil {
			continue
		}
		// A failed version is rebuilt without its defect, more often than not.
		faulty := false
		for _, fn := range []string{"Reloadable", "Export", "Import", "OnLoad", "OnInit", "HotswapLiveFuncs", "HotswapLiveTypes"} {
			if f := e.img.Faults[fn]; f != nil && f.Kind >= 0 {
				faulty = true
			}
		}
		if (w.loaded[e.img.ID] && w.p(0.97)) || (faulty && w.p(0.85)) || (e.img.InitPanic > 0 && w.p(0.9)) ||
			((e.img.OpenErr || len(e.img.Missing) > 0 || e.img.BadType != "") && w.attempt > 0 && w.p(0.7)) {
			again = append(again, e.name+".so")
		}
	}
	if len(again) == 0 {
		return
	}
	if w.p(0.3) {
		w.sortByPerm(again)
		for _, f := range again {
			w.rebuild(f, true)
		}
		return
	}
	// The same code built again.
	for _, f := range again {
		old := w.files[f].img
		m := *old
		w.nextID++
		m.ID = w.nextID
		w.byID[m.ID] = &m
		m.Faults = map[string]*Fault{}
		for _, fn := range []string{"OnFree", "InvokeFunc"} {
			if x := old.Faults[fn]; x != nil {
				m.Faults[fn] = x
			}
		}
		m.OpenErr, m.InitPanic, m.Missing, m.BadType = false, 0, nil, ""
		w.render(&m)
		w.write(f, &fileEnt{img: &m})
		w.tracef("build again %s", &m)
	}
}

func (w *World) clearFaults() {
	for _, m := range w.statImg {
		for _, fn := range []string{"Reloadable", "Export", "Import", "OnLoad", "OnInit", "HotswapLiveFuncs", "HotswapLiveTypes"} {
			delete(m.Faults, fn)
		}
	}
}

// plant makes the next load fail, or be slow.
func (w *World) plant(kind loadKind, extra bool) (cb [2]*Fault) {
	rng := w.rng
	p := w.predict(cb, extra)
	var fresh []*Img
	for _, k := range p.keys() {
		if e := p.m[k]; e.mode == modeFresh && e.img != nil {
			fresh = append(fresh, e.img)
		}
	}
	n := 1
	if w.p(0.1) {
		n = 2
	}
	for ; n > 0; n-- {
		if w.p(0.3) && (w.useCb || extra) {
			i := 0
			if extra && (!w.useCb || w.p(0.5)) {
				i = 1
			}
			cb[i] = w.newFault(w.p(0.5), fmt.Sprintf("callback%d", i))
			continue
		}
		if len(fresh) == 0 {
			return
		}
		m := pick(rng, fresh...)
		fn := pick(rng, "OnLoad", "OnInit", "OnInit", "OnLoad", "Export", "Import", "Reloadable", "HotswapLiveFuncs", "HotswapLiveTypes")
		if fn == "HotswapLiveFuncs" && w.p(0.7) {
			fn = "OnInit"
		}
		m.Faults[fn] = w.newFault(fn != "OnLoad" && fn != "OnInit", fn+":"+m.id())
		w.tracef("fault %s %s %d", fn, m.id(), m.Faults[fn].Kind)
	}
	return
}

func (w *World) slow(cb *[2]*Fault, kind loadKind, extra bool) {
	if !w.p(0.12) {
		return
	}
	p := w.predict(*cb, extra)
	for _, k := range p.keys() {
		e := p.m[k]
		if e.mode == modeFresh && e.img != nil && w.p(0.4) {
			fn := pick(w.rng, "OnLoad", "OnInit", "Export", "Import")
			if e.img.Faults[fn] == nil {
				e.img.Faults[fn] = &Fault{Kind: -1, Sleep: pick(w.rng, 10, 1000, 7000, 20000, 100000)}
			}
		}
	}
	if w.useCb && cb[0] == nil && w.p(0.5) {
		cb[0] = &Fault{Kind: -1, Sleep: pick(w.rng, 10, 1000, 14000, 20000, 400000)}
	}
}

var delays = []time.Duration{-time.Second, 0, time.Second, 10 * time.Second, 15 * time.Second, 16 * time.Second, time.Minute, 5 * time.Minute, 2 * time.Hour,
	15*time.Second + 500*time.Millisecond, 15*time.Second + 1, 20*time.Second - 1, 90*time.Second + 123456789}

// run performs one generated history.
func (w *World) run() {
	rng := w.rng
	defer func() {
		for _, o := range w.openLog {
			o.f.Close()
		}
	}()
	must(os.MkdirAll(w.dir, 0755))
	w.perm = append([]string(nil), plugNames...)
	if w.p(0.25) {
		for i, n := 0, 1+rng.IntN(4); i < n; i++ {
			if x := pick(rng, oddNames...); !slices.Contains(w.perm, x) {
				w.perm[rng.IntN(len(w.perm))] = x
			}
		}
	}
	rng.Shuffle(len(w.perm), func(i, j int) { w.perm[i], w.perm[j] = w.perm[j], w.perm[i] })
	w.dirOK = true
	w.static = w.p(w.prof.Static)
	w.blockCopies(0.04)
	w.useCb = w.p(w.prof.Cb)
	w.useExt = w.p(0.5)
	if w.haveDel = w.p(0.85); w.haveDel {
		w.delay = pick(rng, delays...)
	}
	hotswapOpen = w.open
	defer func() { hotswapOpen = nil }()

	n := rng.IntN(w.prof.MaxPl + 1)
	if w.p(0.02) {
		n = 0
	}
	var names []string
	for i, x := range w.perm {
		if i < n {
			names = append(names, x)
		}
	}
	strictWorld := !w.p(w.prof.Bad2)
	if w.static {
		w.runStatic(names, strictWorld)
		return
	}
	for _, x := range names {
		w.rebuild(x+".so", strictWorld)
	}
	if w.p(w.prof.White) && len(names) > 0 {
		for _, x := range names {
			if w.p(0.6) {
				w.white = append(w.white, x)
			}
		}
		if len(w.white) > 0 && w.p(0.25) {
			w.white = append(w.white, w.white[0])
		}
		if w.p(0.1) {
			w.white = append(w.white, "ghost")
		}
	}
	w.tracef("world: delay=%s(%v) white=%v cb=%v ext=%v", w.delay, w.haveDel, w.white, w.useCb, w.useExt)
	if w.p(0.15) {
		w.link = filepath.Join(filepath.Dir(w.dir), "current")
		w.relink()
	}
	w.sw = hotswap.NewPluginManagerSwapper(w.given(), w.options()...)
	if w.sw.Current() != nil {
		w.viol("R02", "Current() is not nil before the first load")
	}
	if w.sw.StaticLinkingMode() {
		w.viol("R14", "StaticLinkingMode() without static plugins")
	}

	ops := w.prof.MinOps + rng.IntN(w.prof.MaxOps-w.prof.MinOps+1)
	for i := 0; i < ops && !w.trivial; i++ {
		progress.Add(1)
		r := rng.Float64()
		switch {
		case i > 0 && r < w.prof.FreeMix:
			w.sleep(w.someDelay())
		case i > 0 && r < w.prof.FreeMix+w.prof.Invoke && len(w.gens) > 0:
			g := w.gens[len(w.gens)-1-rng.IntN(min(len(w.gens), 2))]
			if g.supersedeT < 0 || w.now() < g.supersedeT+w.effDelay() {
				w.invoke(g, w.p(0.5))
			}
		case i > 0 && r < w.prof.FreeMix+w.prof.Invoke+0.03:
			w.moveDir()
		case i > 0 && r < w.prof.FreeMix+w.prof.Invoke+0.05:
			bad := pick(rng, "", "  ", filepath.Join(w.dir, "absent"), "/dev/null")
			w.sw.ResetPluginDir(bad)
			w.dirOK = false
			w.tracef("plugin directory set to %q", bad)
			w.load(pick(rng, kLoadPlugins, kReload), false, [2]*Fault{})
			w.sw.ResetPluginDir(w.given())
			w.dirOK = true
		default:
			w.step(i == 0)
		}
	}
	w.finish()
}

func (w *World) step(first bool) {
	rng := w.rng
	strict := !w.p(w.prof.Bad2)
	if !first {
		for i, n := 0, rng.IntN(4); i < n; i++ {
			w.edit(strict && w.p(0.9))
		}
	}
	if !first && w.p(0.4) {
		w.unblockCopies()
	}
	w.freshen()
	kind := pick(rng, kLoadPlugins, kReload, kReload, kReloadCb, kReloadCb)
	if first {
		kind = pick(rng, kLoadPlugins, kLoadPlugins, kLoadPlugins, kReload, kReloadCb)
	}
	extra := kind == kReloadCb && w.p(0.8)
	if strict {
		for i := 0; i < 4; i++ {
			if len(w.predict([2]*Fault{}, extra).causes) == 0 {
				break
			}
			w.repair()
		}
	}
	var cb [2]*Fault
	if w.p(w.prof.Fault) {
		cb = w.plant(kind, extra)
	}
	if w.prof.Sleeps {
		w.slow(&cb, kind, extra)
	}
	if w.p(0.02) {
		w.limitFiles()
	}
	w.load(kind, extra, cb)
	w.unlimitFiles()
	w.settle()
}

func (w *World) someDelay() time.Duration {
	d := w.effDelay()
	return pick(w.rng, time.Second, 14*time.Second, 15*time.Second-time.Millisecond, 15*time.Second, 16*time.Second,
		d-time.Millisecond, d-time.Second, d, d+2*time.Minute, d/2, d/3, d/2+time.Second, 3*time.Hour)
}

// given is the path of the plugin directory that the host uses: if it is a symbolic link, moving
// to another directory needs no call.
func (w *World) given() string {
	if w.link != "" {
		return w.link
	}
	return w.dir
}

func (w *World) relink() {
	must(os.Symlink(filepath.Base(w.dir), w.link+".new"))
	must(os.Rename(w.link+".new", w.link))
	w.rec.count("plugin_dir_links", 1)
}

// moveDir points the swapper to another directory holding the same files.
func (w *World) moveDir() {
	w.dir = filepath.Join(filepath.Dir(w.dir), fmt.Sprintf("d%d", len(w.dirs)))
	w.dirs = append(w.dirs, w.dir)
	must(os.MkdirAll(w.dir, 0755))
	var names []string
	for n := range w.files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		e := *w.files[n]
		w.write(n, &e)
	}
	if w.link != "" {
		w.relink()
	} else {
		w.sw.ResetPluginDir(w.dir)
	}
	w.tracef("plugin directory is now %s", filepath.Base(w.dir))
	w.tmpBlock = false
	w.blockCopies(0.1)
}

// blockCopies makes it impossible to make copies in a directory that holds none.
func (w *World) blockCopies(prob float64) {
	if w.static || !w.p(prob) {
		return
	}
	w.tmpBlock = true
	tmp := filepath.Join(w.dir, "tmp")
	if w.p(0.5) {
		must(os.WriteFile(tmp, []byte("junk"), 0644))
	} else {
		must(os.Symlink(filepath.Join(w.dir, "nowhere", "x"), tmp))
	}
	w.tracef("copies cannot be made in %s", filepath.Base(w.dir))
}

func (w *World) unblockCopies() {
	if w.tmpBlock {
		must(os.Remove(filepath.Join(w.dir, "tmp")))
		w.tmpBlock = false
		w.tracef("copies can be made again in %s", filepath.Base(w.dir))
	}
}

// limitFiles lets writing a copy of some plugin files fail in the middle.
func (w *World) limitFiles() {
	var sizes []int
	for _, f := range w.soFiles() {
		if m := w.files[f].img; m != nil {
			sizes = append(sizes, len(m.Content))
		}
	}
	if len(sizes) == 0 {
		return
	}
	w.fsLimit = max(1, pick(w.rng, sizes...)-1-w.rng.IntN(20))
	w.tracef("no file may be larger than %d bytes", w.fsLimit)
	signal.Ignore(syscall.SIGXFSZ)
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &w.fsOld))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(w.fsLimit), Max: w.fsOld.Max}))
}

func (w *World) unlimitFiles() {
	if w.fsLimit > 0 {
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &w.fsOld))
		w.fsLimit = 0
	}
}

func (w *World) finish() {
	if w.trivial {
		return
	}
	w.sleep(w.effDelay() + 10*time.Minute)
	if g := w.cur(); g != nil {
		w.invoke(g, false)
		w.invoke(g, true)
		if s := w.snapshotNoBag(g.mgr); s != stripBag(g.snap) {
			w.viol("R01", "the current generation changed in the end.\nbefore:\n%safter:\n%s", g.snap, s)
			w.viol("R05", "the current generation changed in the end.\nbefore:\n%safter:\n%s", g.snap, s)
			w.sameDescription(g.snap, s)
		}
		for _, in := range g.m {
			if in.counts["OnFree"] > 0 {
				w.viol("R05", "%s of the current generation was freed", in)
			}
		}
	}
	w.checkCopies(true)
	if !w.static {
		w.checkOriginals()
	}
}

func (w *World) runStatic(names []string, strict bool) {
	rng := w.rng
	if len(names) == 0 {
		names = w.perm[:1]
	}
	for _, n := range names {
		m := w.newImg(n, strict)
		w.statImg[n] = m
		w.tracef("static %s", m)
	}
	if !strict && w.p(0.15) {
		n := names[0]
		if u := strings.ToUpper(n); u != n {
			m := w.newImg(u, true)
			w.statImg[u] = m
			w.tracef("static %s", m)
		}
	}
	for n, m := range w.statImg {
		w.statMap[n] = w.staticPlugin(m)
	}
	if w.p(w.prof.White) {
		for _, x := range names {
			if w.p(0.7) {
				w.white = append(w.white, x)
			}
		}
		if len(w.white) > 0 && w.p(0.25) {
			w.white = append(w.white, w.white[0])
		}
		if w.p(0.15) {
			w.white = append(w.white, "ghost")
		}
	}
	dir := pick(rng, "", w.dir, filepath.Join(w.dir, "absent"))
	w.tracef("static world: white=%v cb=%v ext=%v dir=%q", w.white, w.useCb, w.useExt, filepath.Base(dir))
	w.sw = hotswap.NewPluginManagerSwapper(dir, append(w.options(), hotswap.WithStaticPlugins(w.statMap))...)
	ops := w.prof.MinOps + rng.IntN(4)
	for i := 0; i < ops && !w.trivial; i++ {
		progress.Add(1)
		switch {
		case w.p(0.2):
			w.load(pick(rng, kReload, kReloadCb), w.p(0.5), [2]*Fault{})
		case len(w.gens) == 0:
			w.clearFaults()
			var cb [2]*Fault
			if w.p(w.prof.Fault) {
				cb = w.plant(kLoadPlugins, false)
			}
			w.load(kLoadPlugins, false, cb)
		case w.p(0.6):
			w.invoke(w.cur(), w.p(0.5))
		default:
			w.sleep(w.someDelay())
		}
	}
	w.finish()
}

// History runs history idx of a seed in its own bubble of virtual time.
func History(t *testing.T, rec *Rec, root string, prop string, seed, idx uint64, nosleep bool) (viols []Viol, trace []string) {
	prof := profileOf(prop)
	if nosleep {
		prof.Sleeps = false
	}
	dir := filepath.Join(root, fmt.Sprintf("h%d", idx))
	synctest.Test(t, func(t *testing.T) {
		w := newWorld(rec, rand.New(rand.NewPCG(seed, idx)), &prof, dir)
		w.run()
		w.mu.Lock()
		viols, trace = w.viols, w.trace
		if len(viols) > 0 {
			for _, e := range w.events {
				trace = append(trace, e.String())
			}
		}
		w.rec.count("events", len(w.events))
		w.rec.count("histories", 1)
		w.mu.Unlock()
	})
	_ = os.RemoveAll(dir)
	return
}
