package rt

import (
	"bytes"
	"crypto/sha1"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"plugin"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/slog"
)

// ---- results shared by all workloads -----------------------------------------

type Viol struct {
	Prop string
	Msg  string
}

// Rec collects what a process observed.
type Rec struct {
	mu      sync.Mutex
	Evals   map[string]int                 // property -> oracle evaluations
	Sigs    map[string]map[uint64]struct{} // property -> distinct non-trivial situations
	Counts  map[string]int                 // free-form counters
	Samples map[string][]string            // property -> a few situations, written out
}

func newRec() *Rec {
	return &Rec{Evals: map[string]int{}, Sigs: map[string]map[uint64]struct{}{}, Counts: map[string]int{},
		Samples: map[string][]string{}}
}

func hash64(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (r *Rec) eval(prop string, n int) {
	r.mu.Lock()
	r.Evals[prop] += n
	r.mu.Unlock()
}

// hit notes that an oracle of prop decided a non-trivial situation, described by sig.
func (r *Rec) hit(prop, sig string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Evals[prop]++
	m := r.Sigs[prop]
	if m == nil {
		m = map[uint64]struct{}{}
		r.Sigs[prop] = m
	}
	h := hash64(sig)
	if _, ok := m[h]; !ok {
		m[h] = struct{}{}
		if n := len(m); len(r.Samples[prop]) < 6 && (n < 3 || n%97 == 0) {
			r.Samples[prop] = append(r.Samples[prop], sig)
		}
	}
}

func (r *Rec) count(k string, n int) {
	r.mu.Lock()
	r.Counts[k] += n
	r.mu.Unlock()
}

var progress atomic.Int64 // bumped on every event, read by the watchdog

// ---- the world of one history ---------------------------------------------------

type Ev struct {
	Seq     int
	T       time.Duration
	Attempt int
	Inst    *Inst
	Fn      string
	End     bool
	Args    string
	NoData  bool
}

func (e Ev) String() string {
	who := "-"
	if e.Inst != nil {
		who = e.Inst.String()
	}
	x := e.Fn
	if e.End {
		x += "/end"
	}
	return fmt.Sprintf("#%d t=%s att=%d %s %s %s", e.Seq, e.T, e.Attempt, who, x, e.Args)
}

// Inst is one running instance of an image.
type Inst struct {
	img       *Img
	attempt   int
	counts    map[string]int
	ended     map[string]bool // functions that returned normally
	firstSeq  map[string]int
	lastEnd   map[string]int
	exported  interface{}
	imp       interface{}
	impInit   map[int]string
	onData    interface{}
	onVault   *vault.Vault
	vaultOK   string
	freeT     time.Duration
	freeSeq   int
	freeEnd   int
	path      string
	sha       [sha1.Size]byte
	deps      []*Inst
	resolved  bool
	published bool
}

func (in *Inst) String() string { return fmt.Sprintf("%s[%d]/%d", in.img.Name, in.img.ID, in.attempt) }

type Gen struct {
	n          int
	mgr        *hotswap.PluginManager
	m          map[string]*Inst
	supersedeT time.Duration // <0: current
	snap       string
	ext        interface{}
}

type opened struct {
	path string
	f    *os.File
	fi   os.FileInfo
	data []byte
}

type logLine struct {
	seq   int
	level string
	text  string
}

type World struct {
	rec      *Rec
	rng      *rand.Rand
	prof     *Profile
	tmpBlock bool // copies cannot be made
	fsLimit  int  // no file can be larger
	fsOld    syscall.Rlimit

	start time.Time

	mu      sync.Mutex
	seq     int
	events  []Ev
	logs    []logLine
	viols   []Viol
	trace   []string
	silent  atomic.Bool // whoami calls are not events
	trivial bool

	dirOK   bool
	dir     string
	dirs    []string
	link    string // the symbolic link by which the host knows dir, if any
	sw      *hotswap.PluginManagerSwapper
	static  bool
	statMap map[string]*hotswap.StaticPlugin
	statImg map[string]*Img
	statIn  map[*Img]*Inst
	delay   time.Duration
	haveDel bool
	white   []string
	useCb   bool
	useExt  bool

	// what is on disk
	files  map[string]*fileEnt
	perm   []string
	nextID int
	byID   map[int]*Img
	byData map[string]*Img

	// dynamic loader
	byPath  map[string]*plugin.Plugin
	loaded  map[int]bool
	openLog []*opened
	initPan map[string]bool

	// model
	gens      []*Gen // all published, last one is current
	attempt   int
	inLoad    bool
	inLoadEvs bool
	before    *hotswap.PluginManager
	relBefore int64
	okLoads   int
	okRel     int64
	all       []*Inst
	insts     map[[2]int]*Inst
	extN      int
	extMade   []interface{}
	curData   interface{}
	cbCalls   []cbCall
	cbFaults  [2]*Fault
	curPred   *Pred
	onHook    func(in *Inst, fn string)
	onOpen    func()
	lenient   bool // files change while they are loaded
}

type cbCall struct {
	which    int
	nm, om   *hotswap.PluginManager
	seq      int
	curAtCb  *hotswap.PluginManager
	numInits int
}

type fileEnt struct {
	img      *Img
	isDir    bool
	dangling bool
	raw      []byte // junk
	mod      time.Time
	fi       os.FileInfo
}

func (w *World) now() time.Duration { return time.Since(w.start) }

func (w *World) viol(prop, format string, args ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.violLocked(prop, format, args...)
}

func (w *World) violLocked(prop, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	w.viols = append(w.viols, Viol{prop, msg})
	w.trace = append(w.trace, fmt.Sprintf("!! [%s] %s", prop, msg))
	if w.static {
		w.viols = append(w.viols, Viol{"R14", "[" + prop + "] " + msg})
	}
}

func (w *World) tracef(format string, args ...interface{}) {
	w.mu.Lock()
	w.trace = append(w.trace, fmt.Sprintf("t=%s ", w.now())+fmt.Sprintf(format, args...))
	w.mu.Unlock()
}

// ---- logger ------------------------------------------------------------------------

type capLogger struct {
	slog.Logger
	w *World
}

func (l capLogger) add(level, text string) {
	l.w.mu.Lock()
	l.w.logs = append(l.w.logs, logLine{l.w.seq, level, text})
	l.w.mu.Unlock()
}
func (l capLogger) Debug(a ...any)            {}
func (l capLogger) Debugf(f string, a ...any) {}
func (l capLogger) Info(a ...any)             {}
func (l capLogger) Infof(f string, a ...any)  {}
func (l capLogger) Warn(a ...any)             { l.add("warn", fmt.Sprint(a...)) }
func (l capLogger) Warnf(f string, a ...any)  { l.add("warn", fmt.Sprintf(f, a...)) }
func (l capLogger) Error(a ...any)            { l.add("error", fmt.Sprint(a...)) }
func (l capLogger) Errorf(f string, a ...any) { l.add("error", fmt.Sprintf(f, a...)) }
func (l capLogger) Errorw(m string, kv ...any) {
	l.add("error", m+" "+fmt.Sprint(kv...))
}
func (l capLogger) Warnw(m string, kv ...any) {
	l.add("warn", m+" "+fmt.Sprint(kv...))
}

func (w *World) logged(from int, text string) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, l := range w.logs {
		if l.seq >= from && strings.Contains(l.text, text) {
			return true
		}
	}
	return false
}

// ---- plugin function hooks --------------------------------------------------------

func (w *World) begin(in *Inst, fn string, args string) (seq int) {
	progress.Add(1)
	w.mu.Lock()
	w.seq++
	seq = w.seq
	w.events = append(w.events, Ev{Seq: seq, T: w.now(), Attempt: w.attempt, Inst: in, Fn: fn, Args: args})
	in.counts[fn]++
	if in.firstSeq[fn] == 0 {
		in.firstSeq[fn] = seq
	}
	inLoad, before, rel := w.inLoad, w.before, w.relBefore
	if fn == "OnFree" && in.attempt != w.attempt {
		inLoad = false // a delayed call runs beside the load, which may complete at any moment
	}
	sw := w.sw
	w.mu.Unlock()

	if inLoad && fn != "InvokeFunc" {
		// Reading never shows an unfinished generation, and never waits.
		if cur := sw.Current(); cur != before {
			w.viol("R02", "Current() changed before the load completed (seen in %s of %s)", fn, in)
		}
		if n := sw.ReloadCounter(); n != rel {
			w.viol("R13", "ReloadCounter went from %d to %d before the load completed (seen in %s of %s)", rel, n, fn, in)
		}
		if sw.StaticLinkingMode() != w.static {
			w.viol("R14", "StaticLinkingMode() is %v in %s of %s", !w.static, fn, in)
		}
		w.rec.eval("R02", 1)
	}
	if h := w.onHook; h != nil {
		h(in, fn)
	}
	return seq
}

func (w *World) end(in *Inst, fn string) {
	w.mu.Lock()
	w.seq++
	in.ended[fn] = true
	in.lastEnd[fn] = w.seq
	w.mu.Unlock()
}

func (w *World) fault(in *Inst, fn string) error {
	f := in.img.Faults[fn]
	if f == nil {
		return nil
	}
	if f.Sleep > 0 && w.prof.Sleeps {
		time.Sleep(time.Duration(f.Sleep) * time.Millisecond)
	}
	if f.Kind < 0 {
		return nil
	}
	return f.fire()
}

// mk makes the functions of an image. get yields the instance (for static
// plugins it depends on the attempt).
func (w *World) mk(m *Img, get func(fn string) *Inst) (fns struct {
	OnLoad     func(data interface{}) error
	OnInit     func(v *vault.Vault) error
	OnFree     func()
	Export     func() interface{}
	Import     func() interface{}
	InvokeFunc func(name string, params ...interface{}) (interface{}, error)
	Reloadable func() bool
	LF         func() map[string]interface{}
	LT         func() map[string]func() interface{}
}) {
	fns.Reloadable = func() bool {
		in := get("Reloadable")
		w.begin(in, "Reloadable", "")
		_ = w.fault(in, "Reloadable")
		w.end(in, "Reloadable")
		return m.Reloadable
	}
	fns.Export = func() interface{} {
		in := get("Export")
		w.begin(in, "Export", "")
		_ = w.fault(in, "Export")
		w.end(in, "Export")
		w.mu.Lock()
		again := in.counts["Export"]
		w.mu.Unlock()
		if again > 1 {
			return makeExport(m.Exp, m.id()+"again")
		}
		return in.exported
	}
	fns.Import = func() interface{} {
		in := get("Import")
		w.begin(in, "Import", "")
		_ = w.fault(in, "Import")
		w.end(in, "Import")
		return in.imp
	}
	fns.OnLoad = func(data interface{}) error {
		in := get("OnLoad")
		w.begin(in, "OnLoad", "")
		w.mu.Lock()
		in.onData = data
		w.mu.Unlock()
		w.checkImports(in.attempt, "at OnLoad of "+in.String())
		err := w.fault(in, "OnLoad")
		if err == nil {
			w.end(in, "OnLoad")
		}
		return err
	}
	fns.OnInit = func(v *vault.Vault) error {
		in := get("OnInit")
		w.begin(in, "OnInit", "")
		w.onInit(in, v)
		err := w.fault(in, "OnInit")
		if err == nil {
			w.end(in, "OnInit")
		}
		return err
	}
	fns.OnFree = func() {
		in := get("OnFree")
		seq := w.begin(in, "OnFree", "")
		w.onFree(in, seq)
		defer w.end(in, "OnFree")
		_ = w.fault(in, "OnFree")
	}
	fns.InvokeFunc = func(name string, params ...interface{}) (interface{}, error) {
		in := get("InvokeFunc")
		if name == "whoami" {
			return in, nil
		}
		w.begin(in, "InvokeFunc", argString(name, params))
		err := w.fault(in, "InvokeFunc")
		w.end(in, "InvokeFunc")
		return nil, err
	}
	fns.LF = func() map[string]interface{} {
		in := get("HotswapLiveFuncs")
		if !w.silent.Load() {
			w.begin(in, "HotswapLiveFuncs", "")
			_ = w.fault(in, "HotswapLiveFuncs")
			w.end(in, "HotswapLiveFuncs")
		}
		r := map[string]interface{}{}
		for _, k := range m.LF {
			id := m.id() + "." + k
			r[k] = func() string { return id }
		}
		return r
	}
	fns.LT = func() map[string]func() interface{} {
		in := get("HotswapLiveTypes")
		if !w.silent.Load() {
			w.begin(in, "HotswapLiveTypes", "")
			_ = w.fault(in, "HotswapLiveTypes")
			w.end(in, "HotswapLiveTypes")
		}
		r := map[string]func() interface{}{}
		for _, k := range m.LT {
			id := m.id() + "." + k
			r[k] = func() interface{} { return &ExpA{id} }
		}
		return r
	}
	return fns
}

// argString identifies a call of InvokeFunc.
func argString(name string, params []interface{}) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q(", name)
	for _, x := range params {
		fmt.Fprintf(&b, "%T:%s,", x, identity(x))
	}
	return b.String() + ")"
}

func identity(x interface{}) string {
	switch v := reflect.ValueOf(x); v.Kind() {
	case reflect.Invalid:
		return "nil"
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.Slice:
		return fmt.Sprintf("%x", v.Pointer())
	default:
		return fmt.Sprintf("%v", x)
	}
}

func (w *World) newInst(m *Img) *Inst {
	in := &Inst{img: m, attempt: w.attempt, counts: map[string]int{}, ended: map[string]bool{},
		firstSeq: map[string]int{}, lastEnd: map[string]int{}}
	in.exported = makeExport(m.Exp, m.id())
	in.imp, in.impInit = buildImport(m)
	w.mu.Lock()
	w.all = append(w.all, in)
	w.insts[[2]int{m.ID, w.attempt}] = in
	w.mu.Unlock()
	return in
}

// ---- the substituted dynamic loader ---------------------------------------------

var errOpen = errors.New("plugin.Open: fake loader refuses")

func parseImg(data []byte) (id int, ok bool) {
	var name string
	i := bytes.IndexByte(data, '\n')
	if i < 0 {
		return 0, false
	}
	n, _ := fmt.Sscanf(string(data[:i]), "HOTSWAP-FAKE-SO %d %s", &id, &name)
	return id, n >= 1
}

func (w *World) open(path string) (*plugin.Plugin, error) {
	progress.Add(1)
	real, err := filepath.EvalSymlinks(path)
	if err == nil {
		real, err = filepath.Abs(real)
	}
	if err != nil {
		return nil, fmt.Errorf("plugin.Open(%q): realpath failed: %v", path, err)
	}
	if w.initPan[real] {
		w.viol("R16", "the copy %s is handed to the loader again after its initialisation panicked "+
			"(the real loader waits for it forever)", filepath.Base(real))
		return nil, errOpen
	}
	if p := w.byPath[real]; p != nil {
		w.viol("R16", "the copy %s is handed to the loader twice (the real loader returns the plugin it loaded before)",
			filepath.Base(real))
		return p, nil
	}
	data, err := os.ReadFile(real)
	if err != nil {
		return nil, err
	}
	f, err := os.Open(real)
	if err != nil {
		return nil, err
	}
	fi, err := f.Stat()
	if err != nil {
		f.Close()
		return nil, err
	}
	for _, d := range w.dirs {
		ents, _ := os.ReadDir(d)
		for _, e := range ents {
			if ofi, err := os.Stat(filepath.Join(d, e.Name())); err == nil && os.SameFile(ofi, fi) {
				w.viol("R16", "the loader got the original file %s itself, not a private copy", e.Name())
			}
		}
	}
	for _, o := range w.openLog {
		if os.SameFile(o.fi, fi) {
			w.viol("R16", "the loader got the same file twice: %s and %s", o.path, real)
		}
	}
	w.openLog = append(w.openLog, &opened{real, f, fi, data})
	w.rec.eval("R16", 1)

	if h := w.onOpen; h != nil {
		h()
	}
	id, ok := parseImg(data)
	m := w.byID[id]
	if x := w.byData[string(data)]; x != nil {
		m, id = x, x.ID
	}
	if !ok || m == nil {
		return nil, fmt.Errorf("plugin.Open(%q): invalid ELF header", path)
	}
	if w.curPred != nil {
		if e := w.curPred.m[name2key(m.Name)]; e != nil && e.mode != modeFresh {
			w.viol("R07", "%s was loaded anew, but the running one must be kept (%s)", m.Name, modeNote[e.mode])
		} else if e == nil {
			w.viol("R12", "%s was loaded, which is not to be considered", m.Name)
		}
	}
	if !bytes.Equal(m.Content, data) && !w.lenient {
		w.viol("R16", "the loaded bytes of %s (%d) differ from the file's content (%d)", m.Name, len(data), len(m.Content))
	}
	if m.OpenErr {
		return nil, fmt.Errorf("%w: openerr:%s", errOpen, m.id())
	}
	if w.loaded[id] {
		return nil, fmt.Errorf("plugin.Open(%q): plugin already loaded", path)
	}
	w.loaded[id] = true
	if m.InitPanic > 0 {
		w.initPan[real] = true
		_ = (&Fault{Kind: FaultKind(m.InitPanic - 1), Mark: "init:" + m.id()}).fire()
	}
	in := w.newInst(m)
	in.path = real
	in.sha = sha1.Sum(data)
	fns := w.mk(m, func(string) *Inst { return in })
	syms := map[string]any{
		"OnLoad": fns.OnLoad, "OnInit": fns.OnInit, "OnFree": fns.OnFree, "Export": fns.Export,
		"Import": fns.Import, "InvokeFunc": fns.InvokeFunc, "Reloadable": fns.Reloadable,
		"HotswapLiveFuncs": fns.LF, "HotswapLiveTypes": fns.LT,
	}
	for _, k := range allFns {
		if m.VarSym[k] {
			p := reflect.New(reflect.TypeOf(syms[k]))
			p.Elem().Set(reflect.ValueOf(syms[k]))
			syms[k] = p.Interface()
		}
	}
	if m.BadType != "" {
		syms[m.BadType] = func(a, b int) int { return a + b }
	}
	for _, k := range m.Missing {
		delete(syms, k)
	}
	p := plugin.VerifNew("verif/"+m.id(), syms)
	w.byPath[real] = p
	return p, nil
}

// checkCopies verifies that nothing handed to the loader has been touched since.
func (w *World) checkCopies(full bool) {
	for _, o := range w.openLog {
		fi, err := o.f.Stat()
		if err != nil {
			continue
		}
		bad := fi.Size() != o.fi.Size() || !fi.ModTime().Equal(o.fi.ModTime())
		if !bad && full {
			buf := make([]byte, len(o.data)+1)
			n, _ := o.f.ReadAt(buf, 0)
			bad = !bytes.Equal(buf[:n], o.data)
		}
		if bad {
			w.viol("R16", "the loaded copy %s was modified after it had been handed to the loader", filepath.Base(o.path))
			return
		}
	}
	w.rec.eval("R16", len(w.openLog))
}

// checkOriginals verifies that the plugin files are as the host left them.
func (w *World) checkOriginals() {
	for name, e := range w.files {
		p := filepath.Join(w.dir, name)
		fi, err := os.Lstat(p)
		if err != nil {
			w.viol("R16", "the plugin file %s disappeared", name)
			continue
		}
		if e.isDir || e.dangling {
			continue
		}
		want := e.raw
		if e.img != nil {
			want = e.img.Content
		}
		if !fi.ModTime().Equal(e.fi.ModTime()) || !os.SameFile(fi, e.fi) || fi.Mode() != e.fi.Mode() {
			w.viol("R16", "the plugin file %s was touched", name)
		} else if got, _ := os.ReadFile(p); !bytes.Equal(got, want) {
			w.viol("R16", "the plugin file %s was modified", name)
		}
	}
	w.rec.eval("R16", len(w.files))
}

// ---- events with immediate oracles ------------------------------------------------

func (w *World) onInit(in *Inst, v *vault.Vault) {
	w.mu.Lock()
	defer w.mu.Unlock()
	in.onVault = v
	if v == nil {
		w.violLocked("R03", "OnInit of %s got no vault", in)
		return
	}
	in.vaultOK = vaultKeys(v)
	first := true
	for _, x := range w.all {
		if x != in && x.attempt == in.attempt && x.onVault != nil {
			first = false
		}
	}
	if v.DataBag == nil {
		w.violLocked("R10", "the vault given to %s has no DataBag", in)
	} else {
		if first && len(v.DataBag) != 0 {
			w.violLocked("R10", "the DataBag is not empty before the first OnInit: %v", v.DataBag)
		}
		v.DataBag[in.String()] = in
	}
	if w.useExt {
		if e, _ := v.Extension.(*extObj); e == nil || e.attempt != in.attempt {
			w.violLocked("R10", "the Extension given to %s is not this generation's own: %v", in, v.Extension)
		}
	}
	if p := w.curPred; p != nil && in.attempt == w.attempt && p.minStage() > stVault {
		if want := p.vaultWant(); in.vaultOK != want {
			w.violLocked("R10", "vault at OnInit of %s: %s, want %s", in, in.vaultOK, want)
			w.violLocked("R03", "the vault is not complete at OnInit of %s: %s, want %s", in, in.vaultOK, want)
		}
	}
	w.rec.eval("R10", 1)
}

func vaultKeys(v *vault.Vault) string {
	var a, b []string
	for k := range v.LiveFuncs {
		a = append(a, k)
	}
	for k := range v.LiveTypes {
		b = append(b, k)
	}
	sort.Strings(a)
	sort.Strings(b)
	return fmt.Sprintf("F%v T%v", a, b)
}

// releaseT is the earliest moment at which a published instance may be freed; ok is false while it is current.
func (w *World) releaseT(in *Inst) (t time.Duration, ok bool) {
	for _, g := range w.gens {
		for _, x := range g.m {
			if x == in {
				if g.supersedeT < 0 {
					return 0, false
				}
				if r := g.supersedeT + w.effDelay(); r > t {
					t = r
				}
			}
		}
	}
	return t, true
}

func (w *World) effDelay() time.Duration {
	d := 5 * time.Minute
	if w.haveDel {
		d = w.delay
	}
	if d < 15*time.Second {
		d = 15 * time.Second
	}
	return d
}

func (w *World) onFree(in *Inst, seq int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	now := w.now()
	w.rec.eval("R05", 1)
	if in.counts["OnFree"] > 1 {
		w.violLocked("R05", "OnFree of %s called %d times", in, in.counts["OnFree"])
		return
	}
	in.freeT, in.freeSeq = now, seq
	if w.inLoad && !in.published {
		w.resolveDepsLocked(in.attempt)
	}
	for _, x := range w.all {
		// A dependency must not be gone before those that use it.
		for _, d := range x.deps {
			if d == in && x.resolved && x != in && x.counts["OnFree"] == 0 {
				if x.published || x.attempt == w.attempt {
					w.violLocked("R04", "%s was freed before %s, which depends on it", in, x)
				}
			} else if d == in && x.resolved && x != in && x.freeEnd0() && x.lastEnd["OnFree"] == 0 {
				w.violLocked("R04", "%s was freed while OnFree of %s, which depends on it, was still running", in, x)
			}
		}
	}
	if len(in.deps) > 0 && in.resolved {
		w.rec.eval("R04", 1)
	}
	if !in.published {
		if !w.inLoad || in.attempt != w.attempt {
			w.violLocked("R05", "%s, whose load attempt failed, was freed after the failing call had returned", in)
		}
		return
	}
	t, ok := w.releaseT(in)
	if !ok {
		w.violLocked("R05", "%s was freed although the current generation contains it", in)
		if w.inLoad {
			w.violLocked("R01", "%s, part of the running generation, was freed during a load", in)
		}
		return
	}
	w.rec.eval("R06", 1)
	if now < t {
		w.violLocked("R05", "%s was freed at %s, while a generation containing it is in its free delay until %s", in, now, t)
		w.violLocked("R06", "%s was freed at %s, %s too early (delay %s)", in, now, t-now, w.effDelay())
	}
}

func (in *Inst) freeEnd0() bool { return in.counts["OnFree"] > 0 }

// panickedFree finds a version whose OnFree has panicked.
func (w *World) panickedFree(which func(*Inst) bool) *Inst {
	for _, x := range w.all {
		if f := x.img.Faults["OnFree"]; f != nil && f.Kind >= 0 && x.counts["OnFree"] > 0 && which(x) {
			return x
		}
	}
	return nil
}

// checkOverdue is called when virtual time has advanced and everything is idle.
func (w *World) checkOverdue() {
	w.mu.Lock()
	defer w.mu.Unlock()
	now := w.now()
	for _, in := range w.all {
		if !in.published {
			continue
		}
		t, ok := w.releaseT(in)
		if !ok || now < t+time.Minute {
			continue
		}
		if in.counts["OnFree"] == 0 {
			w.violLocked("R06", "%s is still not freed at %s although the free delay ended at %s", in, now, t)
			w.violLocked("R05", "%s left service and was not freed by %s (delay ended at %s)", in, now, t)
			if x := w.panickedFree(func(x *Inst) bool { return x.published }); x != nil {
				w.violLocked("R11", "%s was not freed after OnFree of %s had panicked", in, x)
			}
		} else if in.freeT > t+time.Minute {
			w.violLocked("R06", "%s was freed at %s, long after the delay ended at %s", in, in.freeT, t)
		}
	}
}

// checkImports compares every new plugin's import struct with what it must hold.
func (w *World) checkImports(attempt int, when string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	p := w.curPred
	if p == nil || attempt != w.attempt || p.minStage() <= stDeps {
		return
	}
	for _, k := range p.keys() {
		e := p.m[k]
		if e.mode != modeFresh {
			continue
		}
		in := w.insts[[2]int{e.img.ID, attempt}]
		if in == nil {
			continue
		}
		w.checkImportsOf(in, func(key string) *Inst {
			d := p.m[key]
			if d == nil {
				return nil
			}
			if d.mode == modeFresh {
				return w.insts[[2]int{d.img.ID, attempt}]
			}
			return d.old
		}, when)
	}
}

func (w *World) checkImportsOf(in *Inst, find func(key string) *Inst, when string) {
	m := in.img
	if m.Imp != ImpStruct {
		return
	}
	obj := reflect.ValueOf(in.imp)
	for i, f := range m.Fields {
		got := describe(fieldValue(obj, i))
		want := in.impInit[i]
		if f.exported() && !f.skipped() {
			d := find(name2key(f.Name))
			if d == nil {
				continue
			}
			if !expIsNil(d.img.Exp) {
				want = describeAs(d.exported, fieldTypes[f.Type])
			}
		}
		w.rec.eval("R08", 1)
		if got != want {
			w.violLocked("R08", "field %s of %s holds %s, want %s (%s)", f.Name, in, got, want, when)
		}
	}
}

func describeAs(v interface{}, t reflect.Type) string {
	x := reflect.New(t).Elem()
	x.Set(reflect.ValueOf(v))
	return describe(x)
}

func name2key(s string) string { return strings.ToLower(s) }

// ---- snapshots -------------------------------------------------------------------

func (w *World) snapshot(pm *hotswap.PluginManager) string {
	if pm == nil {
		return "<nil>"
	}
	w.silent.Store(true)
	defer w.silent.Store(false)
	var b strings.Builder
	for _, p := range pm.Plugins() {
		r, err := p.InvokeFunc("whoami")
		fmt.Fprintf(&b, "%s|%s|%x|%s|%s|%v|%v|%v\n", p.Name, p.File, p.FileSha1[:4], p.Note, p.When.Format(time.RFC3339), p.Deps, r, err)
		if x := pm.FindPlugin(p.Name); x != p {
			fmt.Fprintf(&b, "FindPlugin(%s) -> %v\n", p.Name, x)
		}
	}
	var a []string
	for k, v := range pm.LiveFuncs {
		a = append(a, "F "+k+"="+v.(func() string)())
	}
	for k, v := range pm.LiveTypes {
		a = append(a, "T "+k+"="+v().(*ExpA).ID)
	}
	for k, v := range pm.DataBag {
		a = append(a, fmt.Sprintf("D %s=%v", k, v))
	}
	sort.Strings(a)
	fmt.Fprintf(&b, "%s\next=%p\n", strings.Join(a, "\n"), pm.Extension)
	return b.String()
}

type extObj struct{ attempt, n int }

// ---- set-up -----------------------------------------------------------------------

func newWorld(rec *Rec, rng *rand.Rand, prof *Profile, root string) *World {
	w := &World{rec: rec, rng: rng, prof: prof, start: time.Now(),
		files: map[string]*fileEnt{}, byID: map[int]*Img{}, byData: map[string]*Img{}, byPath: map[string]*plugin.Plugin{},
		loaded: map[int]bool{}, initPan: map[string]bool{}, insts: map[[2]int]*Inst{},
		statMap: map[string]*hotswap.StaticPlugin{}, statImg: map[string]*Img{}, statIn: map[*Img]*Inst{}}
	w.dir = filepath.Join(root, "d0")
	w.dirs = []string{w.dir}
	return w
}

func (w *World) options() []hotswap.Option {
	opts := []hotswap.Option{hotswap.WithLogger(capLogger{slog.NewDumbLogger(), w})}
	if w.haveDel {
		opts = append(opts, hotswap.WithFreeDelay(w.delay))
	}
	if w.white != nil {
		opts = append(opts, hotswap.WithWhitelist(w.white...))
	}
	if w.useExt {
		opts = append(opts, hotswap.WithExtensionNewer(func() interface{} {
			w.mu.Lock()
			defer w.mu.Unlock()
			w.extN++
			e := &extObj{w.attempt, w.extN}
			w.extMade = append(w.extMade, e)
			return e
		}))
	}
	if w.useCb {
		opts = append(opts, hotswap.WithReloadCallback(w.callback(0)))
	}
	return opts
}

func (w *World) callback(which int) hotswap.ReloadCallback {
	return func(nm, om *hotswap.PluginManager) error {
		progress.Add(1)
		w.mu.Lock()
		w.seq++
		c := cbCall{which: which, nm: nm, om: om, seq: w.seq}
		w.events = append(w.events, Ev{Seq: w.seq, T: w.now(), Attempt: w.attempt, Fn: fmt.Sprintf("callback%d", which)})
		for _, in := range w.all {
			if in.attempt == w.attempt && in.ended["OnInit"] {
				c.numInits++
			}
		}
		w.mu.Unlock()
		c.curAtCb = w.sw.Current()
		if c.curAtCb != w.before {
			w.viol("R02", "Current() changed before callback %d ran", which)
		}
		if n := w.sw.ReloadCounter(); n != w.relBefore {
			w.viol("R13", "ReloadCounter went from %d to %d before callback %d ran", w.relBefore, n, which)
		}
		w.rec.eval("R02", 1)
		w.mu.Lock()
		w.cbCalls = append(w.cbCalls, c)
		w.mu.Unlock()
		if f := w.cbFaults[which]; f != nil {
			if f.Sleep > 0 && w.prof.Sleeps {
				time.Sleep(time.Duration(f.Sleep) * time.Millisecond)
			}
			if f.Kind >= 0 {
				return f.fire()
			}
		}
		return nil
	}
}

func (w *World) statInst(m *Img, fn string) *Inst {
	w.mu.Lock()
	in := w.statIn[m]
	fresh := in == nil || (w.inLoad && in.attempt != w.attempt)
	w.mu.Unlock()
	if fresh {
		in = w.newInst(m)
		w.mu.Lock()
		w.statIn[m] = in
		w.mu.Unlock()
	}
	return in
}

func (w *World) staticPlugin(m *Img) *hotswap.StaticPlugin {
	f := w.mk(m, func(fn string) *Inst { return w.statInst(m, fn) })
	for _, k := range m.Missing {
		switch k {
		case "OnLoad":
			f.OnLoad = nil
		case "OnInit":
			f.OnInit = nil
		case "OnFree":
			f.OnFree = nil
		case "Export":
			f.Export = nil
		case "Import":
			f.Import = nil
		case "InvokeFunc":
			f.InvokeFunc = nil
		case "Reloadable":
			f.Reloadable = nil
		case "HotswapLiveFuncs":
			f.LF = nil
		case "HotswapLiveTypes":
			f.LT = nil
		}
	}
	return &hotswap.StaticPlugin{Name: m.Name,
		PluginFuncs: hotswap.NewPluginFuncs(f.Export, f.LF, f.LT, f.Import, f.InvokeFunc, f.OnFree, f.OnInit, f.OnLoad, f.Reloadable)}
}

func (w *World) cur() *Gen {
	if len(w.gens) == 0 {
		return nil
	}
	return w.gens[len(w.gens)-1]
}

func (w *World) settle() { synctest.Wait() }
