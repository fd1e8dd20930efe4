package rt

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"plugin"
	"reflect"

	"github.com/edwingeng/hotswap"
	"github.com/edwingeng/hotswap/vault"
	"github.com/edwingeng/slog"
)

type lkInt int
type lkFn func(int) string
type lkStruct struct {
	A int
	b string
}

func (s lkStruct) String() string { return fmt.Sprint(s.A, s.b) }

type lkPtrM struct{ N int }

func (p *lkPtrM) String() string { return fmt.Sprint(p.N) }

// lookupTypes are the types symbols and targets are made of.
func lookupTypes(rng *rand.Rand) []reflect.Type {
	a := []reflect.Type{
		reflect.TypeOf(0), reflect.TypeOf(int64(0)), reflect.TypeOf(""), reflect.TypeOf(lkInt(0)), reflect.TypeOf(lkStruct{}),
		reflect.TypeOf(lkPtrM{}), reflect.TypeOf(struct {
			A int
			b string
		}{}),
		reflect.TypeOf(map[string]int{}), reflect.TypeOf(NamedMap{}), reflect.TypeOf([]byte{}), reflect.TypeOf([3]int{}),
		reflect.TypeOf((chan int)(nil)), reflect.TypeOf((<-chan int)(nil)), reflect.TypeOf((chan<- int)(nil)),
		reflect.TypeOf(func() {}), reflect.TypeOf(lkFn(nil)), reflect.TypeOf((func(int) string)(nil)),
		reflect.TypeOf((func(interface{}) error)(nil)), reflect.TypeOf((func(*vault.Vault) error)(nil)),
		reflect.TypeOf((func() map[string]interface{})(nil)),
		reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(),
		reflect.TypeOf((*io.Reader)(nil)).Elem(), reflect.TypeOf(bytes.Buffer{}), reflect.TypeOf(errors.New("")),
		reflect.TypeOf((*lkPtrM)(nil)), reflect.TypeOf((*int)(nil)), reflect.TypeOf((**int)(nil)), reflect.TypeOf(true),
		reflect.TypeOf(1.5), reflect.TypeOf(complex(1, 2)), reflect.TypeOf(uintptr(0)),
	}
	base := append([]reflect.Type(nil), a...)
	for i := 0; i < 24; i++ {
		x, y := base[rng.IntN(len(base))], base[rng.IntN(len(base))]
		switch rng.IntN(6) {
		case 0:
			a = append(a, reflect.PointerTo(x))
		case 1:
			a = append(a, reflect.SliceOf(x))
		case 2:
			a = append(a, reflect.FuncOf([]reflect.Type{x}, []reflect.Type{y}, false))
		case 3:
			a = append(a, reflect.ArrayOf(rng.IntN(3), x))
		case 4:
			a = append(a, reflect.ChanOf(reflect.ChanDir(1+rng.IntN(3)), x))
		case 5:
			a = append(a, reflect.StructOf([]reflect.StructField{{Name: "X", Type: x}, {Name: "Y", Type: y}}))
		}
	}
	return a
}

// fill makes a value of type t that differs from the zero value where possible.
func fill(rng *rand.Rand, t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Int, reflect.Int64:
		v.SetInt(rng.Int64N(1000) + 1)
	case reflect.Uintptr:
		v.SetUint(77)
	case reflect.String:
		v.SetString(fmt.Sprint("s", rng.IntN(1000)))
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Float64:
		v.SetFloat(rng.Float64())
	case reflect.Ptr:
		if depth < 4 {
			p := reflect.New(t.Elem())
			p.Elem().Set(fill(rng, t.Elem(), depth+1))
			v.Set(p)
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(t, 1+rng.IntN(3), 4))
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
	case reflect.Chan:
		if t.ChanDir() == reflect.BothDir {
			v.Set(reflect.MakeChan(t, 1))
		} else {
			v.Set(reflect.MakeChan(reflect.ChanOf(reflect.BothDir, t.Elem()), 1).Convert(t))
		}
	case reflect.Func:
		v.Set(reflect.MakeFunc(t, func([]reflect.Value) (r []reflect.Value) {
			for i := 0; i < t.NumOut(); i++ {
				r = append(r, reflect.Zero(t.Out(i)))
			}
			return
		}))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() && depth < 4 {
				v.Field(i).Set(fill(rng, t.Field(i).Type, depth+1))
			}
		}
	case reflect.Interface:
		for _, x := range []reflect.Value{reflect.ValueOf(lkStruct{5, "q"}), reflect.ValueOf(&lkPtrM{9}), reflect.ValueOf(io.EOF), reflect.ValueOf(&bytes.Buffer{})} {
			if x.Type().AssignableTo(t) && rng.IntN(2) == 0 {
				v.Set(x)
				break
			}
		}
	}
	return v
}

// same compares identities where values have one.
func same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Func, reflect.Map, reflect.Slice, reflect.Chan, reflect.Ptr, reflect.UnsafePointer:
		if a.Kind() == reflect.Slice && a.Len() != b.Len() {
			return false
		}
		return a.Pointer() == b.Pointer()
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Int, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Float64:
		return a.Float() == b.Float()
	case reflect.Complex128:
		return a.Complex() == b.Complex()
	case reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Uint8:
		return a.Uint() == b.Uint()
	}
	return reflect.DeepEqual(a.String(), b.String())
}

// Lookups runs one batch of Plugin.Lookup calls against the reference.
func Lookups(rec *Rec, seed, idx uint64) (viols []Viol, trace []string) {
	rng := rand.New(rand.NewPCG(seed, idx))
	types := lookupTypes(rng)
	syms := map[string]any{}
	var names []string
	for i, t := range types {
		n := fmt.Sprintf("Sym%d", i)
		if t.Kind() == reflect.Func && rng.IntN(3) > 0 {
			syms[n] = fill(rng, t, 0).Interface() // a function
			if rng.IntN(2) == 0 {
				n2 := n + "v"
				p := reflect.New(t)
				if rng.IntN(3) > 0 {
					p.Elem().Set(fill(rng, t, 0))
				}
				syms[n2] = p.Interface() // a variable of function type
				names = append(names, n2)
			}
		} else {
			p := reflect.New(t)
			if rng.IntN(4) > 0 {
				p.Elem().Set(fill(rng, t, 0))
			}
			syms[n] = p.Interface()
		}
		names = append(names, n)
	}
	p := &hotswap.Plugin{Name: "looker", P: plugin.VerifNew("verif/lookup", syms)}
	viol := func(format string, args ...interface{}) {
		viols = append(viols, Viol{"R15", fmt.Sprintf(format, args...)})
		trace = append(trace, "!! "+fmt.Sprintf(format, args...))
	}
	call := func(pl *hotswap.Plugin, name string, out interface{}) (err error) {
		progress.Add(1)
		defer func() {
			if r := recover(); r != nil {
				viol("Lookup(%q, %T) panicked: %v", name, out, r)
				err = errors.New("panic")
			}
		}()
		return pl.Lookup(name, out)
	}
	names = append(names, "", "Unknown", "sym0", "Sym0 ")
	pairs := 0
	for _, n := range names {
		for ti, t := range types {
			if rng.IntN(3) > 0 && ti > 32 {
				continue
			}
			out := reflect.New(t)
			out.Elem().Set(fill(rng, t, 0))
			old := reflect.New(t).Elem()
			old.Set(out.Elem())
			err := call(p, n, out.Interface())
			pairs++
			sym, ok := syms[n]
			var want reflect.Value
			how := "error"
			if ok {
				sv := reflect.ValueOf(sym)
				if sv.Type().AssignableTo(t) {
					want, how = sv, "symbol"
				} else if sv.Kind() == reflect.Ptr && sv.Type().Elem().AssignableTo(t) {
					want, how = sv.Elem(), "variable"
				}
			}
			if !want.IsValid() {
				if err == nil {
					viol("Lookup(%q [%T], *%s) reports success", n, sym, t)
				} else if !ok && n != "" && err != hotswap.ErrNotExist {
					if !errors.Is(err, hotswap.ErrNotExist) {
						viol("Lookup(%q) of an unknown symbol gives %v", n, err)
					}
				} else if (ok || n == "") && errors.Is(err, hotswap.ErrNotExist) {
					viol("Lookup(%q [%T], *%s) gives ErrNotExist", n, sym, t)
				}
				if !same(out.Elem(), old) {
					viol("Lookup(%q [%T], *%s) failed and changed the target", n, sym, t)
				}
			} else {
				w := reflect.New(t).Elem()
				w.Set(want)
				if err != nil {
					viol("Lookup(%q [%T], *%s) fails: %v", n, sym, t, err)
				} else if !same(out.Elem(), w) {
					viol("Lookup(%q [%T], *%s) stores %v, want %v", n, sym, t, out.Elem(), w)
				}
			}
			st := "-"
			if ok {
				st = reflect.TypeOf(sym).String()
			}
			rec.hit("R15", fmt.Sprintf("%s -> *%s: %s", st, t, how))
		}
		// Targets that are no targets.
		for _, out := range []interface{}{nil, (*int)(nil), (*func())(nil), 5, "x", lkStruct{}, map[string]int{}, []int{1}, func() {}, make(chan int), (func())(nil), [1]int{}, uintptr(3)} {
			if err := call(p, n, out); err == nil {
				viol("Lookup(%q, %T) reports success", n, out)
			}
			pairs++
			rec.hit("R15", fmt.Sprintf("%q into %T", n, out))
		}
	}
	// Plugins without a file.
	st := staticFor()
	if st == nil {
		viol("cannot load a static plugin")
	}
	for _, pl := range []*hotswap.Plugin{st, {Name: "zero"}} {
		if pl == nil {
			continue
		}
		for _, n := range []string{"OnLoad", "Sym0", ""} {
			out := errors.New("old")
			if err := call(pl, n, &out); err == nil {
				viol("Lookup(%q) of a plugin without a file reports success", n)
			} else if out.Error() != "old" {
				viol("Lookup(%q) of a plugin without a file changed the target", n)
			}
			pairs++
			rec.hit("R15", fmt.Sprintf("static %s %s", pl.Name, n))
		}
	}
	rec.eval("R15", pairs)
	rec.count("lookups", pairs)
	return
}

func staticFor() *hotswap.Plugin {
	sp := &hotswap.StaticPlugin{Name: "stat", PluginFuncs: hotswap.NewPluginFuncs(
		func() interface{} { return nil },
		func() map[string]interface{} { return map[string]interface{}{} },
		func() map[string]func() interface{} { return map[string]func() interface{}{} },
		func() interface{} { return nil },
		func(string, ...interface{}) (interface{}, error) { return nil, nil },
		func() {}, func(*vault.Vault) error { return nil }, func(interface{}) error { return nil }, func() bool { return true })}
	sw := hotswap.NewPluginManagerSwapper("", hotswap.WithLogger(slog.NewDumbLogger()),
		hotswap.WithStaticPlugins(map[string]*hotswap.StaticPlugin{"stat": sp}))
	if _, err := sw.LoadPlugins(nil); err != nil {
		return nil
	}
	return sw.Current().FindPlugin("stat")
}
