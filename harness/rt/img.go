// Package rt drives the hotswap runtime library with generated histories
// while monitors watch every call it makes into plugins, every file it hands
// to the (substituted) dynamic loader and every result it returns.
package rt

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"unicode"
	"unicode/utf8"
	"unsafe"

	"github.com/edwingeng/hotswap"
)

// ---- what a plugin may export and import -------------------------------

type IA interface{ A() string }
type IB interface{ B() string }
type IAB interface {
	IA
	IB
}
type ExpA struct{ ID string }
type ExpB struct{ ID string }
type ExpAB struct{ ID string }
type ValA struct{ ID string }
type NamedMap map[string]string
type NamedFunc func() string

func (e *ExpA) A() string  { return e.ID }
func (e *ExpB) B() string  { return e.ID }
func (e *ExpAB) A() string { return e.ID }
func (e *ExpAB) B() string { return e.ID }
func (v ValA) A() string   { return v.ID }

// Types with the names plugins have, to be embedded in Import() structs.
type (
	Alpha struct{ X int }
	Beta  struct{ X int }
	alpha struct{ X int }
)

type ExpKind int

const (
	ExpNil ExpKind = iota
	ExpTypedNil
	ExpPtrA
	ExpPtrB
	ExpPtrAB
	ExpValue
	ExpFunc
	ExpMap
	ExpInt
	ExpNilMap
	ExpNilFunc
	ExpZeroInt
	ExpEmptyStr
	ExpZeroVal
	ExpEmptyMap
	ExpSlice
	ExpNilSlice
	ExpEmptySlice
	ExpChan
	ExpNilChan
	ExpFalse
	nExpKinds
)

func makeExport(k ExpKind, id string) interface{} {
	switch k {
	case ExpNil:
		return nil
	case ExpTypedNil:
		return (*ExpA)(nil)
	case ExpPtrA:
		return &ExpA{id}
	case ExpPtrB:
		return &ExpB{id}
	case ExpPtrAB:
		return &ExpAB{id}
	case ExpValue:
		return ValA{id}
	case ExpFunc:
		return func() string { return id }
	case ExpMap:
		return map[string]string{"id": id}
	case ExpInt:
		n, _ := strconv.Atoi(strings.TrimLeft(id, "img#"))
		return n + 1000
	case ExpNilMap:
		return map[string]string(nil)
	case ExpNilFunc:
		return (func() string)(nil)
	case ExpZeroInt:
		return 0
	case ExpEmptyStr:
		return ""
	case ExpZeroVal:
		return ValA{}
	case ExpEmptyMap:
		return map[string]string{}
	case ExpSlice:
		return []string{id}
	case ExpNilSlice:
		return []string(nil)
	case ExpEmptySlice:
		return []string{}
	case ExpChan:
		return make(chan int, len(id))
	case ExpNilChan:
		return (chan int)(nil)
	case ExpFalse:
		return false
	}
	panic("bad export kind")
}

func expIsNil(k ExpKind) bool {
	switch k {
	case ExpNil, ExpTypedNil, ExpNilMap, ExpNilFunc, ExpNilSlice, ExpNilChan:
		return true
	}
	return false
}

var fieldTypes = []reflect.Type{
	reflect.TypeOf((*IA)(nil)).Elem(),
	reflect.TypeOf((*IB)(nil)).Elem(),
	reflect.TypeOf((*IAB)(nil)).Elem(),
	reflect.TypeOf((*interface{})(nil)).Elem(),
	reflect.TypeOf((*ExpA)(nil)),
	reflect.TypeOf(ValA{}),
	reflect.TypeOf((func() string)(nil)),
	reflect.TypeOf(map[string]string{}),
	reflect.TypeOf(0),
	reflect.TypeOf(NamedMap{}),
	reflect.TypeOf(NamedFunc(nil)),
	reflect.TypeOf(int64(0)),
	reflect.TypeOf(""),
	reflect.TypeOf((*error)(nil)).Elem(),
	reflect.TypeOf([]string(nil)),
	reflect.TypeOf((chan int)(nil)),
	reflect.TypeOf((<-chan int)(nil)),
	reflect.TypeOf(false),
}

var expTypes = func() (a [nExpKinds]reflect.Type) {
	for k := ExpKind(1); k < nExpKinds; k++ {
		a[k] = reflect.TypeOf(makeExport(k, "1"))
	}
	return
}()

// fits says whether a (non-nil) export of kind k may be stored in a field of type ft.
func fits(k ExpKind, ft int) bool {
	if expIsNil(k) {
		return true
	}
	return expTypes[k].AssignableTo(fieldTypes[ft])
}

type Field struct {
	Name   string
	Type   int
	Tag    string
	Preset bool
}

func (f Field) exported() bool {
	r, _ := utf8.DecodeRuneInString(f.Name)
	return unicode.IsUpper(r)
}

func (f Field) skipped() bool {
	return reflect.StructTag(f.Tag).Get("hotswap") == "-"
}

type ImpKind int

const (
	ImpNil ImpKind = iota
	ImpTypedNil
	ImpStruct   // pointer to a struct made of Fields
	ImpValue    // a struct, not a pointer: refused
	ImpPtrInt   // refused
	ImpPtrPtr   // refused
	ImpMap      // refused
	ImpEmbed    // embedded exported type: refused
	ImpEmbedPtr // same, pointer
	ImpEmbedTagged
	ImpEmbedUnexp
	nImpKinds
)

func (k ImpKind) refused() bool {
	switch k {
	case ImpValue, ImpPtrInt, ImpPtrPtr, ImpMap, ImpEmbed, ImpEmbedPtr:
		return true
	}
	return false
}

// ---- plugin images ------------------------------------------------------

// Img is one build of a plugin, that is, one possible content of a .so file.
type Img struct {
	ID         int
	Name       string
	Content    []byte `json:"-"`
	Pad        int
	Reloadable bool
	Exp        ExpKind
	Imp        ImpKind
	Fields     []Field
	LF, LT     []string
	Missing    []string          // symbols that are absent
	VarSym     map[string]bool   // symbols that are variables of function type
	BadType    string            // a symbol of an unexpected type
	OpenErr    bool              // the loader refuses the file
	InitPanic  int               // 1+fault kind: package initialisation panics
	Faults     map[string]*Fault // by function
}

func (m *Img) id() string { return "img#" + strconv.Itoa(m.ID) }

func (m *Img) render() {
	var b bytes.Buffer
	fmt.Fprintf(&b, "HOTSWAP-FAKE-SO %d %s\n", m.ID, m.Name)
	x := uint32(m.ID)*2654435761 + 12345
	for i := 0; i < m.Pad; i++ {
		x = x*1664525 + 1013904223
		b.WriteByte(byte(x >> 24))
	}
	m.Content = b.Bytes()
}

func (m *Img) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s[%s]", m.Name, m.id())
	if !m.Reloadable {
		b.WriteString(" !reloadable")
	}
	fmt.Fprintf(&b, " exp=%d imp=%d", m.Exp, m.Imp)
	for _, f := range m.Fields {
		fmt.Fprintf(&b, " %s:%s", f.Name, fieldTypes[f.Type])
		if f.Tag != "" {
			fmt.Fprintf(&b, "`%s`", f.Tag)
		}
	}
	if len(m.LF)+len(m.LT) > 0 {
		fmt.Fprintf(&b, " LF=%v LT=%v", m.LF, m.LT)
	}
	if len(m.Missing) > 0 {
		fmt.Fprintf(&b, " missing=%v", m.Missing)
	}
	if m.BadType != "" {
		fmt.Fprintf(&b, " badtype=%s", m.BadType)
	}
	if m.OpenErr {
		b.WriteString(" open-error")
	}
	if m.InitPanic > 0 {
		fmt.Fprintf(&b, " init-panic(%d)", m.InitPanic-1)
	}
	for _, fn := range allFns {
		if f := m.Faults[fn]; f != nil {
			fmt.Fprintf(&b, " fault(%s,%d)", fn, f.Kind)
		}
	}
	return b.String()
}

var requiredFns = []string{"OnLoad", "OnInit", "OnFree", "Export", "Import", "InvokeFunc", "Reloadable",
	"HotswapLiveFuncs", "HotswapLiveTypes"}

var allFns = requiredFns

// ---- faults ---------------------------------------------------------------

type FaultKind int

const (
	FErr FaultKind = iota
	FErrCustom
	FErrEmpty
	FErrSentinel
	FErrTypedNil
	FPanicStr
	FPanicErr
	FPanicNilDeref
	FPanicIndex
	FPanicCustom
	FPanicNil
	FPanicInt
	FPanicNilMap
	FPanicEmptyStr
	FPanicEmptyErr
	FPanicFalse
	FPanicTypedNil
	FPanicEvil
	FPanicFunc
	FPanicSentinel
	FPanicEvilErr
	nFaultKinds
)

type Fault struct {
	Kind  FaultKind
	Mark  string
	Sleep int // virtual milliseconds before the fault
}

type customErr struct{ Mark string }

func (c *customErr) Error() string {
	if c == nil {
		return "nil custom error"
	}
	return "custom error " + c.Mark
}

// Errors that mean something elsewhere.
var sentinels = []error{io.EOF, os.ErrNotExist, hotswap.ErrNotExist, context.Canceled, context.DeadlineExceeded,
	os.ErrDeadlineExceeded, fs.SkipAll, errors.ErrUnsupported, os.ErrPermission, syscall.EAGAIN, errors.New("temporary failure, try again"),
	fmt.Errorf("ignored: %w", io.EOF), errors.Join(io.EOF, os.ErrClosed), errors.New("plugin already loaded"), errors.New("unchanged"), errors.New("not reloadable")}

func (f *Fault) sentinel() error { return sentinels[hash64(f.Mark)%uint64(len(sentinels))] }

type customPanic struct {
	Mark string
	N    int
}

// evil panics again whenever somebody formats it; fmt contains that.
type evilStringer struct{ Mark string }

func (e evilStringer) String() string { panic("evil " + e.Mark) }

type evilErr struct{ Mark string }

func (e evilErr) Error() string { panic("evil " + e.Mark) }

// text is what the resulting error or log message must contain.
func (f *Fault) text() string {
	switch f.Kind {
	case FErr, FErrCustom, FPanicStr, FPanicErr, FPanicCustom:
		return f.Mark
	case FPanicNilDeref:
		return "nil pointer dereference"
	case FPanicIndex:
		return "index out of range"
	case FPanicNil:
		return "nil"
	case FPanicInt:
		return "4242"
	case FPanicNilMap:
		return "nil map"
	case FErrSentinel, FPanicSentinel:
		return f.sentinel().Error()
	case FErrTypedNil:
		return "nil custom error"
	}
	return ""
}

func (f *Fault) isPanic() bool { return f.Kind >= FPanicStr }

// fire panics, or returns the error to return.
func (f *Fault) fire() error {
	switch f.Kind {
	case FErr:
		return errors.New("fault " + f.Mark)
	case FErrCustom:
		return &customErr{f.Mark}
	case FErrEmpty:
		return errors.New("")
	case FPanicStr:
		panic("fault " + f.Mark)
	case FPanicErr:
		panic(fmt.Errorf("fault %s", f.Mark))
	case FPanicNilDeref:
		var p *Img
		_ = *&p.ID
		sink = p.Name
	case FPanicIndex:
		var a []int
		i := len(f.Mark)
		sink = a[i]
	case FPanicCustom:
		panic(customPanic{f.Mark, 7})
	case FPanicNil:
		panic(nil)
	case FPanicInt:
		panic(4242)
	case FPanicNilMap:
		var m map[string]int
		m[f.Mark] = 1
	case FErrSentinel:
		return f.sentinel()
	case FErrTypedNil:
		return (*customErr)(nil)
	case FPanicEmptyStr:
		panic("")
	case FPanicEmptyErr:
		panic(errors.New(""))
	case FPanicFalse:
		panic(false)
	case FPanicTypedNil:
		panic((*customErr)(nil))
	case FPanicEvil:
		panic(evilStringer{f.Mark})
	case FPanicEvilErr:
		panic(evilErr{f.Mark})
	case FPanicFunc:
		panic(func() {})
	case FPanicSentinel:
		panic(f.sentinel())
	}
	return nil
}

var sink interface{}

// ---- import structs ----------------------------------------------------------

type embAlpha struct{ Alpha }
type embAlphaPtr struct{ *Alpha }
type embAlphaTagged struct {
	Alpha `hotswap:"-"`
}
type embUnexp struct{ alpha }

func presetValue(t reflect.Type, salt int) reflect.Value {
	switch t {
	case fieldTypes[0], fieldTypes[4]:
		return reflect.ValueOf(&ExpA{"preset" + strconv.Itoa(salt)})
	case fieldTypes[1]:
		return reflect.ValueOf(&ExpB{"preset" + strconv.Itoa(salt)})
	case fieldTypes[2]:
		return reflect.ValueOf(&ExpAB{"preset" + strconv.Itoa(salt)})
	case fieldTypes[3]:
		return reflect.ValueOf("preset" + strconv.Itoa(salt))
	case fieldTypes[5]:
		return reflect.ValueOf(ValA{"preset" + strconv.Itoa(salt)})
	case fieldTypes[6], fieldTypes[10]:
		return reflect.ValueOf(func() string { return "preset" + strconv.Itoa(salt) }).Convert(t)
	case fieldTypes[7], fieldTypes[9]:
		return reflect.ValueOf(map[string]string{"id": "preset" + strconv.Itoa(salt)}).Convert(t)
	case fieldTypes[8]:
		return reflect.ValueOf(salt + 5)
	case fieldTypes[11]:
		return reflect.ValueOf(int64(salt + 5))
	case fieldTypes[12]:
		return reflect.ValueOf("preset" + strconv.Itoa(salt))
	case fieldTypes[14]:
		return reflect.ValueOf([]string{"preset", strconv.Itoa(salt)})
	case fieldTypes[15], fieldTypes[16]:
		return reflect.ValueOf(make(chan int, salt%50)).Convert(t)
	case fieldTypes[17]:
		return reflect.ValueOf(true)
	default:
		return reflect.ValueOf(errors.New("preset" + strconv.Itoa(salt)))
	}
}

// describe turns a value into something comparable that identifies it.
func describe(v reflect.Value) string {
	if !v.IsValid() {
		return "<none>"
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return describe(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return fmt.Sprintf("%s@%x", v.Type(), v.Pointer())
	case reflect.Map, reflect.Chan:
		if v.IsNil() {
			return "nil"
		}
		return fmt.Sprintf("%s@%x", v.Kind(), v.Pointer())
	case reflect.Slice:
		if v.IsNil() {
			return "nil"
		}
		return fmt.Sprintf("slice%v@%x", v, v.Pointer())
	case reflect.Func:
		if v.IsNil() {
			return "nil"
		}
		return "func:" + v.Call(nil)[0].String()
	default:
		return fmt.Sprintf("%s:%v", v.Type(), v)
	}
}

// buildImport makes the object Import() returns and records what every field holds.
func buildImport(m *Img) (interface{}, map[int]string) {
	switch m.Imp {
	case ImpNil:
		return nil, nil
	case ImpTypedNil:
		return (*struct{ Alpha IA })(nil), nil
	case ImpValue:
		return struct{ Zzz int }{}, nil
	case ImpPtrInt:
		return new(int), nil
	case ImpPtrPtr:
		p := &struct{}{}
		return &p, nil
	case ImpMap:
		return map[string]string{"alpha": "x"}, nil
	case ImpEmbed:
		return &embAlpha{}, nil
	case ImpEmbedPtr:
		return &embAlphaPtr{}, nil
	case ImpEmbedTagged:
		return &embAlphaTagged{}, nil
	case ImpEmbedUnexp:
		return &embUnexp{}, nil
	}
	var sf []reflect.StructField
	for _, f := range m.Fields {
		x := reflect.StructField{Name: f.Name, Type: fieldTypes[f.Type], Tag: reflect.StructTag(f.Tag)}
		if !f.exported() {
			x.PkgPath = "verif/rt"
		}
		sf = append(sf, x)
	}
	obj := reflect.New(reflect.StructOf(sf))
	init := make(map[int]string)
	for i, f := range m.Fields {
		fv := fieldValue(obj, i)
		if f.Preset {
			fv.Set(presetValue(fieldTypes[f.Type], m.ID*16+i))
		}
		init[i] = describe(fv)
	}
	return obj.Interface(), init
}

// fieldValue gives access to a field, unexported ones included.
func fieldValue(obj reflect.Value, i int) reflect.Value {
	fv := obj.Elem().Field(i)
	return reflect.NewAt(fv.Type(), unsafe.Pointer(fv.UnsafeAddr())).Elem()
}
