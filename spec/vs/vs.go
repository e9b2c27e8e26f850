// Package vs is the specification vocabulary of the contracts under
// /verif/spec. It is laid over /repo/internal/vs when the contracts are
// loaded. The verifier (govc) interprets every function here itself; the
// bodies below are their executable meaning, used when a contract is run on
// concrete inputs to replay a failed obligation.
package vs

import (
	"net/http"
	"bytes"
	"io/fs"
	"path/filepath"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strings"
	"bufio"
)

// Violation is what a failing Ensures or Assert raises at run time.
type Violation struct{ Label string }

func (v Violation) Error() string { return "postcondition fails: " + v.Label }

// Skip is raised when a precondition does not hold at run time.
type Skip struct{}

func Prop(ids string)     {}
func Option(name string)  {}
func Requires(c bool) {
	if !c {
		panic(Skip{})
	}
}
func Ensures(label string, c bool) {
	if !c {
		panic(Violation{label})
	}
}
func Assert(label string, c bool) {
	if !c {
		panic(Violation{label})
	}
}

// Assume states a fact about a dependency; every use is listed in the evidence.
func Assume(label string, c bool) {}

// Inv offers a loop invariant template; the parameters are bound to loop variables of the same type.
func Inv(f any) {}

func Modifies(p any)  {}
func ModifiesOut()    {}
func ModifiesNet()    {}
func ModifiesFiles()  {}
func Allocates()      {}
func Decreases(n int) {}

func deepEq(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deepEq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !deepEq(a.MapIndex(k), v) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !deepEq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Pointer:
		return a.Pointer() == b.Pointer() || !a.IsNil() && !b.IsNil() && deepEq(a.Elem(), b.Elem())
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return deepEq(a.Elem(), b.Elem())
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		return a.Uint() == b.Uint()
	case reflect.Float64, reflect.Float32:
		return a.Float() == b.Float()
	case reflect.Func:
		return a.IsNil() == b.IsNil()
	}
	return false
}

// Eq: same content; nil and empty slices and maps are the same.
func Eq[T any](a, b T) bool { return deepEq(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem()) }

// Same: Eq at run time; the verifier compares the values as they are.
func Same[T any](a, b T) bool { return Eq(a, b) }

func cloneV(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(cloneV(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, cloneV(v.MapIndex(k)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(cloneV(v.Field(i)))
			}
		}
		return n
	}
	return v
}

// Clone: the value as it is now (the code may overwrite the original).
func Clone[T any](a T) T { return cloneV(reflect.ValueOf(&a).Elem()).Interface().(T) }

func In[T comparable](x T, s []T) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// Member: In for elements that Go cannot compare.
func Member[T any](x T, s []T) bool {
	for _, y := range s {
		if Eq(x, y) {
			return true
		}
	}
	return false
}

func Has[K comparable, V any](m map[K]V, k K) bool { _, ok := m[k]; return ok }

// Keys: the keys in the order the range loop visits them (unspecified).
func Keys[K comparable, V any](m map[K]V) []K {
	out := make([]K, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

func Concat[T any](a, b []T) []T    { return append(append([]T{}, a...), b...) }
func Append[T any](a []T, x T) []T  { return append(append([]T{}, a...), x) }
func Sub[T any](a []T, i, j int) []T { return append([]T{}, a[i:j]...) }
func At[T any](a []T, i int) T      { return a[i] }
func Put[K comparable, V any](m map[K]V, k K, v V) map[K]V {
	n := map[K]V{}
	for a, b := range m {
		n[a] = b
	}
	n[k] = v
	return n
}

// SortBy: what sorting s by less produces.
func SortBy[T any](s []T, less func(a, b T) bool) []T {
	if s == nil {
		return nil
	}
	n := append([]T{}, s...)
	sort.SliceStable(n, func(i, j int) bool { return less(n[i], n[j]) })
	return n
}

func Sorted[S ~[]E, E ~string](s S) S {
	n := append(S{}, s...)
	sort.Slice(n, func(i, j int) bool { return n[i] < n[j] })
	return n
}

// Written: everything written to w so far.
func Written(w io.Writer) string {
	switch b := w.(type) {
	case *bytes.Buffer:
		return b.String()
	case *strings.Builder:
		return b.String()
	}
	panic(Skip{})
}

func Nil() error { return nil }

func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

func ForallKeys[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

func ExistsKey[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if f(k) {
			return true
		}
	}
	return false
}

// ForallAny cannot be run; the verifier checks it.
func ForallAny[T any](f func(x T) bool) bool { return true }
func ForallStr(f func(x string) bool) bool   { return true }

// Fresh: the call made the object. Known: the object exists. Old: the object as it was before the call.
func Fresh[T any](p *T) bool    { return true }
func Known[T any](p *T) bool    { return true }
func Old[T any](p *T) T         { return *p }
func ModifiesAll[T any](p *T)   {}

func SameBag[T any](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
outer:
	for i := range a {
		for j := range b {
			if !used[j] && Eq(a[i], b[j]) {
				used[j] = true
				continue outer
			}
		}
		return false
	}
	return true
}

func FileText(path string) string { b, _ := os.ReadFile(path); return string(b) }
func FileErr(path string) error   { _, err := os.ReadFile(path); return err }

func Lines(path string) []string {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []string
	s := bufio.NewScanner(f)
	for s.Scan() {
		out = append(out, s.Text())
	}
	return out
}

func ScanErr(path string) error {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	for s.Scan() {
	}
	return s.Err()
}

// CSVRows, CSVEnd: the records a CSV reader yields and the error it then ends with.
func CSVRows(r io.Reader) [][]string { panic(Skip{}) }
func CSVEnd(r io.Reader) error       { panic(Skip{}) }

// Net and file effects: observed by the harness, not by the contract.
func LastRequest() *http.Request   { return nil }
func LastResponse() *http.Response { return nil }
func GroupErr() error              { return nil }
func LastHTTPErr() error           { return nil }
func NetCalls() int                 { return 0 }
func YAML(v any) string                { return "" }
func LastWriteErr() error             { return nil }
func SentHeader(k string) string      { return "" }
// Streams: what has been written to each stream.
func Streams() map[io.Writer]string   { return nil }
// On: what has been written to w.
func On(m map[io.Writer]string, w io.Writer) string { return m[w] }
func WrittenFiles() map[string]string { return nil }
func ErrIs(e, target error) bool    { return false }

// Visit is one call that filepath.Walk makes.
type Visit struct {
	Path string
	Info fs.FileInfo
	Err  error
}

// Visits lists the calls that filepath.Walk makes for a directory, in order,
// as long as the function it is given returns nil.
func Visits(root string) []Visit {
	var vs []Visit
	_ = filepath.Walk(root, func(path string, info fs.FileInfo, err error) error {
		vs = append(vs, Visit{path, info, err})

		return nil
	})

	return vs
}

// Walk stands for filepath.Walk with a function that never asks to skip anything.
func Walk(root string, fn filepath.WalkFunc) error {
	for _, v := range Visits(root) {
		if err := fn(v.Path, v.Info, v.Err); err != nil {
			return err
		}
	}

	return nil
}

// AtCall: whenever the function under contract calls f, pred holds of the
// arguments (the receiver first) at that moment. Given before the call.
func AtCall(label string, f any, pred any) {}

// Log: argument i of every call of f made by the function under contract, in order
// (the receiver of a method is argument 0). To be mentioned before the call as well.
func Log[T any](f any, i int) []T { return nil }

// Got: result i of every such call.
func Got[T any](f any, i int) []T { return nil }

// Flag: the value of the command-line flag; FlagArgs: the arguments that are not flags.
func Flag[T any](name string) T { var z T; return z }
func FlagArgs() []string        { return nil }
