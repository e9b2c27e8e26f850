package main

// Mapping of Go types to SMT sorts.

import (
	"fmt"
	"go/types"
	"strings"
)

type SortTab struct {
	c       *Ctx
	byKey   map[string]*Sort
	structs []*Sort // in dependency order of completion
	unint   []*Sort // uninterpreted sorts (seq, map, opaque)
	goTypes map[*Sort]types.Type
}

func newSortTab(c *Ctx) *SortTab {
	return &SortTab{c: c, byKey: map[string]*Sort{}, goTypes: map[*Sort]types.Type{}}
}

func qual(p *types.Package) string { return p.Name() }

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}
func typeShort(t types.Type) string { return types.TypeString(t, qual) }

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Byte || b.Kind() == types.Uint8)
}

func (st *SortTab) Seq(elem *Sort) *Sort {
	n := "Seq<" + elem.Name + ">"
	if s, ok := st.byKey[n]; ok {
		return s
	}
	s := &Sort{Kind: SSeq, Name: sanitize(n), Elem: elem}
	st.byKey[n] = s
	st.unint = append(st.unint, s)
	return s
}
func (st *SortTab) Map(k, v *Sort) *Sort {
	n := "Map<" + k.Name + "." + v.Name + ">"
	if s, ok := st.byKey[n]; ok {
		return s
	}
	s := &Sort{Kind: SMap, Name: sanitize(n), Elem: v, Key: k}
	st.byKey[n] = s
	st.unint = append(st.unint, s)
	return s
}
func (st *SortTab) Opaque(n string) *Sort {
	if s, ok := st.byKey["op:"+n]; ok {
		return s
	}
	s := &Sort{Kind: SOpaque, Name: sanitize(n)}
	st.byKey["op:"+n] = s
	st.unint = append(st.unint, s)
	return s
}
func (st *SortTab) Arr(elem *Sort) *Sort {
	n := "arr:" + elem.Name
	if s, ok := st.byKey[n]; ok {
		return s
	}
	s := &Sort{Kind: SArr, Name: "Arr_" + elem.Name, Elem: elem}
	st.byKey[n] = s
	return s
}

// Of returns the sort of values of Go type t.
func (st *SortTab) Of(t types.Type) *Sort {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsFloat != 0:
			return sReal
		case u.Info()&types.IsString != 0:
			return sStr
		case u.Kind() == types.UntypedNil:
			return sInt
		}
		return st.Opaque("basic_" + u.Name())
	case *types.Pointer:
		return sInt
	case *types.Slice:
		if isByte(u.Elem()) {
			return sStr
		}
		s := st.Seq(st.Of(u.Elem()))
		return s
	case *types.Array:
		if isByte(u.Elem()) {
			return sStr
		}
		return st.Seq(st.Of(u.Elem()))
	case *types.Map:
		return st.Map(st.Of(u.Key()), st.Of(u.Elem()))
	case *types.Interface:
		return sIfc
	case *types.Signature:
		return sFn
	case *types.Struct:
		return st.structSort(t, u)
	case *types.Chan:
		return st.Opaque("chan")
	case *types.Tuple:
		panic("tuple sort")
	}
	return st.Opaque("T_" + typeShort(t))
}

func external(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil {
			return !strings.HasPrefix(p.Path(), repoMod)
		}
	}
	return false
}

func (st *SortTab) structSort(t types.Type, u *types.Struct) *Sort {
	key := "struct:" + typeKey(t)
	if s, ok := st.byKey[key]; ok {
		return s
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && external(n) && !transparent(n.String()) {
		return st.Opaque("X_" + typeShort(t))
	}
	name := "S_" + sanitize(typeShort(t))
	if _, ok := types.Unalias(t).(*types.Named); !ok {
		name = fmt.Sprintf("S_anon%d", len(st.structs)+len(st.byKey))
	}
	s := &Sort{Kind: SStruct, Name: name}
	st.byKey[key] = s
	st.goTypes[s] = t
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		fs := st.Of(f.Type())
		s.Fields = append(s.Fields, FieldS{Name: fmt.Sprintf("%s.%s.%d", name, sanitize(f.Name()), i), Sort: fs})
	}
	s.sealed = true
	st.structs = append(st.structs, s)
	return s
}

// Zero returns the zero value of a Go type.
func (u *Unit) Zero(t types.Type) *Term {
	c := u.c
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return c.False
		case x.Info()&types.IsInteger != 0:
			return c.Int(0)
		case x.Info()&types.IsFloat != 0:
			return c.Real("0.0")
		case x.Info()&types.IsString != 0:
			return c.Str("")
		case x.Kind() == types.UntypedNil:
			return c.Int(0)
		}
	case *types.Pointer:
		return c.Int(0)
	case *types.Slice:
		if isByte(x.Elem()) {
			return c.Str("")
		}
		return c.Nil(u.st.Of(t))
	case *types.Map:
		return c.Nil(u.st.Of(t))
	case *types.Interface:
		return c.App("ifc.nil", sIfc)
	case *types.Signature:
		return c.App("fn.nil", sFn)
	case *types.Array:
		if isByte(x.Elem()) {
			return u.freshT("zbytes", t)
		}
		s := u.st.Of(t)
		if x.Len() <= 64 {
			r := c.Empty(s)
			z := u.Zero(x.Elem())
			for i := int64(0); i < x.Len(); i++ {
				r = c.Snoc(r, z)
			}
			return r
		}
	case *types.Struct:
		s := u.st.Of(t)
		if s.Kind == SStruct {
			args := make([]*Term, len(s.Fields))
			for i := range args {
				args[i] = u.Zero(x.Field(i).Type())
			}
			return c.Mk(s, args...)
		}
		return c.App("zero."+s.Name, s)
	}
	s := u.st.Of(t)
	return c.App("zero."+s.Name, s)
}

func (u *Unit) freshT(hint string, t types.Type) *Term { return u.c.Fresh(hint, u.st.Of(t)) }

// transparent: library structs whose fields the code under contract uses.
func transparent(n string) bool {
	switch n {
	case "encoding/xml.Name", "net/url.URL", "net/http.Response", "net/http.Request", "archive/zip.Reader", "archive/zip.File", "archive/zip.FileHeader":
		return true
	}
	return strings.HasPrefix(n, "golang.org/x/mod/")
}
