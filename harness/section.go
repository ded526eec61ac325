package storecheck

import (
	"reflect"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

// section is what sections are decoded into. Its fields are known to the
// specification (Sections.tla) by their paths in lower case.
type section struct {
	Name  string
	Names string
	Port  int
	On    bool
	Rate  float64
	Tags  []string
	N1    string
	Sub   subSection
	Subs  subSection
}

type subSection struct {
	Name string
	Port int
	Deep deepSection
}

type deepSection struct {
	Level int
	Name  string
}

// fields lists [path, value] of everything in a struct.
func fields(v reflect.Value, path []any) (m []any) {
	for i := 0; i < v.NumField(); i++ {
		p := append(append([]any{}, path...), strings.ToLower(v.Type().Field(i).Name))
		if f := v.Field(i); f.Kind() == reflect.Struct {
			m = append(m, fields(f, p)...)
		} else if f.Kind() == reflect.Slice && f.IsNil() {
			m = append(m, []any{p, "nil"})
		} else {
			m = append(m, []any{p, enc(f.Interface())})
		}
	}
	return
}

// fill gives every field a value that is not its zero value.
func fill(v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		switch f := v.Field(i); f.Kind() {
		case reflect.Struct:
			fill(f)
		case reflect.String:
			f.SetString("old")
		case reflect.Int:
			f.SetInt(77)
		case reflect.Bool:
			f.SetBool(true)
		case reflect.Float64:
			f.SetFloat(7.5)
		case reflect.Slice:
			f.Set(reflect.ValueOf([]string{"o", "p"}))
		}
	}
}

func (u *universe) section(h *handle, c *Call) Res {
	opts := mopts(c)
	if c.B { // no struct
		err := h.To(c.P, nil, opts...)
		return Res{"e": err != nil, "m": []any{}}
	}
	var x section
	if c.W { // it holds something before
		fill(reflect.ValueOf(&x).Elem())
	}
	var err error
	switch {
	case c.Via == "section":
		err = h.GetSectionFrom(c.P, &x, opts...)
	case c.Via == "generic" && h.st != nil:
		err = store.To(h.st, c.P, &x, opts...)
	default:
		err = h.To(c.P, &x, opts...)
	}
	return Res{"e": err != nil, "m": fields(reflect.ValueOf(x), nil)}
}

func mopts(c *Call) (opts []radix.MOpt[any]) {
	if c.Keep {
		opts = append(opts, store.WithKeepPrefix[any](true))
	}
	if c.Nf {
		opts = append(opts, store.WithoutFlattenKeys[any](true))
	}
	switch c.Flt {
	case "mod":
		opts = append(opts, store.WithFilter(func(n radix.Node[any]) bool { return n.Modified() }))
	case "int":
		opts = append(opts, store.WithFilter(func(n radix.Node[any]) bool { _, ok := n.Data().(int); return ok }))
	case "none":
		opts = append(opts, store.WithFilter(func(n radix.Node[any]) bool { return false }))
	}
	return
}
