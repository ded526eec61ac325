package storecheck

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/hedzr/store"
)

// The typed getters. A typed value is written as its type and its text,
// "int8:5", "[]int:1,2", "map[string]bool:a=true,b=false"; the text of a
// number does not depend on its type.

var scalarTypes = map[string]reflect.Type{
	"int": reflect.TypeFor[int](), "int8": reflect.TypeFor[int8](), "int16": reflect.TypeFor[int16](), "int32": reflect.TypeFor[int32](), "int64": reflect.TypeFor[int64](),
	"uint": reflect.TypeFor[uint](), "uint8": reflect.TypeFor[uint8](), "uint16": reflect.TypeFor[uint16](), "uint32": reflect.TypeFor[uint32](), "uint64": reflect.TypeFor[uint64](),
	"float32": reflect.TypeFor[float32](), "float64": reflect.TypeFor[float64](), "complex64": reflect.TypeFor[complex64](), "complex128": reflect.TypeFor[complex128](),
	"bool": reflect.TypeFor[bool](), "string": reflect.TypeFor[string](), "duration": reflect.TypeFor[time.Duration](), "time": reflect.TypeFor[time.Time](), "any": reflect.TypeFor[any](),
}

func goType(name string) reflect.Type {
	if t, ok := scalarTypes[name]; ok {
		return t
	}
	if n, ok := strings.CutPrefix(name, "[]"); ok {
		return reflect.SliceOf(goType(n))
	}
	if n, ok := strings.CutPrefix(name, "map[string]"); ok {
		return reflect.MapOf(reflect.TypeFor[string](), goType(n))
	}
	if n, ok := strings.CutPrefix(name, "map[any]"); ok {
		return reflect.MapOf(reflect.TypeFor[any](), goType(n))
	}
	panic(infra("unknown type " + name))
}

// parseAs makes a value of a type from its text.
func parseAs(t reflect.Type, text string) reflect.Value {
	v := reflect.New(t).Elem()
	bad := func(err error) {
		if err != nil {
			panic(infra(fmt.Sprintf("%q is not a %v", text, t)))
		}
	}
	switch {
	case t == scalarTypes["duration"]:
		d, err := time.ParseDuration(text)
		bad(err)
		v.SetInt(int64(d))
		return v
	case t == scalarTypes["time"]:
		x, err := time.Parse(time.RFC3339, text)
		bad(err)
		v.Set(reflect.ValueOf(x))
		return v
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(text, 10, t.Bits())
		bad(err)
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(text, 10, t.Bits())
		bad(err)
		v.SetUint(n)
	case reflect.Float32, reflect.Float64:
		n, err := strconv.ParseFloat(text, t.Bits())
		bad(err)
		v.SetFloat(n)
	case reflect.Complex64, reflect.Complex128:
		n, err := strconv.ParseComplex(text, t.Bits())
		bad(err)
		v.SetComplex(n)
	case reflect.Bool:
		v.SetBool(text == "true")
	case reflect.String:
		v.SetString(text)
	case reflect.Interface:
		if n, err := strconv.Atoi(text); err == nil {
			v.Set(reflect.ValueOf(n))
		} else {
			v.Set(reflect.ValueOf(text))
		}
	case reflect.Slice:
		if text != "" {
			for _, x := range strings.Split(text, ",") {
				v = reflect.Append(v, parseAs(t.Elem(), x))
			}
		}
	case reflect.Map:
		v = reflect.MakeMap(t)
		if text != "" {
			for _, x := range strings.Split(text, ",") {
				k, y, _ := strings.Cut(x, "=")
				v.SetMapIndex(reflect.ValueOf(k), parseAs(t.Elem(), y))
			}
		}
	}
	return v
}

func textOf(v reflect.Value) string {
	switch x := v.Interface().(type) {
	case time.Duration:
		return x.String()
	case time.Time:
		if x.IsZero() {
			return ""
		}
		return x.UTC().Format(time.RFC3339)
	}
	switch v.Kind() {
	case reflect.Interface:
		return textOf(v.Elem())
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if f == math.Trunc(f) && math.Abs(f) < 1e15 {
			return strconv.FormatInt(int64(f), 10)
		}
		return strconv.FormatFloat(f, 'g', -1, v.Type().Bits())
	case reflect.Complex64, reflect.Complex128:
		c := v.Complex()
		if imag(c) == 0 {
			return textOf(reflect.ValueOf(real(c)))
		}
		return strings.Trim(strconv.FormatComplex(c, 'g', -1, v.Type().Bits()), "()")
	case reflect.Slice:
		var a []string
		for i := 0; i < v.Len(); i++ {
			a = append(a, textOf(v.Index(i)))
		}
		return strings.Join(a, ",")
	case reflect.Map:
		var a []string
		for it := v.MapRange(); it.Next(); {
			a = append(a, textOf(it.Key())+"="+textOf(it.Value()))
		}
		sort.Strings(a)
		return strings.Join(a, ",")
	}
	return fmt.Sprint(v.Interface())
}

// typedVal makes the value of "type|class|text".
func typedVal(tag string) any {
	a := strings.Split(tag, "|")
	if len(a) != 3 {
		panic(infra("bad typed value " + tag))
	}
	return parseAs(goType(a[0]), a[2]).Interface()
}

var typeNames = strings.NewReplacer("interface {}", "any", "time.Duration", "duration", "time.Time", "time")

// typedEnc tells the type and text of a value.
func typedEnc(v any) []any {
	if v == nil {
		return []any{"nil", ""}
	}
	return []any{typeNames.Replace(reflect.TypeOf(v).String()), textOf(reflect.ValueOf(v))}
}

// typed calls a getter by its name, both variants.
func (u *universe) typed(h *handle, c *Call) Res {
	recv := reflect.ValueOf(h.api)
	get, must := recv.MethodByName("Get"+c.Ty), recv.MethodByName("Must"+c.Ty)
	if !get.IsValid() || !must.IsValid() {
		panic(infra("no getter for " + c.Ty))
	}
	args := []reflect.Value{reflect.ValueOf(c.P)}
	if c.B { // with a default
		dt := get.Type().In(1).Elem()
		if get.Type().Out(0).Kind() == reflect.Slice {
			for _, x := range strings.Split(c.Df, ",") {
				args = append(args, parseAs(dt, x))
			}
		} else {
			for _, x := range strings.Split(c.Df, ";") {
				args = append(args, parseAs(dt, x))
			}
		}
	}
	out := get.Call(args)
	v := textOf(out[0])
	err, _ := out[1].Interface().(error)
	r := Res{"v": v, "e": err != nil && store.ErrorIsNotFound(err)}
	if err != nil && !store.ErrorIsNotFound(err) {
		r["e"] = err.Error()
	}
	if m := textOf(must.Call(args)[0]); m != v {
		r["v"] = v + " but Must" + c.Ty + ": " + m
	}
	return r
}
