// Package storecheck drives hedzr/store by the calls of the TLA+
// specification (see ../spec) and compares the answers.
package storecheck

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

// aStruct is a value that is not made of maps and lists.
type aStruct struct {
	Name string
	List []string
}

// The values of the specification are tagged strings. dec makes a fresh
// Go value of one, enc is the inverse.

func dec(tag string) any {
	kind, body, ok := strings.Cut(tag, ":")
	if !ok {
		if tag == "nil" {
			return nil
		}
		panic("bad value tag " + tag)
	}
	switch kind {
	case "i":
		n, err := strconv.Atoi(body)
		if err != nil {
			panic("bad value tag " + tag)
		}
		return n
	case "I":
		n, err := strconv.ParseInt(body, 10, 64)
		if err != nil {
			panic("bad value tag " + tag)
		}
		return n
	case "s":
		return body
	case "b":
		return body == "true"
	case "f":
		n, err := strconv.ParseFloat(body, 64)
		if err != nil {
			panic("bad value tag " + tag)
		}
		return n
	case "du":
		n, err := time.ParseDuration(body)
		if err != nil {
			panic("bad value tag " + tag)
		}
		return n
	case "by":
		return []byte(body)
	case "le":
		return []string{}
	case "st":
		return aStruct{Name: body, List: []string{body}}
	case "ps":
		return &aStruct{Name: body, List: []string{body}}
	case "ls":
		return strings.Split(body, ",")
	case "la":
		var a []any
		for _, x := range strings.Split(body, ",") {
			a = append(a, x)
		}
		return a
	case "li":
		var a []int
		for _, x := range strings.Split(body, ",") {
			n, _ := strconv.Atoi(x)
			a = append(a, n)
		}
		return a
	case "l2":
		var a [][]string
		for _, x := range strings.Split(body, ",") {
			a = append(a, []string{x})
		}
		return a
	case "mx":
		k, v, _ := strings.Cut(body, "=")
		return map[any]any{k: v}
	case "m2":
		return map[string]map[string]string{"k": {"n": body}}
	case "lm":
		var a []map[string]any
		for _, x := range strings.Split(body, ",") {
			a = append(a, map[string]any{"n": x})
		}
		return a
	case "lx":
		var a []map[any]any
		for _, x := range strings.Split(body, ",") {
			a = append(a, map[any]any{"n": x})
		}
		return a
	case "ly": // a list of maps keyed by any
		var a []any
		for _, x := range strings.Split(body, ",") {
			a = append(a, map[any]any{"n": x})
		}
		return a
	case "lw": // a list with lists of maps, and a list of strings
		x := strings.Split(body, ",")
		return []any{[]map[any]any{{"n": x[0]}, {"n": x[1]}}, []string{x[0], x[1]}, []map[string]any{{"n": x[0]}, {"n": x[1]}}}
	case "ln": // a list with a map, a scalar and a list
		x := strings.Split(body, ",")
		return []any{map[string]any{"k": x[0]}, x[1], []any{x[0], x[1]}}
	case "mi":
		m := map[string]int{}
		for _, x := range strings.Split(body, ",") {
			k, v, _ := strings.Cut(x, "=")
			m[k], _ = strconv.Atoi(v)
		}
		return m
	case "ms":
		return map[string][]string{"k": strings.Split(body, ",")}
	case "mn":
		return map[string]any{"k": []any{map[string]any{"n": body}}}
	case "ma":
		m := map[string]any{}
		for _, x := range strings.Split(body, ",") {
			k, v, _ := strings.Cut(x, "=")
			m[k] = v
		}
		return m
	}
	panic("bad value tag " + tag)
}

func enc(v any) string {
	if s := flagText(v); s != "" {
		return s
	}
	switch z := v.(type) {
	case nil:
		return "nil"
	case int:
		return "i:" + strconv.Itoa(z)
	case int64:
		return "I:" + strconv.FormatInt(z, 10)
	case string:
		return "s:" + z
	case bool:
		return "b:" + strconv.FormatBool(z)
	case float64:
		return "f:" + strconv.FormatFloat(z, 'g', -1, 64)
	case time.Duration:
		return "du:" + z.String()
	case []byte:
		return "by:" + string(z)
	case aStruct:
		if len(z.List) == 1 && z.List[0] == z.Name {
			return "st:" + z.Name
		}
	case *aStruct:
		if z != nil && len(z.List) == 1 && z.List[0] == z.Name {
			return "ps:" + z.Name
		}
	case []string:
		if z != nil && len(z) == 0 {
			return "le:"
		}
		return "ls:" + strings.Join(z, ",")
	case []any:
		for _, t := range []string{"ly:p,q", "lw:p,q", "ly:Z,q"} {
			if reflect.DeepEqual(v, dec(t)) || reflect.DeepEqual(v, []any{map[string]any{"n": "p"}, map[string]any{"n": "q"}}) {
				return t
			}
		}
		var a []string
		for _, x := range z {
			s, ok := x.(string)
			if !ok {
				if len(z) == 3 {
					if m, ok := z[0].(map[string]any); ok && len(m) == 1 {
						x0, ok0 := m["k"].(string)
						x1, ok1 := z[1].(string)
						if ok0 && ok1 && reflect.DeepEqual(z[2], []any{x0, x1}) {
							return "ln:" + x0 + "," + x1
						}
					}
				}
				return fmt.Sprintf("?%#v", v)
			}
			a = append(a, s)
		}
		return "la:" + strings.Join(a, ",")
	case []int:
		var a []string
		for _, x := range z {
			a = append(a, strconv.Itoa(x))
		}
		return "li:" + strings.Join(a, ",")
	case [][]string:
		var a []string
		for _, x := range z {
			if len(x) != 1 {
				return fmt.Sprintf("?%#v", v)
			}
			a = append(a, x[0])
		}
		return "l2:" + strings.Join(a, ",")
	case map[any]any:
		if x, ok := z["k"].(string); ok && len(z) == 1 {
			return "mx:k=" + x
		}
	case map[string]map[string]string:
		if x, ok := z["k"]["n"]; ok && len(z) == 1 && len(z["k"]) == 1 {
			return "m2:" + x
		}
	case []map[string]any:
		var a []string
		for _, x := range z {
			s, ok := x["n"].(string)
			if !ok || len(x) != 1 {
				return fmt.Sprintf("?%#v", v)
			}
			a = append(a, s)
		}
		return "lm:" + strings.Join(a, ",")
	case []map[any]any:
		var a []string
		for _, x := range z {
			s, ok := x["n"].(string)
			if !ok || len(x) != 1 {
				return fmt.Sprintf("?%#v", v)
			}
			a = append(a, s)
		}
		return "lx:" + strings.Join(a, ",")
	case map[string]int:
		var a []string
		for k, x := range z {
			a = append(a, k+"="+strconv.Itoa(x))
		}
		sort.Strings(a)
		return "mi:" + strings.Join(a, ",")
	case map[string][]string:
		if x, ok := z["k"]; ok && len(z) == 1 {
			return "ms:" + strings.Join(x, ",")
		}
	case map[string]any:
		if l, ok := z["k"].([]any); ok && len(z) == 1 && len(l) == 1 {
			if m, ok := l[0].(map[string]any); ok && len(m) == 1 {
				if x, ok := m["n"].(string); ok {
					return "mn:" + x
				}
			}
		}
		var a []string
		for k, x := range z {
			s, ok := x.(string)
			if !ok {
				return fmt.Sprintf("?%#v", v)
			}
			a = append(a, k+"="+s)
		}
		sort.Strings(a)
		return "ma:" + strings.Join(a, ",")
	}
	return fmt.Sprintf("?%T:%v", v, v)
}

// mutate changes a slice or map in place.
func mutate(v any) {
	switch z := v.(type) {
	case []string:
		if len(z) > 0 {
			z[0] = "Z"
		}
	case []any:
		switch e := enc(v); {
		case strings.HasPrefix(e, "la:"):
			z[0] = "Z"
		case strings.HasPrefix(e, "ly:"):
			if m, ok := z[0].(map[any]any); ok {
				m["n"] = "Z"
			} else {
				z[0].(map[string]any)["n"] = "Z"
			}
		case strings.HasPrefix(e, "ln:"):
			z[0].(map[string]any)["k"] = "Z"
			z[2].([]any)[0] = "Z"
		}
	case []int:
		z[0] = 9
	case []byte:
		z[0] = 'Z'
	case [][]string:
		z[0][0] = "Z"
	case map[any]any:
		z["k"] = "Z"
	case map[string]map[string]string:
		z["k"]["n"] = "Z"
	case []map[string]any:
		z[0]["n"] = "Z"
	case []map[any]any:
		z[0]["n"] = "Z"
	case map[string]int:
		z["k"] = 9
	case map[string][]string:
		z["k"][0] = "Z"
	case map[string]any:
		if l, ok := z["k"].([]any); ok {
			l[0].(map[string]any)["n"] = "Z"
			return
		}
		z["k"] = "Z"
	}
}
