package storecheck

import (
	"context"
	"flag"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/providers/env"
	"github.com/hedzr/store/providers/flags"
	"github.com/hedzr/store/radix"
)

func (u *universe) execMore(h *handle, c *Call) (r Res, ok bool) {
	switch c.Op {
	case "tset":
		h.Set(c.P, typedVal(c.V))
		return Res{"ok": true}, true
	case "typed":
		return u.typed(h, c), true
	case "tcontent":
		m := []any{}
		h.root().Walk("", func(_, _ string, n radix.Node[any]) {
			if n.HasData() {
				m = append(m, append([]any{n.Key()}, typedEnc(n.Data())...))
			}
		})
		return Res{"m": m}, true
	case "size":
		return u.size(h, c), true
	case "route":
		return u.route(h, c), true
	case "prov":
		return u.provide(h, c), true
	case "section":
		return u.section(h, c), true
	}
	return nil, false
}

func (u *universe) size(h *handle, c *Call) Res {
	a := h.api.(interface {
		GetKibiBytes(key string, defaultVal ...uint64) (uint64, error)
		MustKibiBytes(key string, defaultVal ...uint64) uint64
		GetKiloBytes(key string, defaultVal ...uint64) (uint64, error)
		MustKiloBytes(key string, defaultVal ...uint64) uint64
	})
	get, must := a.GetKibiBytes, a.MustKibiBytes
	if c.Ty == "KiloBytes" {
		get, must = a.GetKiloBytes, a.MustKiloBytes
	}
	var df []uint64
	if c.B {
		n, err := strconv.ParseUint(c.Df, 10, 64)
		if err != nil {
			panic(infra(err.Error()))
		}
		df = append(df, n)
	}
	v, err := get(c.P, df...)
	r := Res{"v": strconv.FormatUint(v, 10), "e": err != nil && store.ErrorIsNotFound(err)}
	if err != nil && !store.ErrorIsNotFound(err) {
		r["e"] = err.Error()
	}
	if m := must(c.P, df...); m != v {
		r["v"] = fmt.Sprintf("%v but Must%v: %v", v, c.Ty, m)
	}
	return r
}

// route asks for the pattern a path matches, in every way that tells the
// parameters.
func (u *universe) route(h *handle, c *Call) Res {
	answer := func(hit bool, key string, v any, kv radix.KVPair) Res {
		if !hit {
			return Res{"hit": false}
		}
		m := []any{}
		for a, b := range kv {
			m = append(m, []any{a, b})
		}
		return Res{"hit": true, "key": key, "v": enc(v), "m": bag(m)}
	}
	var rs []Res
	var names []string
	kv := radix.KVPair{}
	var node radix.Node[any]
	var branch, found bool
	if h.st != nil {
		node, branch, _, found = h.st.Locate(c.P, kv)
	} else {
		node, branch, _, found = h.tr.Locate(c.P, kv)
	}
	found1, branch1 := found, branch
	if found && !branch {
		rs = append(rs, answer(true, node.Key(), node.Data(), kv))
	} else {
		rs = append(rs, answer(false, "", nil, nil))
	}
	names = append(names, "Locate")

	kv = radix.KVPair{}
	v, branch, found, err := h.Query(c.P, kv)
	key := ""
	if found1 && !branch1 {
		key = node.Key()
	}
	rs, names = append(rs, answer(found && !branch && err == nil, key, v, kv)), append(names, "Query")

	x := answer(false, "", nil, nil)
	n := 0
	h.GetEx(c.P, func(node radix.Node[any], data any, branch bool, kvpair radix.KVPair) {
		n++
		if !branch {
			x = answer(true, node.Key(), data, kvpair)
		}
	})
	if n > 1 {
		x = Res{"hit": fmt.Sprintf("the callback ran %d times", n)}
	}
	rs, names = append(rs, x), append(names, "GetEx")
	if v, found := h.Get(c.P); found && rs[0]["hit"] == true && enc(v) != rs[0]["v"] || !found && rs[0]["hit"] == true {
		return Res{"hit": fmt.Sprintf("Get: %v, %v", enc(v), found)}
	}
	for i := range rs {
		if js(rs[i]) != js(rs[0]) {
			return Res{"hit": fmt.Sprintf("%s: %v, but %s: %v", names[0], js(rs[0]), names[i], js(rs[i]))}
		}
	}
	return rs[0]
}

// streamProvider is what the env and flags providers offer.
type streamProvider interface {
	store.Provider
	Count() int
	Has(key string) bool
	Next() (key string, eol bool)
	Keys() (keys []string, err error)
	Value(key string) (value any, ok bool)
	MustValue(key string) (value any)
}

func flagText(v any) string {
	rv := reflect.ValueOf(v)
	if rv.IsValid() && rv.Type().PkgPath() == "flag" {
		switch rv.Kind() {
		case reflect.String:
			return "s:" + rv.String()
		case reflect.Bool:
			return "b:" + strconv.FormatBool(rv.Bool())
		case reflect.Int:
			return "i:" + strconv.FormatInt(rv.Int(), 10)
		}
	}
	return ""
}

func (u *universe) provide(h *handle, c *Call) Res {
	o := c.Opt
	cb := func(k string) string { return "x" + k }
	var make_ func() streamProvider
	var check func() string
	switch c.Src {
	case "env":
		saved := os.Environ()
		restore := func() {
			os.Clearenv()
			for _, s := range saved {
				if i := strings.Index(s[1:], "="); i >= 0 {
					os.Setenv(s[:i+1], s[i+2:])
				}
			}
		}
		defer restore()
		os.Clearenv()
		for _, e := range c.Env {
			if err := os.Setenv(e[0], strings.TrimPrefix(e[1], "s:")); err != nil {
				panic(infra(err.Error()))
			}
		}
		before := sorted(os.Environ())
		check = func() string {
			if after := sorted(os.Environ()); !reflect.DeepEqual(before, after) {
				return fmt.Sprintf("the environment changed: %q to %q", before, after)
			}
			return ""
		}
		make_ = func() streamProvider {
			opts := []env.Opt{env.WithPrefix(o.Pre, o.Strip), env.WithLowerCase(o.Lower), env.WithUnderlineToDot(o.U2d)}
			if o.Cb {
				opts = append(opts, env.WithKeyCB(cb))
			}
			if o.Sp != "" {
				opts = append(opts, env.WithStorePrefix(o.Sp))
			}
			return env.New(opts...)
		}
	case "flags":
		saved := flag.CommandLine
		defer func() { flag.CommandLine = saved }()
		fs := flag.NewFlagSet("verif", flag.ContinueOnError)
		fs.SetOutput(io.Discard)
		flag.CommandLine = fs
		for _, e := range c.Env {
			kind, body, _ := strings.Cut(e[1], ":")
			usage := "usage of " + e[0]
			var err error
			switch kind {
			case "s":
				fs.String(e[0], e[2], usage)
			case "i":
				n, er := strconv.Atoi(e[2])
				if er != nil {
					panic(infra(er.Error()))
				}
				fs.Int(e[0], n, usage)
			case "b":
				fs.Bool(e[0], e[2] == "true", usage)
			}
			if err = fs.Set(e[0], body); err != nil {
				panic(infra(err.Error()))
			}
		}
		state := func() (a []string) {
			fs.VisitAll(func(f *flag.Flag) { a = append(a, f.Name+"="+f.Value.String()+"/"+f.DefValue) })
			return
		}
		before := state()
		check = func() string {
			if after := state(); !reflect.DeepEqual(before, after) {
				return fmt.Sprintf("the flags changed: %q to %q", before, after)
			}
			return ""
		}
		make_ = func() streamProvider {
			opts := []flags.Opt{flags.WithPrefix(o.Pre, o.Strip), flags.WithLowerCase(o.Lower), flags.WithUnderlineToDot(o.U2d)}
			if o.Cb {
				opts = append(opts, flags.WithKeyCB(cb))
			}
			if o.Sp != "" {
				opts = append(opts, flags.WithStorePrefix(o.Sp))
			}
			return flags.New(opts...)
		}
	default:
		panic(infra(fmt.Sprint("unknown provider ", c.Src)))
	}

	p := make_()
	m := []any{}
	var bad string
	var names []string
	for i := 0; ; i++ {
		if i > 1000 {
			bad = "Next does not end"
			break
		}
		k, eol := p.Next()
		if eol {
			break
		}
		v, ok := p.Value(k)
		if !ok || !p.Has(k) || enc(p.MustValue(k)) != enc(v) {
			bad = fmt.Sprintf("%q is enumerated but Has=%v Value=%v,%v MustValue=%v", k, p.Has(k), enc(v), ok, enc(p.MustValue(k)))
		}
		m = append(m, []any{k, enc(v)})
		names = append(names, k)
	}
	bulk := []any{}
	if data, err := p.Read(); err == nil {
		for k, v := range data {
			bulk = append(bulk, []any{k, enc(v.Value)})
		}
	} else {
		bad = "Read: " + err.Error()
	}
	if js(bag(bulk)) != js(bag(m)) {
		bad = "Read: " + js(bag(bulk)) + ", Next: " + js(bag(m))
	}
	ks, err := p.Keys()
	if err != nil || !reflect.DeepEqual(sorted(ks), sorted(names)) {
		bad = fmt.Sprintf("Keys: %q, Next: %q", ks, names)
	}
	v, ok := p.Value(c.P)
	if mv := p.MustValue(c.P); enc(mv) != enc(v) || p.Has(c.P) != ok {
		bad = fmt.Sprintf("Value(%q): %v, %v; MustValue: %v; Has: %v", c.P, enc(v), ok, enc(mv), p.Has(c.P))
	}
	r := Res{"n": p.Count(), "m": m, "v": enc(v), "f": ok}
	if bad != "" {
		r["m"] = bad
	}
	if c.B {
		l := &loaded{ok: true}
		l.prov = make_()
		if _, err := h.st.Load(context.Background(), store.WithProvider(l.prov)); err != nil {
			r["m"] = "Load: " + err.Error()
		}
		u.ldrs, u.srcs = append(u.ldrs, l), append(u.srcs, l.prov)
	}
	if s := check(); s != "" {
		r["m"] = s
	}
	return r
}

func sorted(a []string) []string {
	b := append([]string{}, a...)
	sort.Strings(b)
	return b
}
