package storecheck

import (
	"context"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"github.com/hedzr/store"
	"github.com/hedzr/store/providers/maps"
	"github.com/hedzr/store/radix"
)

// api is what stores and tries have in common.
type api interface {
	Get(path string) (data any, found bool)
	MustGet(path string) (data any)
	Set(path string, data any) (node radix.Node[any], oldData any)
	Remove(path string) (removed bool)
	RemoveEx(path string) (nodeRemoved, nodeParent radix.Node[any], removed bool)
	Merge(pathAt string, data map[string]any) (err error)
	Has(path string) (found bool)
	HasPart(path string) (found bool)
	Search(path string) (found bool)
	Query(path string, pair radix.KVPair) (data any, branch, found bool, err error)
	Insert(path string, data any) (oldData any)
	SetNode(path string, data any, tag any, descriptionAndComments ...string) (ret radix.Node[any], oldData any)
	SetEmpty(path string) (oldData any)
	SetEx(path string, data any, cb radix.OnSetEx[any]) (oldData any)
	Update(path string, cb func(node radix.Node[any], old any))
	GetEx(path string, cb func(node radix.Node[any], data any, branch bool, kvpair radix.KVPair))
	SetTTL(path string, ttl time.Duration, cb radix.OnTTLRinging[any]) (state int)
	SetTTLFast(node radix.Node[any], ttl time.Duration, cb radix.OnTTLRinging[any]) (state int)
	GetDesc(path string) (desc string, err error)
	MustGetDesc(path string) (desc string)
	GetTag(path string) (tag any, err error)
	MustGetTag(path string) (tag any)
	GetComment(path string) (comment string, err error)
	MustGetComment(path string) (comment string)
	SetComment(path, description, comment string) (ok bool)
	SetTag(path string, tags any) (ok bool)
	Walk(path string, cb func(path, fragment string, node radix.Node[any]))
	GetM(path string, opts ...radix.MOpt[any]) (ret map[string]any, err error)
	MustM(path string, opts ...radix.MOpt[any]) (ret map[string]any)
	GetR(path string, defaultVal ...map[string]any) (ret map[string]any, err error)
	MustR(path string, defaultVal ...map[string]any) (ret map[string]any)
	GetSectionFrom(path string, holder any, opts ...radix.MOpt[any]) (err error)
	To(path string, holder any, opts ...radix.MOpt[any]) (err error)
	SetPrefix(newPrefix ...string)
	Prefix() string
	Delimiter() rune
	SetDelimiter(delimiter rune)
	RecursiveMode() radix.RecusiveMode
}

type handle struct {
	api
	st store.Store
	tr radix.Trie[any]
}

func storeHandle(s store.Store) *handle {
	a, ok := s.(api)
	if !ok {
		panic(infra("the store does not offer the trie methods"))
	}
	return &handle{api: a, st: s}
}

func trieHandle(t radix.Trie[any]) *handle { return &handle{api: t, tr: t} }

func (h *handle) locate(path string) (node radix.Node[any], branch, found bool) {
	if h.st != nil {
		node, branch, _, found = h.st.Locate(path, nil)
		return
	}
	node, branch, _, found = h.tr.Locate(path, nil)
	return
}

func (h *handle) root() *handle {
	if h.st != nil {
		return storeHandle(h.st.N().WithPrefixReplaced(""))
	}
	return trieHandle(h.tr.N().WithPrefixReplaced(""))
}

type infra string // a failure of the harness, not of the code under test

// universe is the state of a history: everything made so far.
type universe struct {
	hs   []*handle
	nh   []radix.Node[any]
	ldrs []*loaded
	srcs []store.Provider
	njob int
	dir  string // holds the files

	mu   sync.Mutex
	ev   []any // change events of the current call
	ev2  []any // ... as seen by the second set of handlers
	ring []any // TTL callbacks

	wait func() // waits for the background to settle
}

type loaded struct {
	ok     bool
	wr     store.Writeable
	ldr    *store.Loader
	codec  store.Codec
	prov   store.Provider
	prefix string
	cd     string
}

func (u *universe) on(second bool, e ...any) {
	u.mu.Lock()
	defer u.mu.Unlock()
	if second {
		u.ev2 = append(u.ev2, []any(e))
	} else {
		u.ev = append(u.ev, []any(e))
	}
}

func (u *universe) handlers(second bool) []store.Opt {
	return []store.Opt{
		store.WithOnNewHandlers(func(path string, value any, ml bool) {
			u.on(second, "new", path, enc(value), "nil", ml)
		}),
		store.WithOnChangeHandlers(func(path string, value, oldValue any, ml bool) {
			u.on(second, "chg", path, enc(value), enc(oldValue), ml)
		}),
		store.WithOnDeleteHandlers(func(path string, value any, ml bool) {
			u.on(second, "del", path, enc(value), "", ml)
		}),
	}
}

func (u *universe) events() any {
	u.mu.Lock()
	defer u.mu.Unlock()
	ev, ev2 := bag(u.ev), bag(u.ev2)
	if !reflect.DeepEqual(ev, ev2) {
		return append(ev, []any{"the second handlers got", ev2})
	}
	return ev
}

func bag(a []any) []any {
	b := append([]any{}, a...)
	sort.SliceStable(b, func(i, j int) bool { return js(b[i]) < js(b[j]) })
	return b
}

func act(n radix.Node[any], a string) {
	switch a {
	case "data":
		n.SetData("cb")
	case "comment":
		n.SetComment("dcb", "ccb")
	case "tag":
		n.SetTag("tcb")
	case "empty":
		n.SetEmpty()
	case "mod":
		n.SetModified(true)
	}
}

func modeOf(m radix.RecusiveMode) string {
	switch m {
	case radix.RecusiveUp:
		return "u"
	case radix.RecusiveDown:
		return "d"
	}
	return "n"
}

func (u *universe) info(h *handle) Res {
	return Res{"p": h.Prefix(), "dl": string(h.Delimiter()), "md": modeOf(h.RecursiveMode())}
}

func firstRune(s string) rune { r, _ := utf8.DecodeRuneInString(s); return r }

// exec runs one call. A panic of the code under test is an answer, too.
func (u *universe) exec(c *Call) (r Res) {
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(infra); ok {
				panic(f)
			}
			r = Res{"panic": fmt.Sprint(e)}
		}
	}()
	u.ev, u.ev2 = nil, nil
	if c.Ld && c.Op != "nest" && c.Op != "load" {
		h := u.hs[c.H-1]
		ran := false
		h.st.WithinLoading(func() { ran = true; r = u.exec1(c) })
		if !ran {
			return Res{"panic": "WithinLoading did not run its function"}
		}
		return r
	}
	return u.exec1(c)
}

func (u *universe) keepNode(c *Call, n radix.Node[any]) {
	if c.Keep {
		u.nh = append(u.nh, n)
	}
}

func (u *universe) exec1(c *Call) Res {
	var h *handle
	if c.H > 0 {
		h = u.hs[c.H-1]
	}
	switch c.Op {
	case "new":
		if c.Kind == "trie" {
			h = trieHandle(radix.NewTrieBy[any](firstRune(c.Dl)))
			if c.P != "" {
				h.SetPrefix(c.P)
			}
		} else {
			opts := append(u.handlers(false), u.handlers(true)...)
			if c.Dl != "." {
				opts = append(opts, store.WithDelimiter(firstRune(c.Dl)))
			}
			if c.P != "" {
				opts = append(opts, store.WithPrefix(c.P))
			}
			if c.Flat {
				opts = append(opts, store.WithFlattenSlice(true))
			}
			if c.Watch {
				opts = append(opts, store.WithWatchEnable(true))
			}
			h = storeHandle(store.New(opts...))
		}
		u.hs = append(u.hs, h)
		return Res{"ok": true}
	case "withprefix", "withprefixr", "mode", "clone":
		u.hs = append(u.hs, derive(h, c))
		return u.info(u.hs[len(u.hs)-1])
	case "setprefix":
		h.SetPrefix(c.Ps...)
		return Res{"p": h.Prefix()}
	case "setdelim":
		h.SetDelimiter(firstRune(c.Dl))
		return Res{"dl": string(h.Delimiter())}
	case "viewinfo":
		return u.info(h)

	case "set":
		n, old := h.Set(c.P, dec(c.V))
		u.keepNode(c, n)
		return Res{"old": enc(old), "ev": u.events()}
	case "insert":
		old := h.Insert(c.P, dec(c.V))
		if c.Keep {
			n, _, _ := h.locate(c.P)
			u.keepNode(c, n)
		}
		return Res{"old": enc(old), "ev": u.events()}
	case "setempty":
		old := h.SetEmpty(c.P)
		return Res{"old": enc(old), "ev": u.events()}
	case "setnode":
		n, old := h.SetNode(c.P, dec(c.V), dec(c.T), []string{c.D, c.C, "3rd"}[:c.Nd]...)
		u.keepNode(c, n)
		return Res{"old": enc(old), "ev": u.events()}
	case "setex":
		cb := []any{}
		old := h.SetEx(c.P, dec(c.V), func(path string, oldData any, node radix.Node[any], trie radix.Trie[any]) {
			cb = append(cb, []any{path, enc(oldData), node.Key(), enc(node.Data())})
			act(node, c.Act)
			if len(cb) == 1 {
				u.keepNode(c, node)
			}
		})
		return Res{"old": enc(old), "ev": u.events(), "cb": cb}
	case "update":
		cb := []any{}
		h.Update(c.P, func(node radix.Node[any], old any) {
			cb = append(cb, []any{node.Key(), enc(old), enc(node.Data()), node.Description(), enc(node.Tag())})
			act(node, c.Act)
			if len(cb) == 1 {
				u.keepNode(c, node)
			}
		})
		return Res{"ev": u.events(), "cb": cb}
	case "setcomment":
		return Res{"ok": h.SetComment(c.P, c.D, c.C)}
	case "settag":
		return Res{"ok": h.SetTag(c.P, dec(c.T))}
	case "remove":
		var ok bool
		if c.Must {
			_, _, ok = h.RemoveEx(c.P)
		} else {
			ok = h.Remove(c.P)
		}
		return Res{"ok": ok, "ev": u.events()}
	case "merge":
		if err := h.Merge(c.P, nested(c)); err != nil {
			return Res{"panic": "Merge: " + err.Error()}
		}
		return Res{"ev": u.events()}
	case "mutate":
		if v, ok := h.Get(c.P); ok {
			mutate(v)
		}
		return Res{"ok": true}

	case "get":
		v, f := h.Get(c.P)
		if mv := h.MustGet(c.P); enc(mv) != enc(v) {
			return Res{"f": f, "v": enc(v) + " but MustGet: " + enc(mv)}
		}
		return Res{"f": f, "v": enc(v)}
	case "has":
		f := h.Has(c.P)
		if g := h.Search(c.P); g != f {
			return Res{"f": fmt.Sprintf("Has=%v Search=%v", f, g)}
		}
		return Res{"f": f}
	case "query":
		v, b, f, err := h.Query(c.P, nil)
		return Res{"f": f, "v": enc(v), "b": f && b, "e": err != nil && store.ErrorIsNotFound(err)}
	case "locate":
		n, b, f := h.locate(c.P)
		r := Res{"f": f, "b": f && b, "key": "", "v": "nil"}
		if f && n.HasData() {
			r["key"], r["v"] = n.Key(), enc(n.Data())
		}
		return r
	case "getex":
		cb := []any{}
		h.GetEx(c.P, func(node radix.Node[any], data any, branch bool, kvpair radix.KVPair) {
			key := ""
			if !branch {
				key = node.Key()
			}
			cb = append(cb, []any{key, enc(data), branch})
			if !branch {
				act(node, c.Act)
				if len(cb) == 1 {
					u.keepNode(c, node)
				}
			}
		})
		return Res{"cb": cb}
	case "haspart":
		return Res{"f": h.HasPart(c.P)}
	case "metaof":
		d, e1 := h.GetDesc(c.P)
		cm, e2 := h.GetComment(c.P)
		t, e3 := h.GetTag(c.P)
		r := Res{"f": e1 == nil, "d": d, "c": cm, "t": enc(t)}
		if (e1 == nil) != (e2 == nil) || (e1 == nil) != (e3 == nil) {
			r["f"] = fmt.Sprintf("GetDesc: %v GetComment: %v GetTag: %v", e1, e2, e3)
		}
		if h.MustGetDesc(c.P) != d || h.MustGetComment(c.P) != cm || enc(h.MustGetTag(c.P)) != enc(t) {
			r["d"] = "the Must variants differ"
		}
		return r
	case "modof":
		n, b, f := h.locate(c.P)
		return Res{"f": f && !b, "m": f && !b && n.Modified()}
	case "getr":
		m, err := h.GetR(c.P)
		if err != nil {
			return Res{"panic": "GetR: " + err.Error()}
		}
		if !reflect.DeepEqual(m, h.MustR(c.P)) {
			return Res{"nil": "MustR differs"}
		}
		if m == nil {
			def := map[string]any{"the": "default"}
			if d, _ := h.GetR(c.P, def); !reflect.DeepEqual(d, def) {
				return Res{"nil": "default not returned"}
			}
		}
		a := []any{}
		for k, v := range m {
			a = append(a, []any{k, enc(v)})
		}
		return Res{"nil": m == nil, "m": a}
	case "getm":
		opts := mopts(c)
		m, err := h.GetM(c.P, opts...)
		if err != nil {
			return Res{"panic": "GetM: " + err.Error()}
		}
		if !reflect.DeepEqual(m, h.MustM(c.P, opts...)) {
			return Res{"nil": "MustM differs"}
		}
		return Res{"nil": m == nil, "m": flatten(m)}
	case "walk":
		a := []any{}
		h.Walk(c.P, func(path, fragment string, node radix.Node[any]) {
			if node.HasData() {
				if path != node.Key() {
					a = append(a, []any{"path " + path, "key " + node.Key()})
				}
				a = append(a, []any{path, enc(node.Data())})
			}
		})
		return Res{"m": a}
	case "content":
		return Res{"m": content(h, c.What)}

	case "nread":
		n := u.nh[c.N-1]
		return Res{"key": n.Key(), "v": enc(n.Data()), "d": n.Description(), "c": n.Comment(), "t": enc(n.Tag()), "m": n.Modified()}
	case "ndata":
		u.nh[c.N-1].SetData(dec(c.V))
		return Res{"ok": true}
	case "ncomment":
		u.nh[c.N-1].SetComment(c.D, c.C)
		return Res{"ok": true}
	case "ntag":
		u.nh[c.N-1].SetTag(dec(c.T))
		return Res{"ok": true}
	case "nempty":
		u.nh[c.N-1].SetEmpty()
		return Res{"ok": true}
	case "nmod":
		u.nh[c.N-1].SetModified(c.B)
		return Res{"ok": true}
	case "ntoggle":
		u.nh[c.N-1].ToggleModified()
		return Res{"ok": true}
	case "nreset":
		if n, ok := u.nh[c.N-1].(interface{ ResetModified() }); ok {
			n.ResetModified()
		} else {
			u.nh[c.N-1].SetModified(false)
		}
		return Res{"ok": true}
	case "handle":
		var n radix.Node[any]
		switch c.Via {
		case "walk":
			full := c.P
			if pre := h.Prefix(); pre != "" {
				full = pre + string(h.Delimiter()) + c.P
			}
			full = strings.ReplaceAll(full, " ", "-")
			h.root().Walk("", func(path, fragment string, node radix.Node[any]) {
				if path == full && node.HasData() {
					n = node
				}
			})
		default:
			nd, b, f := h.locate(c.P)
			if f && !b {
				n = nd
			}
		}
		if n != nil {
			u.nh = append(u.nh, n)
		}
		return Res{"f": n != nil}

	case "ttl":
		id := u.njob + 1
		st := h.SetTTL(c.P, time.Duration(c.Ms)*time.Millisecond+time.Duration(id)*time.Microsecond, u.ringer(h, c, id))
		if st == 0 {
			u.njob = id
		}
		u.settle()
		return Res{"ok": st == 0}
	case "ttlfast":
		id := u.njob + 1
		d, st := time.Duration(c.Ms)*time.Millisecond+time.Duration(id)*time.Microsecond, 0
		if h.tr != nil && id%2 == 0 {
			u.nh[c.N-1].SetTTL(d, h.tr, u.ringer(h, c, id))
		} else {
			st = h.SetTTLFast(u.nh[c.N-1], d, u.ringer(h, c, id))
		}
		if st == 0 {
			u.njob = id
		}
		u.settle()
		return Res{"ok": st == 0}
	case "advance":
		u.ring = nil
		time.Sleep(time.Duration(c.Ms) * time.Millisecond)
		u.settle()
		u.mu.Lock()
		defer u.mu.Unlock()
		return Res{"cb": append([]any{}, u.ring...)}
	case "close":
		if h.st != nil {
			h.st.Close()
		} else if cl, ok := h.tr.(interface{ Close() }); ok {
			cl.Close()
		}
		u.settle()
		return Res{"ok": true}

	case "load":
		return u.load(h, c)
	case "nest":
		ran := false
		h.st.WithinLoading(func() {
			h.Set(c.P, dec(c.V))
			switch c.Fail {
			case "load":
				wr, err := h.st.Load(context.Background(), store.WithProvider(&mapSource{m: map[string]store.ValPkg{"nested-key": {Value: "x"}}}))
				ran = wr != nil || err != nil
			case "view":
				h.st.WithPrefix("x").WithinLoading(func() { ran = true })
			default:
				h.st.WithinLoading(func() { ran = true })
			}
			h.Set(c.P2, dec(c.V))
		})
		return Res{"ran": ran, "ev": u.events()}
	case "save":
		return u.save(c)
	case "roundtrip":
		return u.roundtrip(c)
	case "announce":
		return u.announce(c)
	case "sources":
		a := []any{}
		for _, s := range u.srcs {
			x := s.(stater).state()
			a = append(a, []any{x.watching > 0, x.closed})
		}
		return Res{"src": a}
	}
	if r, ok := u.execMore(h, c); ok {
		return r
	}
	if r, ok := u.execFiles(h, c); ok {
		return r
	}
	panic(infra("unknown op " + c.Op))
}

func derive(h *handle, c *Call) *handle {
	if h.st != nil {
		switch c.Op {
		case "withprefix":
			return storeHandle(h.st.WithPrefix(c.Ps...))
		case "withprefixr":
			return storeHandle(h.st.WithPrefixReplaced(c.Ps...))
		case "clone":
			if c.Must {
				return storeHandle(h.st.Clone())
			}
			return storeHandle(h.st.Dup())
		}
		switch c.Md {
		case "u":
			return storeHandle(h.st.BR())
		case "d":
			return storeHandle(h.st.R())
		}
		return storeHandle(h.st.N())
	}
	switch c.Op {
	case "withprefix":
		return trieHandle(h.tr.WithPrefix(c.Ps...))
	case "withprefixr":
		return trieHandle(h.tr.WithPrefixReplaced(c.Ps...))
	case "clone":
		return trieHandle(h.tr.Dup())
	}
	switch c.Md {
	case "u":
		return trieHandle(h.tr.BR())
	case "d":
		return trieHandle(h.tr.R())
	}
	return trieHandle(h.tr.N())
}

func (u *universe) settle() {
	if u.wait != nil {
		u.wait()
	}
}

// ringer makes a TTL callback. It records the job, the key and, if the
// node is still the one in the store, its value.
func (u *universe) ringer(h *handle, c *Call, id int) radix.OnTTLRinging[any] {
	if c.W {
		return nil
	}
	root := h.root()
	section := false // what a section is told of a value it got later, nothing says
	if c.Op == "ttl" {
		_, section, _ = h.locate(c.P)
	}
	return func(s *radix.TTL[any], nd radix.Node[any]) {
		v := "-"
		if n, b, f := root.locate(nd.Key()); f && !b && n == nd && !section {
			v = enc(nd.Data())
		}
		u.mu.Lock()
		defer u.mu.Unlock()
		u.ring = append(u.ring, []any{id, nd.Key(), v})
	}
}

// nested makes a nested map of its leaves.
func nested(c *Call) map[string]any {
	m := map[string]any{}
	for _, l := range c.Lv {
		x := m
		for _, s := range l.S[:len(l.S)-1] {
			y, ok := x[s].(map[string]any)
			if !ok {
				y = map[string]any{}
				x[s] = y
			}
			x = y
		}
		var v any = dec(l.V)
		if l.D != "" || l.C != "" || l.T != "" && l.T != "nil" {
			v = pkg(l)
		}
		x[l.S[len(l.S)-1]] = v
	}
	if c.Via == "any" { // inner maps are keyed by any
		for k, v := range m {
			if x, ok := v.(map[string]any); ok {
				m[k] = anyMap(x)
			}
		}
	}
	return m
}

// mapFor is the map a map provider is made of.
func mapFor(c *Call) map[string]any {
	if c.Via == "slash" || c.Via == "slashopt" {
		return nestedBy(c, "/")
	}
	return nested(c)
}

// nestedBy joins the names of every other leaf with d, and the first two names of the rest.
func nestedBy(c *Call, d string) map[string]any {
	x := *c
	x.Lv = append(x.Lv[:0:0], c.Lv...)
	for i := range x.Lv {
		n := len(x.Lv[i].S)
		if i%2 == 1 && n > 2 {
			n = 2
		}
		S := x.Lv[i].S
		x.Lv[i].S = append([]string{strings.Join(S[:n], d)}, S[n:]...)
	}
	return nested(&x)
}

func anyMap(m map[string]any) map[any]any {
	r := map[any]any{}
	for k, v := range m {
		if x, ok := v.(map[string]any); ok {
			v = anyMap(x)
		}
		r[anyKey(k)] = v
	}
	return r
}

// anyKey gives a key that looks like something else that type.
func anyKey(k string) any {
	switch n, err := strconv.Atoi(k); {
	case k == "true" || k == "false":
		return k == "true"
	case err != nil || strconv.Itoa(n) != k:
		return k
	case n%3 == 1 && n < 256:
		return uint8(n)
	case n%3 == 2:
		return uint32(n)
	case n%5 == 0:
		return int64(n)
	default:
		return n
	}
}

func pkg(l Leaf) store.ValPkg {
	p := store.ValPkg{Value: dec(l.V), Desc: l.D, Comment: l.C}
	if l.T != "" {
		p.Tag = dec(l.T)
	}
	return p
}

// flatten lists the leaves of a nested map: [[segments...], value].
func flatten(m map[string]any) []any {
	a := []any{}
	var rec func(m map[string]any, pre []any)
	rec = func(m map[string]any, pre []any) {
		for k, v := range m {
			path := append(append([]any{}, pre...), k)
			if sub, ok := v.(map[string]any); ok {
				rec(sub, path)
				if len(sub) == 0 {
					a = append(a, []any{path, "empty map"})
				}
				continue
			}
			a = append(a, []any{path, enc(v)})
		}
	}
	rec(m, nil)
	return a
}

func content(h *handle, what string) []any {
	a := []any{}
	h.root().Walk("", func(path, fragment string, n radix.Node[any]) {
		if !n.HasData() {
			return
		}
		switch what {
		case "kv":
			a = append(a, []any{n.Key(), enc(n.Data())})
		case "meta":
			a = append(a, []any{n.Key(), n.Description(), n.Comment(), enc(n.Tag())})
		case "mods":
			a = append(a, []any{n.Key(), n.Modified()})
		default:
			a = append(a, []any{n.Key(), enc(n.Data()), n.Description(), n.Comment(), enc(n.Tag()), n.Modified()})
		}
	})
	return a
}

func (u *universe) load(h *handle, c *Call) Res {
	l := &loaded{prefix: c.Sp, cd: c.Cd}
	if c.Sp == "" {
		l.prefix = h.Prefix()
	}
	var opts []store.LoadOpt
	var onRead func()
	var theMap map[string]any // given to the map provider: it must not change
	if c.Fail == "nested" {
		onRead = func() {
			wr, err := h.st.Load(context.Background(), store.WithProvider(&mapSource{m: map[string]store.ValPkg{"nested-key": {Value: "x"}}}))
			if wr != nil || err != nil {
				u.on(false, "nested load returned something")
			}
		}
	}
	kind, _ := c.Src.(string)
	switch kind {
	case "map", "writer":
		src := mapSource{m: map[string]store.ValPkg{}, onRead: onRead}
		for _, x := range c.Lv {
			if len(x.S) == 1 {
				src.m[x.S[0]] = pkg(x)
			}
		}
		for k, v := range nested(c) {
			if _, ok := src.m[k]; !ok {
				src.m[k] = store.ValPkg{Value: v}
			}
		}
		src.failRead = strings.HasPrefix(c.Fail, "read")
		src.partial = strings.HasSuffix(c.Fail, "+")
		if c.Cd != "" {
			l.codec = &recCodec{}
		}
		switch {
		case kind == "writer":
			l.prov = &writerSource{mapSource: src}
		case c.W:
			l.prov = &watchMap{src}
		default:
			l.prov = &src
		}
	case "once":
		src := onceSource{onRead: onRead, failBytes: strings.HasPrefix(c.Fail, "bytes")}
		if c.Cd == "" || c.Cd == "rec" {
			rc := &recCodec{}
			src.data, _ = rc.Marshal(nested(c))
			rc.failDec, rc.partial = strings.HasPrefix(c.Fail, "codec"), strings.HasSuffix(c.Fail, "+")
			l.codec = rc
		} else {
			fc := &failing{Codec: realCodec(c.Cd)}
			var err error
			if src.data, err = fc.Marshal(nested(c)); err != nil {
				return Res{"panic": "marshal the source: " + err.Error()}
			}
			fc.failDec = strings.HasPrefix(c.Fail, "codec")
			l.codec = fc
		}
		src.failRead = strings.HasPrefix(c.Fail, "read")
		src.partial = strings.HasSuffix(c.Fail, "+")
		if c.W {
			l.prov = &watchOnce{src}
		} else {
			l.prov = &src
		}
	case "stream":
		src := streamSource{m: map[string]any{}}
		for k, v := range nested(c) {
			src.keys = append(src.keys, k)
			src.m[k] = v
		}
		src.failRead = strings.HasPrefix(c.Fail, "read")
		src.partial = strings.HasSuffix(c.Fail, "+")
		if c.W {
			l.prov = &watchStream{src}
		} else {
			l.prov = &src
		}
	case "bare":
		l.prov = &bareSource{}
	case "maps":
		theMap = mapFor(c)
		switch c.Via { // the keys of the map have a delimiter of their own, or none
		case "slash":
			l.prov = &mapsSource{Provider: maps.New(theMap, "/")}
		case "slashopt":
			l.prov = &mapsSource{Provider: maps.New(theMap, "", maps.WithDelimiter("/"))}
		case "nodl":
			l.prov = &mapsSource{Provider: maps.New(theMap, "")}
		default:
			l.prov = &mapsSource{Provider: maps.New(theMap, string(h.Delimiter()))}
		}
	}
	if l.codec != nil {
		if c.Via == "pcodec" { // the source knows its codec
			l.prov.WithCodec(l.codec)
		} else {
			opts = append(opts, store.WithCodec(l.codec))
		}
	}
	if c.Fail == "noprov" {
		u.srcs = append(u.srcs, &mapSource{})
	} else {
		opts = append(opts, store.WithProvider(l.prov))
		u.srcs = append(u.srcs, l.prov)
	}
	if c.Sp != "" {
		opts = append(opts, store.WithStorePrefix(c.Sp))
	}
	if c.Fl != "" {
		opts = append(opts, store.WithStoreFlattenSlice(c.Fl == "on"))
	}
	if c.Nw {
		opts = append(opts, store.WithoutWatch(true))
	}
	opts = append(opts, store.WithLoaderCopy(&l.ldr))
	wr, err := h.st.Load(context.Background(), opts...)
	l.wr, l.ok = wr, wr != nil
	u.ldrs = append(u.ldrs, l)
	if theMap != nil && !reflect.DeepEqual(theMap, mapFor(c)) {
		return Res{"panic": fmt.Sprintf("the map given to the provider changed to %v", theMap)}
	}
	return Res{"err": err != nil, "wr": wr != nil, "ev": u.events()}
}

// mapsSource is the provider of package maps.
type mapsSource struct {
	store.Provider
	source
}

func (s *mapsSource) GetCodec() store.Codec   { return s.Provider.GetCodec() }
func (s *mapsSource) GetPosition() string     { return s.Provider.GetPosition() }
func (s *mapsSource) WithCodec(c store.Codec) { s.Provider.WithCodec(c) }
func (s *mapsSource) WithPosition(p string)   { s.Provider.WithPosition(p) }

// sinkOf returns where the documents for a source end up.
func sinkOf(p store.Provider) *sink {
	if x, ok := p.(interface{ theSink() *sink }); ok {
		return x.theSink()
	}
	return &sink{}
}

func (u *universe) save(c *Call) Res {
	l := u.ldrs[c.L-1]
	var err error
	var out *sink
	var rc *recCodec
	if c.As {
		var prov store.Provider = &onceSource{}
		switch c.Via {
		case "writer":
			prov = &writerSource{}
		case "map":
			prov = &mapSource{}
		}
		out, rc = sinkOf(prov), &recCodec{}
		out.failWrite, rc.failEnc = c.Fail == "write", c.Fail == "enc"
		opts := []store.SaveAsOpt{store.WithSaveAsProvider(prov)}
		if c.B { // the source knows its codec
			prov.WithCodec(rc)
		} else {
			opts = append(opts, store.WithSaveAsCodec(rc))
		}
		err = l.wr.(*store.Loader).SaveAs(context.Background(), "", opts...)
	} else {
		out, rc = sinkOf(l.prov), l.codec.(*recCodec)
		out.failWrite, rc.failEnc = c.Fail == "write", c.Fail == "enc"
		out.written = nil
		err = l.wr.Save(context.Background())
		out.failWrite, rc.failEnc = false, false
	}
	m := []any{}
	if len(out.written) == 1 {
		doc, err := rc.Unmarshal(out.written[0])
		if err != nil {
			return Res{"panic": "written: " + err.Error()}
		}
		m = flatten(doc)
	}
	return Res{"err": err != nil, "n": len(out.written), "m": m}
}

// roundtrip saves through a real codec and loads it into an empty store.
func (u *universe) roundtrip(c *Call) Res {
	l := u.ldrs[c.L-1]
	var err error
	var out *sink
	codec := l.codec
	if c.As {
		prov := &onceSource{}
		out, codec = sinkOf(prov), realCodec(c.Cd)
		err = l.wr.(*store.Loader).SaveAs(context.Background(), "", store.WithSaveAsCodec(codec), store.WithSaveAsProvider(prov))
	} else {
		out = sinkOf(l.prov)
		out.written = nil
		err = l.wr.Save(context.Background())
	}
	if err != nil {
		return Res{"err": true, "m": []any{}, "text": err.Error()}
	}
	if len(out.written) == 0 {
		return Res{"err": false, "m": []any{}}
	}
	prefix := l.wr.(*store.Loader).Prefix()
	s := store.New(store.WithDelimiter(l.wr.(*store.Loader).Delimiter()))
	opts := []store.LoadOpt{store.WithCodec(codec), store.WithProvider(&onceSource{data: out.written[0]})}
	if prefix != "" {
		opts = append(opts, store.WithStorePrefix(prefix))
	}
	if _, err = s.Load(context.Background(), opts...); err != nil {
		return Res{"err": true, "m": []any{}, "text": err.Error() + " in " + string(out.written[0])}
	}
	return Res{"err": false, "m": content(storeHandle(s), "kv")}
}

func (u *universe) announce(c *Call) Res {
	n, _ := c.Src.(float64)
	s := u.srcs[int(n)-1]
	if x := s.(stater).state(); x.notify != nil {
		switch c.Ev {
		case "error":
			x.notify(&change{op: store.OpWrite, es: c.Es, pv: s}, errInjected)
		case "other":
			x.notify("something else", nil)
		default:
			x.notify(&change{op: opOf(c.Ev), es: c.Es, pv: s}, nil)
		}
	}
	return Res{"ev": u.events()}
}
