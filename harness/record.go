package storecheck

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"time"
)

// A driver makes long random executions of the real code. What it asks
// and what the code answers is recorded, to be validated against the
// specification (spec/Trace.tla). It stays inside the domain in which the
// specification gives calls a meaning, and knows nothing else of it.
type driver struct {
	*rand.Rand
	prop  string
	d     string // delimiter
	gen   func() string
	views []dview
	trees []dtree
	nh    []int // tree of each node handle
	n     int
	size  int // about how many keys there are to be
	ttl   bool
	deep  int // one in so many keys is deep
}

type dview struct {
	tree         int
	prefix, mode string
	loaded       bool
}

type dtree struct {
	store, flat bool
	keys        []string // that were written at some time
}

func (g *driver) pick(s ...string) string { return s[g.Intn(len(s))] }

// segments which share characters in many ways
func (g *driver) style() func() string {
	letters := func(al []string, n int) func() string {
		return func() string {
			s := ""
			for i := 1 + g.Intn(n); i > 0; i-- {
				s += g.pick(al...)
			}
			return s
		}
	}
	words := []string{"s", "srv", "server", "servers", "serve", "service", "services", "app", "apple", "application", "host", "hosts", "hostname", "port", "ports",
		"log", "logger", "logging", "level", "name", "names", "nam", "x", "y", "0", "1", "2", "10", "11", "100", "é", "été", "日", "日本", "日本語", "本", "a-b", "a_b", "A", "App"}
	switch g.Intn(9) {
	case 5: // many names on a level
		var al []string
		for r := '!'; r < '~'; r++ {
			if !strings.ContainsRune(".:*/|_#-", r) {
				al = append(al, string(r), string(r+0x100), string(r+0x4e00))
			}
		}
		return letters(al, 2)
	case 6: // long names
		return func() string {
			return strings.Repeat(g.pick("x", "xy", "é"), 10+g.Intn(3)*g.Intn(30)) + g.pick("", "x", "y", "z")
		}
	case 7: // blanks are kept as dashes
		if strings.Contains("C01 C02 C03 C04 C05 C06 C07 C08 C12 C14 C18 C19", g.prop) {
			return letters([]string{"a", "b", " ", "-", "my key"}, 3)
		}
		return letters([]string{"-", "_", "1", "-1", "true"}, 2)
	case 0:
		return letters([]string{"a", "b"}, 4)
	case 1:
		return letters([]string{"a", "é", "è", "日", "早", "𐃩"}, 2)
	case 2:
		return letters(strings.Split("abcdefghijklmnopqrstuvwxyz", ""), 2)
	case 3:
		return func() string { return g.pick("", "", "s", "x", "-") + fmt.Sprint(g.Intn(120)) }
	default:
		return func() string { return g.pick(words...) }
	}
}

func (g *driver) fresh() string {
	n := 1 + g.Intn(4)
	if g.Intn(g.deep) == 0 {
		n += g.Intn(8)
	}
	s := make([]string, n)
	for i := range s {
		s[i] = g.gen()
	}
	return strings.Join(s, g.d)
}

// an absolute key, mostly one that was written before or a neighbour
func (g *driver) key(t *dtree) string {
	if len(t.keys) == 0 || g.Intn(10) < 3 {
		return g.fresh()
	}
	k := t.keys[g.Intn(len(t.keys))]
	switch g.Intn(8) {
	case 0:
		return k + g.d + g.gen()
	case 1:
		return k + g.gen()
	case 2: // an enclosing section
		s := strings.Split(k, g.d)
		return strings.Join(s[:1+g.Intn(len(s))], g.d)
	case 3: // a neighbour
		s := strings.Split(k, g.d)
		s[g.Intn(len(s))] = g.gen()
		return strings.Join(s, g.d)
	}
	return k
}

// an absolute path to ask for
func (g *driver) path(t *dtree, slash bool) string {
	k := g.key(t)
	r := []rune(k)
	switch g.Intn(8) {
	case 0:
		k = string(r[:1+g.Intn(len(r))])
	case 1:
		s := strings.Split(k, g.d)
		k = strings.Join(s[:1+g.Intn(len(s))], g.d)
	case 2:
		if slash {
			s := strings.Split(k, g.d)
			return strings.Join(s[:1+g.Intn(len(s))], g.d) + g.d
		}
	}
	if !slash {
		k = strings.TrimSuffix(k, g.d)
	}
	return k
}

// rel is the path by which a view knows an absolute one
func (g *driver) rel(v *dview, p string) string {
	if v.prefix == "" {
		return p
	}
	if q, ok := strings.CutPrefix(p, v.prefix+g.d); ok && q != "" && !strings.HasPrefix(q, g.d) {
		return q
	}
	return g.gen()
}

func (g *driver) wrote(v *dview, p string) {
	t := &g.trees[v.tree]
	k := p
	if v.prefix != "" {
		k = v.prefix + g.d + p
	}
	for _, x := range t.keys {
		if x == k {
			return
		}
	}
	t.keys = append(t.keys, k)
	if len(t.keys) > g.size { // what was removed is as good as anything else
		i := g.Intn(len(t.keys))
		t.keys[i] = t.keys[len(t.keys)-1]
		t.keys = t.keys[:len(t.keys)-1]
	}
}

func (g *driver) val() string {
	if g.Intn(6) == 0 {
		return g.pick("nil", "s:", "i:0", "b:false", "f:1.5", "ls:a,b", "mi:k=1", "la:x,y", "st:x", "ms:a,b", "li:1,2", "l2:a,b", "m2:x")
	}
	return g.pick("i:", "s:v") + fmt.Sprint(g.n)
}

func (g *driver) doc(any bool) []Leaf {
	var ls []Leaf
	n := 1 + g.Intn(5)
	if g.Intn(12) == 0 {
		n = 40
	}
	for i := 0; i < n; i++ {
		s := strings.Split(g.fresh(), g.d)
		ok := true
		for _, l := range ls { // a leaf is not a section, too
			a, b := strings.ReplaceAll(strings.Join(l.S, g.d)+g.d, " ", "-"), strings.ReplaceAll(strings.Join(s, g.d)+g.d, " ", "-")
			if strings.HasPrefix(a, b) || strings.HasPrefix(b, a) {
				ok = false
			}
		}
		if ok {
			v := g.val()
			if g.Intn(5) == 0 {
				v = g.pick("la:x,y", "lm:p,q", "ls:a,b", "la:a,b,c,d,e,f,g,h,i,j,k,l,m", "lm:a,b,c,d,e,f,g,h,i,j,k,l")
				if any {
					v = g.pick("ly:p,q", "lw:p,q", v)
				}
			}
			ls = append(ls, Leaf{S: s, V: v, T: "nil"})
		}
	}
	return ls
}

// what a profile is about: weights of the kinds of calls
var mixes = map[string]string{
	"C01": "wwwwwwwiirgggv", "C02": "wwwwwrrggggggggv", "C03": "wwwwwwimrrrrggv", "C04": "wwwwwrxxxxv", "C05": "wwwirmgggxxlvvvvV", "C06": "wwwimrggvcclxxuuo",
	"C07": "wwwiimmmmmmrgcvlnnk", "C08": "wwwLLlllirnncvM", "C09": "wllllllrxvLM", "C11": "wwwiirrlllLvcM", "C12": "wwwirrtttttaaavnz", "C14": "wwwrrggggggggvOOO",
	"C10": "wwwwLLlllirSSSSv", "C13": "",
	"C15": "wwwirrggggxxlvVt", "C18": "wwiiiiiiiergggee", "C19": "wwwkkkiirrrnnnnnnml", "C20": "wwrlLLffffNN", "C17": "wwrllLLAAAAAAA",
}

func (g *driver) next() *Call {
	g.n++
	if g.prop == "C13" {
		return g.route()
	}
	h := g.Intn(len(g.views))
	v := &g.views[h]
	t := &g.trees[v.tree]
	c := &Call{H: h + 1}
	mix := mixes[g.prop]
	kind := mix[g.Intn(len(mix))]
	if kind == 't' && !g.ttl {
		kind = 'w'
	}
	if v.mode == "u" && !strings.ContainsRune("gwixOvl", rune(kind)) {
		kind = 'g'
	}
	if !t.store && strings.ContainsRune("LMfNA", rune(kind)) {
		kind = 'w'
	}
	key := func() string { return g.rel(v, g.key(t)) }
	path := func() string { return g.rel(v, g.path(t, v.mode != "u")) }
	switch kind {
	case 'w':
		c.Op, c.P, c.V = "set", key(), g.val()
	case 'L':
		c.Op, c.P, c.V, c.Ld = "set", key(), g.val(), true
	case 'k':
		c.Op, c.P, c.V, c.Keep = g.pick("set", "setex", "update", "setnode"), key(), g.val(), true
		if c.Op == "setnode" {
			c.T = "nil"
		}
		g.nh = append(g.nh, v.tree)
	case 'i':
		c.Op, c.P, c.V = g.pick("insert", "setex", "setex", "setnode", "setempty", "update"), key(), g.val()
		if c.Op == "setex" || c.Op == "update" {
			c.Act = g.pick("", "", "data", "comment", "tag", "empty")
		}
		if c.Op == "setnode" {
			c.T, c.Nd, c.D, c.C = g.pick("nil", "s:t"), g.Intn(4), fmt.Sprintf("D%d", g.n), fmt.Sprintf("C%d", g.n)
		}
	case 'm':
		c.Op, c.P = g.pick("setcomment", "settag"), key()
		c.D, c.C, c.T = g.pick("", fmt.Sprintf("d%d", g.n)), g.pick("", fmt.Sprintf("c%d", g.n)), g.pick("nil", fmt.Sprintf("i:%d", g.n))
	case 'r':
		c.Op, c.Must = "remove", g.Intn(3) == 0
		if g.Intn(3) == 0 {
			c.P = path()
		} else if len(t.keys) > 0 {
			c.P = g.rel(v, t.keys[g.Intn(len(t.keys))])
		} else {
			c.P = key()
		}
	case 'g':
		c.Op, c.P = g.pick("get", "has", "query", "locate", "getex", "haspart", "metaof"), path()
		if c.Op == "haspart" && v.mode == "u" {
			c.Op = "get"
		}
	case 'e':
		c.Op, c.P, c.Act = "getex", path(), g.pick("", "data", "comment", "tag", "empty")
	case 'x':
		c.Op, c.P = g.pick("getr", "getm", "getm", "walk"), path()
		if c.Op == "walk" { // without a delimiter at its end, a path means what its tree looks like
			if v.mode == "u" || g.Intn(3) == 0 {
				c.P = ""
			} else {
				c.P = strings.TrimSuffix(c.P, g.d) + g.d
			}
		}
		if c.Op == "getm" {
			c.Keep, c.Nf, c.Flt = g.Intn(3) == 0, g.Intn(3) == 0, g.pick("", "", "int", "mod")
		}
		if g.Intn(6) == 0 {
			c.P = ""
		}
	case 'l', 'M':
		c.Op, c.Lv = "merge", g.doc(t.store && g.prop == "C09")
		if t.store && g.prop == "C09" {
			c.Via = g.pick("", "", "any")
		}
		if g.Intn(2) == 0 {
			c.P = key()
		}
		c.Ld = kind == 'M'
		if t.store && g.Intn(2) == 0 && v.mode != "u" {
			c.Op, c.Ld, c.P = "load", false, ""
			c.Src = g.pick("map", "once", "stream")
			c.Sp = g.pick("", strings.Join(strings.Split(g.key(t), g.d)[:1], g.d))
			c.W = g.prop == "C17"
			if g.prop == "C10" {
				c.Src, c.Cd = g.pick("once", "writer"), "rec"
			}
			v.loaded = true
		}
		if len(c.Lv) == 0 {
			c.Op, c.P, c.V, c.Ld, c.Lv = "set", key(), g.val(), false, nil
		}
	case 'f':
		c.Op, c.Lv = "load", g.doc(false)
		x := [][2]string{{"map", "read"}, {"once", "codec"}, {"once", "bytes"}, {"stream", "read"}, {"map", "read+"}, {"once", "bytes+"}}[g.Intn(6)]
		c.Src, c.Fail = x[0], x[1]
		c.Sp = g.pick("", "a")
		v.loaded = true
	case 'N':
		c.Op, c.P, c.P2, c.V, c.Fail = "nest", key(), key(), g.val(), g.pick("load", "within", "view")
		g.wrote(v, c.P2)
	case 'u':
		c.Op, c.P = "mutate", key()
	case 'v':
		if len(g.views) > 8 {
			c.Op = "viewinfo"
			break
		}
		s := strings.Split(g.key(t), g.d)
		s = s[:1+g.Intn(len(s))]
		c.Op = g.pick("withprefix", "withprefix", "withprefixr")
		if len(v.prefix) > 300 {
			c.Op = "withprefixr"
		}
		if c.Op == "withprefixr" && g.Intn(4) == 0 {
			s = []string{""}
		}
		c.Ps = s
		nv := *v
		nv.loaded = false
		nv.prefix = strings.Join(s, g.d)
		if c.Op == "withprefix" && v.prefix != "" {
			nv.prefix = v.prefix + g.d + nv.prefix
		}
		g.views = append(g.views, nv)
	case 'V':
		if h == 0 || v.loaded {
			c.Op = "viewinfo"
			break
		}
		s := strings.Split(g.key(t), g.d)
		c.Op, c.Ps = "setprefix", s[:1+g.Intn(len(s))]
		if g.Intn(5) == 0 {
			c.Ps = []string{""}
		}
		v.prefix = strings.Join(c.Ps, g.d)
	case 'O':
		if len(g.views) > 8 {
			c.Op = "viewinfo"
			break
		}
		c.Op, c.Md = "mode", g.pick("u", "u", "n")
		nv := *v
		nv.mode, nv.loaded = c.Md, false
		g.views = append(g.views, nv)
	case 'c':
		if len(g.trees) > 3 || len(g.views) > 10 {
			c.Op = "viewinfo"
			break
		}
		c.Op, c.Must = "clone", g.Intn(2) == 0
		nt := dtree{store: t.store, flat: t.flat, keys: append([]string{}, t.keys...)}
		g.trees = append(g.trees, nt)
		nv := g.views[h]
		nv.tree, nv.loaded = len(g.trees)-1, false
		g.views = append(g.views, nv)
	case 'o':
		c.Op, c.What = "content", "all"
	case 'n':
		if len(g.nh) == 0 {
			c.Op, c.P, c.V, c.Keep = "set", key(), g.val(), true
			g.nh = append(g.nh, v.tree)
			break
		}
		c.H, c.N = 0, 1+g.Intn(len(g.nh))
		c.Op = g.pick("nread", "nread", "ndata", "ncomment", "ntag", "nempty", "nmod", "ntoggle", "nreset")
		c.V, c.D, c.C, c.T, c.B = g.val(), g.pick("hd", "hd", ""), g.pick("", fmt.Sprintf("hc%d", g.n)), g.pick("s:h", "nil"), g.Intn(2) == 0
	case 't':
		c.Op, c.P, c.Ms = "ttl", g.rel(v, g.path(t, false)), []int{3, 5, 10, 20, 40, 2000}[g.Intn(6)]
		c.W = g.Intn(4) == 0
		if n := len(g.nh); n > 0 && g.Intn(3) == 0 {
			if i := g.Intn(n); g.nh[i] == v.tree {
				c.Op, c.P, c.N = "ttlfast", "", i+1
			}
		}
	case 'z': // nothing fires after that
		if g.Intn(30) > 0 || !g.ttl {
			c.Op = "viewinfo"
			break
		}
		c.Op, g.ttl = "close", false
	case 'a':
		c.Op, c.H, c.Ms = "advance", 0, []int{1, 2, 4, 7, 15, 15, 15, 500}[g.Intn(8)]
	case 'A':
		return g.announce(t)
	case 'S':
		if nsrcs == 0 {
			c.Op, c.P, c.V = "set", key(), g.val()
			break
		}
		c.Op, c.H, c.L, c.As, c.Fail = "save", 0, 1+g.Intn(nsrcs), g.Intn(3) == 0, g.pick("", "", "", "write", "enc")
	default:
		panic(infra("no such kind of call"))
	}
	switch c.Op {
	case "set", "insert", "setex", "setnode", "setempty", "update", "nest":
		g.wrote(v, c.P)
	case "merge", "load":
		if c.Fail != "" {
			break
		}
		for _, l := range c.Lv {
			at, x := c.P, *v
			if c.Op == "load" && c.Sp != "" {
				x.prefix = c.Sp
			}
			if at != "" {
				at += g.d
			}
			g.wrote(&x, at+strings.Join(l.S, g.d))
		}
	}
	return c
}

// routes: patterns are set and removed, paths looked up
func (g *driver) route() *Call {
	t := &g.trees[0]
	seg := func(i int) string {
		if i > 1 && g.Intn(3) == 0 {
			return fmt.Sprintf(":p%d", i)
		}
		return g.gen()
	}
	switch r := g.Intn(10); {
	case r < 4:
		n := 1 + g.Intn(5)
		s := make([]string, 0, n)
		if g.Intn(3) > 0 && len(t.keys) > 0 { // begins like another one
			s = append(s, strings.Split(t.keys[g.Intn(len(t.keys))], g.d)...)
			s = s[:1+g.Intn(len(s))]
		}
		for len(s) < n {
			s = append(s, seg(len(s)+1))
		}
		for i := range s {
			if strings.HasPrefix(s[i], "*") {
				s = s[:i+1]
				break
			}
		}
		if l := len(s); l > 1 && g.Intn(6) == 0 {
			s[l-1] = fmt.Sprintf("*w%d", l)
		}
		for _, k := range t.keys {
			if !compatible(strings.Split(k, g.d), s) {
				return g.lookup(t)
			}
		}
		k := strings.Join(s, g.d)
		has := false
		for _, x := range t.keys {
			has = has || x == k
		}
		if !has {
			t.keys = append(t.keys, k)
		}
		return &Call{Op: "set", H: 1, P: k, V: g.val()}
	case r == 4 && len(t.keys) > 5:
		k := t.keys[g.Intn(len(t.keys))]
		var keep []string
		for _, x := range t.keys {
			if x != k && !strings.HasPrefix(x, k+g.d) {
				keep = append(keep, x)
			}
		}
		t.keys = keep
		return &Call{Op: "remove", H: 1, P: k}
	}
	return g.lookup(t)
}

// a path that some pattern may match
func (g *driver) lookup(t *dtree) *Call {
	var s []string
	if len(t.keys) > 0 {
		s = strings.Split(t.keys[g.Intn(len(t.keys))], g.d)
		for i := range s {
			if s[i] != "" && strings.Contains(":*", s[i][:1]) || g.Intn(8) == 0 {
				s[i] = g.gen()
			}
		}
	}
	for len(s) == 0 || g.Intn(6) == 0 {
		s = append(s, g.gen())
	}
	if len(s) > 1 && g.Intn(8) == 0 {
		s = s[:len(s)-1]
	}
	return &Call{Op: "route", H: 1, P: strings.Join(s, g.d)}
}

// at one position, there is one kind of parameter with one name
func compatible(s, t []string) bool {
	for i := range min(len(s), len(t)) {
		if a, b := s[i], t[i]; a != b {
			return a == "" || b == "" || !strings.Contains(":*", a[:1]) || !strings.Contains(":*", b[:1])
		}
	}
	return true
}

var nsrcs int

func (g *driver) announce(t *dtree) *Call {
	if nsrcs == 0 {
		return &Call{Op: "sources"}
	}
	c := &Call{Op: "announce", Src: float64(1 + g.Intn(nsrcs)), Ev: g.pick("create", "write", "write", "remove", "create+write", "rename", "chmod", "remove+chmod", "error")}
	for i := 1 + g.Intn(3); i > 0; i-- {
		c.Es = append(c.Es, [2]string{g.key(t), g.val()})
	}
	if strings.Contains(c.Ev, "remove") {
		for i := range c.Es {
			c.Es[i][1] = "nil"
		}
	}
	return c
}

// the execution under way, in case a call does not return
var under struct {
	sync.Mutex
	since time.Time
	h     History
}

func running(c *Call, r Res) {
	under.Lock()
	defer under.Unlock()
	if r == nil {
		under.since = time.Now()
		under.h.H = append(under.h.H, Step{*c, Res{"ok": true}})
	} else {
		under.since = time.Time{}
		under.h.H[len(under.h.H)-1].R = r
	}
}

// record makes one execution of n calls.
func record(prop string, seed int64, n int, wait func(), w *bufio.Writer) (steps int) {
	g := &driver{Rand: rand.New(rand.NewSource(seed)), prop: prop, d: ".", size: 20 + rand.New(rand.NewSource(seed+1)).Intn(100), ttl: wait != nil}
	switch prop {
	case "C15":
		g.d = g.pick("/", "→", ":", "*", "|", "_", "#")
	case "C13":
		g.d = g.pick("/", ".")
	}
	g.gen, g.deep = g.style(), []int{3, 12, 12, 12}[g.Intn(4)]
	if prop == "C15" {
		gen := g.gen
		dot := g.Intn(2) == 0
		g.gen = func() string {
			s := strings.ReplaceAll(gen(), g.d, "-")
			if dot && g.Intn(3) == 0 {
				s += "." + strings.ReplaceAll(gen(), g.d, "-")
			}
			return s
		}
	}
	nsrcs = 0
	under.Lock()
	under.h = History{}
	under.Unlock()
	u := &universe{wait: wait}
	defer u.cleanup()
	put := func(c *Call) {
		running(c, nil)
		if os.Getenv("VP_FLUSH") == "1" { // it is going to crash
			fmt.Fprintf(w, "%s\n", js(Step{*c, Res{"pending": true}}))
			w.Flush()
		}
		r := u.exec(c)
		running(c, r)
		b, err := json.Marshal(Step{*c, r})
		if err != nil {
			panic(infra(err.Error()))
		}
		w.Write(b)
		w.WriteByte('\n')
		steps++
	}
	w.WriteString(`{"c":{"op":"reset","p":""},"r":{"ok":true}}` + "\n")
	store := !strings.Contains("C01 C02 C03 C04 C05 C07 C13 C14", prop) || g.Intn(4) > 0
	nw := &Call{Op: "new", Kind: "trie", Dl: g.d}
	if store {
		nw.Kind, nw.Flat, nw.Watch = "store", g.Intn(3) == 0, prop == "C17"
	}
	put(nw)
	g.views = []dview{{mode: "n"}}
	g.trees = []dtree{{store: store, flat: nw.Flat}}
	for i := 0; i < n; i++ {
		c := g.next()
		put(c)
		if c.Op == "load" {
			nsrcs++
		}
		if g.Intn(25) == 0 || i == n-1 {
			for t := range g.trees {
				for h, v := range g.views {
					if v.tree == t && v.mode != "u" {
						put(&Call{Op: "content", H: h + 1, What: "all"})
						break
					}
				}
			}
		}
	}
	if wait != nil {
		put(&Call{Op: "advance", Ms: 100})
		put(&Call{Op: "content", H: 1, What: "all"})
		for _, h := range u.hs {
			if h.st != nil {
				h.st.Close()
			} else if cl, ok := h.tr.(interface{ Close() }); ok {
				cl.Close()
			}
		}
		wait()
	}
	return
}

func recordFile(prop string, seed int64, runs, n int, name string, each func(func(wait func()))) (steps int, err error) {
	f, err := os.Create(name)
	if err != nil {
		return 0, err
	}
	defer f.Close()
	w := bufio.NewWriterSize(f, 1<<20)
	defer w.Flush()
	for i := 0; i < runs; i++ {
		each(func(wait func()) { steps += record(prop, seed*1000+int64(i), n, wait, w) })
	}
	return steps, nil
}
