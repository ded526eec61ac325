package storecheck

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	hjsonlib "github.com/hjson/hjson-go/v4"
	"github.com/npillmayer/nestext"
	tomllib "github.com/pelletier/go-toml/v2"
	yamllib "gopkg.in/yaml.v3"

	"github.com/hedzr/store"
	"github.com/hedzr/store/providers/file"
	"github.com/hedzr/store/providers/fs"
)

// the registry of gob is global: what the codec can do has to be found out
// before the harness registers types of its own
var gobLists = func() error {
	_, err := realCodec("gob").Marshal(map[string]any{"k": []any{"x"}})
	return err
}()

// path of file number n, in a scratch directory of the history.
func (u *universe) path(n int) string {
	if u.dir == "" {
		d, err := os.MkdirTemp(".", "files-")
		if err != nil {
			panic(infra(err.Error()))
		}
		if u.dir, err = filepath.Abs(d); err != nil {
			panic(infra(err.Error()))
		}
	}
	return filepath.Join(u.dir, fmt.Sprintf("f%d.conf", n))
}

func (u *universe) cleanup() {
	if u.dir != "" {
		os.RemoveAll(u.dir)
	}
}

func must(b []byte, err error) []byte {
	if err != nil {
		panic(infra(err.Error()))
	}
	return b
}

// encode writes a document without the code under test. style: which of
// the ways to write it.
func encode(cd string, m map[string]any, style int) []byte {
	switch cd {
	case "json":
		if style == 0 {
			return must(json.Marshal(m))
		}
		return must(json.MarshalIndent(m, " ", "\t"))
	case "yaml":
		if style == 0 {
			return must(yamllib.Marshal(m))
		}
		return append([]byte("# a comment\n"), must(json.Marshal(m))...) // YAML includes JSON
	case "toml":
		b := must(tomllib.Marshal(m))
		if style == 0 {
			return b
		}
		return append([]byte("# a comment\n"), b...)
	case "hjson":
		if style == 0 {
			return must(hjsonlib.Marshal(m))
		}
		return append([]byte("# a comment\n"), must(json.MarshalIndent(m, "", "  "))...)
	case "nestext":
		var sb strings.Builder
		if style != 0 {
			sb.WriteString("# a comment\n")
		}
		nestText(&sb, m, "")
		return []byte(sb.String())
	case "gob":
		gob.Register(map[string]any{})
		gob.Register([]any{})
		var sb bytes.Buffer
		if err := gob.NewEncoder(&sb).Encode(m); err != nil {
			panic(infra(err.Error()))
		}
		return sb.Bytes()
	}
	panic(infra("unknown format " + cd))
}

// nestText writes a map as NestedText.
func nestText(sb *strings.Builder, m map[string]any, indent string) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	text := func(s, indent string) {
		for _, l := range strings.Split(s, "\n") {
			if l == "" {
				sb.WriteString(indent + ">\n")
				continue
			}
			sb.WriteString(indent + "> " + l + "\n")
		}
	}
	for _, k := range ks {
		sb.WriteString(indent + k + ":\n")
		switch z := m[k].(type) {
		case map[string]any:
			nestText(sb, z, indent+"  ")
		case []any:
			for _, x := range z {
				sb.WriteString(indent + "  -\n")
				text(fmt.Sprint(x), indent+"    ")
			}
		default:
			text(fmt.Sprint(z), indent+"  ")
		}
	}
}

// decode reads a document without the code under test.
func decode(cd string, b []byte) (m map[string]any, err error) {
	switch cd {
	case "json":
		err = json.Unmarshal(b, &m)
	case "yaml":
		err = yamllib.Unmarshal(b, &m)
	case "toml":
		err = tomllib.Unmarshal(b, &m)
	case "hjson":
		err = hjsonlib.Unmarshal(b, &m)
	case "nestext":
		var x any
		if x, err = nestext.Parse(bytes.NewReader(b), nestext.TopLevel("dict")); err == nil {
			m, _ = x.(map[string]any)
		}
	case "gob":
		gob.Register(map[string]any{})
		gob.Register([]any{})
		err = gob.NewDecoder(bytes.NewReader(b)).Decode(&m)
	default:
		panic(infra("unknown format " + cd))
	}
	return
}

// what is no document of a format
var malformed = map[string][]string{
	"json":    {`{"a":1`, `{"a" 1}`, `{"b":"x","a":}`, ``},
	"yaml":    {"a: [1", "b: x\na: {", "\tb: 1", "a: \"x"},
	"toml":    {"a = ", "b = 1\na = [1", "[t\na = 1", "a = \"x"},
	"hjson":   {"{a:1", "{b: x\n a: [1", "{a:1}}", "[1"},
	"nestext": {"a", "b:\n  > x\na", "  b: x\n a: y", "- x\na: y"},
	"gob":     {"garbage", "\x00\x01\x02", "{\"a\":1}", "\xff\xff\xff"},
}

func (u *universe) docRes(cd string, b []byte) Res {
	m, err := decode(cd, b)
	if err != nil {
		return Res{"st": "bad", "text": string(b)}
	}
	return Res{"st": "doc", "m": flatten(m)}
}

type fileLoader interface {
	Load(file string) (data map[string]any, err error)
}
type fileSaver interface {
	Save(file string, data map[string]any) (err error)
}

func (u *universe) provider(via string, n int, cd store.Codec, write bool) store.Provider {
	switch via {
	case "fs":
		u.path(n)
		var opts []fs.Opt
		if cd != nil {
			opts = append(opts, fs.WithCodec(cd))
		}
		return fs.New(os.DirFS(u.dir), filepath.Base(u.path(n)), opts...)
	default:
		opts := []file.Opt{}
		if write {
			opts = append(opts, file.WithWriteBackEnabled(true))
		}
		if cd != nil {
			opts = append(opts, file.WithCodec(cd))
		}
		return file.New(u.path(n), opts...)
	}
}

func (u *universe) execFiles(h *handle, c *Call) (r Res, ok bool) {
	ok = true
	switch c.Op {
	case "fput":
		must(nil, os.WriteFile(u.path(c.F), encode(c.Cd, nested(c), c.L0), 0o600))
		return Res{"ok": true}, ok
	case "fbad":
		must(nil, os.WriteFile(u.path(c.F), []byte(malformed[c.Cd][c.L0]), 0o600))
		return Res{"ok": true}, ok
	case "fdel":
		if err := os.Remove(u.path(c.F)); err != nil && !os.IsNotExist(err) {
			panic(infra(err.Error()))
		}
		return Res{"ok": true}, ok
	case "fcontent":
		b, err := os.ReadFile(u.path(c.F))
		if err != nil {
			return Res{"st": "none", "m": []any{}}, ok
		}
		return u.docRes(c.Cd, b), ok
	case "fload":
		l := &loaded{ok: true, prefix: c.Sp, cd: c.Cd}
		var opts []store.LoadOpt
		if c.Via != "plain" {
			l.codec = realCodec(c.Cd)
		}
		if c.W || l.codec == nil { // the source knows its codec
			l.prov = u.provider(c.Via, c.F, l.codec, c.B)
		} else {
			l.prov = u.provider(c.Via, c.F, nil, c.B)
			opts = append(opts, store.WithCodec(l.codec))
		}
		opts = append(opts, store.WithProvider(l.prov))
		if c.Sp != "" {
			opts = append(opts, store.WithStorePrefix(c.Sp))
		}
		if c.Fl != "" {
			opts = append(opts, store.WithStoreFlattenSlice(c.Fl == "on"))
		}
		wr, err := h.st.Load(context.Background(), opts...)
		l.wr, l.ok = wr, wr != nil
		u.ldrs = append(u.ldrs, l)
		return Res{"err": err != nil, "wr": wr != nil}, ok
	case "fsave":
		l := u.ldrs[c.L-1]
		var err error
		if c.As {
			codec := realCodec(c.Cd)
			var opts []store.SaveAsOpt
			if c.W {
				opts = append(opts, store.WithSaveAsProvider(u.provider(c.Via, c.F, codec, c.B)))
			} else {
				opts = append(opts, store.WithSaveAsProvider(u.provider(c.Via, c.F, nil, c.B)), store.WithSaveAsCodec(codec))
			}
			err = l.wr.(*store.Loader).SaveAs(context.Background(), "", opts...)
		} else {
			err = l.wr.Save(context.Background())
		}
		return Res{"err": err != nil}, ok
	case "cdec":
		b := must(os.ReadFile(u.path(c.F)))
		cd := realCodec(c.Cd)
		m, err := cd.Unmarshal(b)
		r := Res{"err": err != nil, "m": []any{}}
		if err == nil {
			r["m"] = flatten(m)
		}
		if x, ok := cd.(fileLoader); ok && (c.Cd == "json" || c.Cd == "yaml") {
			m2, err2 := x.Load(u.path(c.F))
			if (err == nil) != (err2 == nil) || err == nil && canon("m", flatten(m)) != canon("m", flatten(m2)) {
				r["m"] = fmt.Sprintf("Unmarshal: %v, %v; Load: %v, %v", m, err, m2, err2)
			}
		}
		return r, ok
	case "cenc":
		cd := realCodec(c.Cd)
		b, err := cd.Marshal(nested(c))
		if err == nil && c.Cd == "gob" && strings.Contains(js(c.Lv), `"la:`) {
			err = gobLists
		}
		if err != nil {
			return Res{"err": true, "text": err.Error()}, ok
		}
		r := u.docRes(c.Cd, b)
		if r["st"] != "doc" {
			return Res{"err": false, "m": r}, ok
		}
		if x, ok := cd.(fileSaver); ok {
			p := u.path(9)
			if err := x.Save(p, nested(c)); err != nil {
				return Res{"err": true, "text": "Save: " + err.Error()}, true
			}
			r2 := u.docRes(c.Cd, must(os.ReadFile(p)))
			if canon("m", r2["m"]) != canon("m", r["m"]) {
				r["m"] = fmt.Sprintf("Marshal: %v, Save: %v", r["m"], r2)
			}
		}
		return Res{"err": false, "m": r["m"]}, ok
	}
	return nil, false
}
