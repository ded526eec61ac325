package storecheck

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/codecs/gob"
	"github.com/hedzr/store/codecs/hjson"
	"github.com/hedzr/store/codecs/json"
	"github.com/hedzr/store/codecs/nestext"
	"github.com/hedzr/store/codecs/toml"
	"github.com/hedzr/store/codecs/yaml"
)

var errInjected = errors.New("injected failure")

// recCodec keeps the documents it encoded in memory.
type recCodec struct {
	docs    []map[string]any
	failEnc bool
	failDec bool
	partial bool // a failure also returns what was decoded
}

func (s *recCodec) Marshal(m map[string]any) ([]byte, error) {
	if s.failEnc {
		return nil, errInjected
	}
	s.docs = append(s.docs, m)
	return []byte(fmt.Sprintf("doc %d", len(s.docs)-1)), nil
}

func (s *recCodec) Unmarshal(b []byte) (map[string]any, error) {
	if s.failDec && !s.partial {
		return nil, errInjected
	}
	var n int
	if _, err := fmt.Sscanf(string(b), "doc %d", &n); err != nil || n >= len(s.docs) {
		return nil, fmt.Errorf("bad document %q", b)
	}
	if s.failDec {
		return s.docs[n], errInjected
	}
	return s.docs[n], nil
}

// failing wraps a codec.
type failing struct {
	store.Codec
	failEnc, failDec bool
}

func (s *failing) Marshal(m map[string]any) ([]byte, error) {
	if s.failEnc {
		return nil, errInjected
	}
	return s.Codec.Marshal(m)
}

func (s *failing) Unmarshal(b []byte) (map[string]any, error) {
	if s.failDec {
		return nil, errInjected
	}
	return s.Codec.Unmarshal(b)
}

func realCodec(kind string) store.Codec {
	switch kind {
	case "json":
		return json.New()
	case "yaml":
		return yaml.New()
	case "toml":
		return toml.New()
	case "hjson":
		return hjson.New()
	case "nestext":
		return nestext.New()
	case "gob":
		return gob.New()
	}
	panic("unknown codec " + kind)
}

// source is the base of the providers used in the checks.
type source struct {
	codec    store.Codec
	pos      string
	failRead bool
	partial  bool // a failure also returns what was read

	watching  int // how often Watch was called
	closed    int
	failWatch bool
	notify    func(event any, err error)
}

func (s *source) GetCodec() store.Codec   { return s.codec }
func (s *source) GetPosition() string     { return s.pos }
func (s *source) WithCodec(c store.Codec) { s.codec = c }
func (s *source) WithPosition(p string)   { s.pos = p }
func (s *source) state() *source          { return s }

type stater interface{ state() *source }

// mapSource hands over its entries at once.
type mapSource struct {
	source
	m      map[string]store.ValPkg
	onRead func()
}

func (s *mapSource) Read() (map[string]store.ValPkg, error) {
	if s.onRead != nil {
		s.onRead()
	}
	if s.failRead && s.partial {
		return s.m, errInjected
	}
	if s.failRead {
		return nil, errInjected
	}
	return s.m, nil
}

// onceSource hands over a document.
type onceSource struct {
	source
	sink
	data      []byte
	failBytes bool
	onRead    func()
}

// sink is where documents are written to.
type sink struct {
	failWrite bool
	written   [][]byte
}

func (s *sink) put(b []byte) error {
	if s.failWrite {
		return errInjected
	}
	s.written = append(s.written, append([]byte(nil), b...))
	return nil
}

func (s *sink) theSink() *sink { return s }

// writerSource hands over its entries at once and is written to as an
// io.Writer.
type writerSource struct {
	mapSource
	sink
}

func (s *writerSource) Write(b []byte) (int, error) {
	if err := s.put(b); err != nil {
		return 0, err
	}
	return len(b), nil
}

func (s *onceSource) Read() (map[string]store.ValPkg, error) {
	if s.onRead != nil {
		s.onRead()
	}
	if s.failRead && s.partial {
		return map[string]store.ValPkg{"partial": {Value: "x"}}, errInjected
	}
	if s.failRead {
		return nil, errInjected
	}
	return nil, store.ErrNotImplemented
}

func (s *onceSource) ReadBytes() ([]byte, error) {
	if s.failBytes && s.partial {
		return s.data, errInjected
	}
	if s.failBytes {
		return nil, errInjected
	}
	return s.data, nil
}

func (s *onceSource) Write(b []byte) error { return s.put(b) }

// streamSource hands over its entries one by one.
type streamSource struct {
	source
	keys []string
	m    map[string]any
	pos  int
}

func (s *streamSource) Read() (map[string]store.ValPkg, error) {
	if s.failRead {
		return nil, errInjected
	}
	return nil, store.ErrNotImplemented
}
func (s *streamSource) Keys() ([]string, error) { return s.keys, nil }
func (s *streamSource) Count() int              { return len(s.keys) }
func (s *streamSource) Has(k string) bool       { _, ok := s.m[k]; return ok }
func (s *streamSource) Next() (key string, eol bool) {
	if s.pos >= len(s.keys) {
		return "", true
	}
	s.pos++
	return s.keys[s.pos-1], false
}
func (s *streamSource) Value(k string) (any, bool) { v, ok := s.m[k]; return v, ok }
func (s *streamSource) MustValue(k string) any     { return s.m[k] }

// bareSource supports nothing but Read, which it does not implement.
type bareSource struct{ source }

func (s *bareSource) Read() (map[string]store.ValPkg, error) { return nil, store.ErrNotImplemented }

// Watchable variants
type watchMap struct{ mapSource }
type watchOnce struct{ onceSource }
type watchStream struct{ streamSource }

func (s *source) watch(_ context.Context, cb func(event any, err error)) error {
	if s.failWatch {
		return errInjected
	}
	s.watching++
	s.notify = cb
	return nil
}

func (s *watchMap) Watch(ctx context.Context, cb func(event any, err error)) error {
	return s.watch(ctx, cb)
}
func (s *watchMap) Close() { s.closed++ }
func (s *watchOnce) Watch(ctx context.Context, cb func(event any, err error)) error {
	return s.watch(ctx, cb)
}
func (s *watchOnce) Close() { s.closed++ }
func (s *watchStream) Watch(ctx context.Context, cb func(event any, err error)) error {
	return s.watch(ctx, cb)
}
func (s *watchStream) Close() { s.closed++ }

// change is an announcement of a watched source.
type change struct {
	op  store.Op
	es  [][2]string
	pos int
	pv  store.Provider
}

func (s *change) Next() (key string, val any, ok bool) {
	if s.pos >= len(s.es) {
		return
	}
	s.pos++
	e := s.es[s.pos-1]
	return e[0], dec(e[1]), true
}
func (s *change) Path() string             { return "" }
func (s *change) Op() store.Op             { return s.op }
func (s *change) Has(op store.Op) bool     { return s.op&op != 0 }
func (s *change) Timestamp() time.Time     { return time.Time{} }
func (s *change) Provider() store.Provider { return s.pv }

func opOf(ev string) (op store.Op) {
	for _, x := range strings.Split(ev, "+") {
		switch x {
		case "create":
			op |= store.OpCreate
		case "write":
			op |= store.OpWrite
		case "remove":
			op |= store.OpRemove
		case "rename":
			op |= store.OpRename
		case "chmod":
			op |= store.OpChmod
		}
	}
	return
}
