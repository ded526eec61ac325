package storecheck

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sort"
	"strings"
)

// Step is a call with its answer.
type Step struct {
	C Call `json:"c"`
	R Res  `json:"r"`
}

// History is a behaviour of the specification: calls with the answers
// they must give, and probes of the final state.
type History struct {
	H []Step `json:"h"`
	P []Step `json:"p"`
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(infra(err.Error()))
	}
	return string(b)
}

// the fields which are bags: their order does not count
var bags = map[string]bool{"m": true, "ev": true}

func canon(field string, v any) string {
	if bags[field] {
		var a []any
		b, _ := json.Marshal(v)
		if json.Unmarshal(b, &a) == nil {
			s := make([]string, len(a))
			for i, x := range a {
				s[i] = js(x)
			}
			sort.Strings(s)
			return "[" + strings.Join(s, ",") + "]"
		}
	}
	return js(v)
}

// compare tells how an answer differs from the expected one. only: the
// fields that count (nil: all).
func compare(want, got Res, only map[string]bool) string {
	if p, ok := got["panic"]; ok {
		return fmt.Sprintf("panic: %v", p)
	}
	if want["skip"] == true {
		return ""
	}
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if only != nil && !only[k] {
			continue
		}
		if w, g := canon(k, want[k]), canon(k, got[k]); w != g {
			return fmt.Sprintf("%s: the specification says %s, the code %s", k, w, g)
		}
	}
	return ""
}

// Failure is a history whose answers differ from the specification.
type Failure struct {
	History History `json:"history"`
	Where   string  `json:"where"`
	Diff    string  `json:"diff"`
	Got     Res     `json:"got"`
}

// replay runs a history against the code.
func replay(hist *History, only map[string]bool, wait func(), steps *int) *Failure {
	u := &universe{wait: wait}
	defer u.cleanup()
	for i := range hist.H {
		s := &hist.H[i]
		*steps++
		got := u.exec(&s.C)
		if d := compare(s.R, got, only); d != "" {
			return &Failure{*hist, fmt.Sprintf("call %d %s", i+1, js(s.C)), d, got}
		}
	}
	for i := range hist.P {
		s := &hist.P[i]
		*steps++
		got := u.exec(&s.C)
		if d := compare(s.R, got, nil); d != "" {
			return &Failure{*hist, fmt.Sprintf("probe %d %s", i+1, js(s.C)), d, got}
		}
	}
	if wait != nil {
		for _, h := range u.hs {
			if h.st != nil {
				h.st.Close()
			} else if cl, ok := h.tr.(interface{ Close() }); ok {
				cl.Close()
			}
		}
		wait()
	}
	return nil
}

// readHistories decodes a file with a JSON string per line, each holding
// a history as JSON.
func readHistories(name string, fn func(h *History) bool) error {
	f, err := os.Open(name)
	if err != nil {
		return err
	}
	defer f.Close()
	rd := bufio.NewReaderSize(f, 1<<20)
	for n := 1; ; n++ {
		line, err := rd.ReadBytes('\n')
		if len(line) > 1 {
			if line[0] == '"' {
				var s string
				if e := json.Unmarshal(line, &s); e != nil {
					return fmt.Errorf("%s:%d: %v", name, n, e)
				}
				line = []byte(s)
			}
			var h History
			if e := json.Unmarshal(line, &h); e != nil {
				return fmt.Errorf("%s:%d: %v: %.200s", name, n, e, line)
			}
			if !fn(&h) {
				return nil
			}
		}
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
	}
}
