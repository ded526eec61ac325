package storecheck

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hedzr/is"
	logz "github.com/hedzr/logg/slog"
)

var _ = is.InTesting

// Report is what a run of the harness tells the runner.
type Report struct {
	Histories int        `json:"histories"`
	Steps     int        `json:"steps"`
	Failures  []*Failure `json:"failures"`
	Infra     string     `json:"infra,omitempty"`
	Samples   []string   `json:"samples,omitempty"`
}

const maxFailures = 3
const hangAfter = 60 * time.Second

// inBubble runs fn under a fake clock. It reports background activity
// which is left behind.
func inBubble(t *testing.T, fn func()) (leak string) {
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(infra); ok {
				panic(f)
			}
			leak = fmt.Sprint(e)
		}
	}()
	synctest.Test(t, func(t *testing.T) { fn() })
	return
}

func TestMain(m *testing.M) {
	logz.SetLevel(logz.OffLevel)
	os.Exit(m.Run())
}

func writeReport(rep *Report) {
	b, err := json.Marshal(rep)
	if err == nil {
		err = os.WriteFile(os.Getenv("VP_OUT"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
}

func onlyFields() map[string]bool {
	v, ok := os.LookupEnv("VP_ONLY")
	if !ok || v == "*" {
		return nil
	}
	only := map[string]bool{}
	for _, f := range strings.Split(v, ",") {
		only[f] = true
	}
	return only
}

// TestReplay runs the histories in VP_FILES.
func TestReplay(t *testing.T) {
	if os.Getenv("VP_MODE") != "replay" {
		t.Skip()
	}
	only := onlyFields()
	bubble := os.Getenv("VP_BUBBLE") == "1"
	files := strings.Split(os.Getenv("VP_FILES"), ",")

	var mu sync.Mutex
	rep := &Report{}
	addFailure := func(f *Failure) {
		mu.Lock()
		defer mu.Unlock()
		if len(rep.Failures) < maxFailures {
			rep.Failures = append(rep.Failures, f)
		}
	}

	type slot struct {
		since atomic.Int64
		hist  atomic.Pointer[History]
	}
	slots := make([]slot, len(files))
	go func() { // a call that never returns
		for {
			time.Sleep(time.Second)
			for i := range slots {
				if s := slots[i].since.Load(); s != 0 && time.Since(time.Unix(0, s)) > hangAfter {
					if h := slots[i].hist.Load(); h != nil {
						mu.Lock()
						buf := make([]byte, 1<<16)
						buf = buf[:runtime.Stack(buf, true)]
						rep.Failures = append(rep.Failures, &Failure{History: *h, Where: "history", Diff: "it does not end within " + hangAfter.String(), Got: Res{"stacks": string(buf)}})
						writeReport(rep)
						os.Exit(0)
					}
				}
			}
		}
	}()

	var wg sync.WaitGroup
	for i, f := range files {
		run := func() {
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					rep.Infra = fmt.Sprint(e)
					mu.Unlock()
				}
			}()
			n, steps := 0, 0
			err := readHistories(f, func(h *History) bool {
				n++
				slots[i].hist.Store(h)
				slots[i].since.Store(time.Now().UnixNano())
				var fl *Failure
				if bubble {
					if leak := inBubble(t, func() { fl = replay(h, only, synctest.Wait, &steps) }); leak != "" && fl == nil {
						fl = &Failure{History: *h, Where: "after Close", Diff: "background activity remains: " + leak}
					}
				} else {
					fl = replay(h, only, nil, &steps)
				}
				if fl != nil {
					addFailure(fl)
				}
				mu.Lock()
				defer mu.Unlock()
				if len(rep.Samples) < 2 && n > 20 {
					rep.Samples = append(rep.Samples, js(h.H))
				}
				return len(rep.Failures) < maxFailures
			})
			slots[i].since.Store(0)
			mu.Lock()
			defer mu.Unlock()
			rep.Histories += n
			rep.Steps += steps
			if err != nil {
				rep.Infra = err.Error()
			}
		}
		if bubble || os.Getenv("VP_SERIAL") == "1" {
			run()
			continue
		}
		wg.Add(1)
		go func() { defer wg.Done(); run() }()
	}
	wg.Wait()
	writeReport(rep)
}

// TestRecord records VP_RUNS executions of VP_LEN calls in VP_FILES.
func TestRecord(t *testing.T) {
	if os.Getenv("VP_MODE") != "record" {
		t.Skip()
	}
	num := func(name string) int {
		n, err := strconv.Atoi(os.Getenv(name))
		if err != nil {
			t.Fatal(err)
		}
		return n
	}
	bubble := os.Getenv("VP_BUBBLE") == "1"
	rep := &Report{}
	start := time.Now() // outside of any bubble
	go func() {         // a call that never returns
		for last, n := time.Duration(0), 0; ; {
			time.Sleep(time.Second)
			under.Lock()
			if k := len(under.h.H); under.since.IsZero() || k != n {
				last, n = time.Since(start), k
			}
			if time.Since(start)-last > hangAfter {
				rep.Failures = append(rep.Failures, &Failure{History: under.h, Where: fmt.Sprintf("call %d", n), Diff: "it does not return within " + hangAfter.String()})
				writeReport(rep)
				os.Exit(0)
			}
			under.Unlock()
		}
	}()
	for i, f := range strings.Split(os.Getenv("VP_FILES"), ",") {
		steps, err := recordFile(os.Getenv("VP_PROF"), int64(num("VP_SEED")+i), num("VP_RUNS"), num("VP_LEN"), f, func(run func(wait func())) {
			if !bubble {
				run(nil)
				return
			}
			if leak := inBubble(t, func() { run(synctest.Wait) }); leak != "" {
				rep.Failures = append(rep.Failures, &Failure{History: under.h, Where: "after Close", Diff: "background activity remains: " + leak})
			}
		})
		rep.Steps += steps
		rep.Histories += num("VP_RUNS")
		if err != nil {
			rep.Infra = err.Error()
		}
	}
	writeReport(rep)
}
