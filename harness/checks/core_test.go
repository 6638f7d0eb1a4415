// Package checks drives the property checks. One process runs one property
// over cases drawn by rapid (or replays one saved case) and leaves counters,
// samples and failures as JSON files for the supervisor (/verif/check.py).
package checks

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Out collects what a case exercised.
type Out struct {
	NonTrivial bool
	Classes    []string
	Evals      int // sub-evaluations inside the case, at least 1
}

func (o *Out) class(c string, a ...any) { o.Classes = append(o.Classes, fmt.Sprintf(c, a...)) }

// Prop is one property check.
type Prop struct {
	ID   string
	Rule string
	// Draw makes a case, a pointer to a JSON friendly struct.
	Draw func(t *rapid.T) any
	// New returns an empty case for decoding.
	New func() any
	// Run evaluates the case; an error is a violation.
	Run func(c any, o *Out) error
}

var props = map[string]*Prop{}

func register[C any](id, rule string, draw func(t *rapid.T) *C, run func(c *C, o *Out) error) {
	props[id] = &Prop{
		ID: id, Rule: rule,
		Draw: func(t *rapid.T) any { return draw(t) },
		New:  func() any { return new(C) },
		Run:  func(c any, o *Out) error { return run(c.(*C), o) },
	}
}

type stats struct {
	Property   string         `json:"property"`
	Rule       string         `json:"rule"`
	Cases      int            `json:"cases"`
	Evals      int            `json:"evals"`
	NonTrivial int            `json:"nontrivial"`
	Hashes     []string       `json:"hashes"`
	Classes    map[string]int `json:"classes"`
	Samples    []any          `json:"samples"`
	Completed  bool           `json:"completed"`
	Checks     int            `json:"checks"`
}

// harnessError is a failure of the machinery, never of the library.
type harnessError struct{ error }

func herr(format string, a ...any) error { return harnessError{fmt.Errorf("harness: "+format, a...)} }

func safeRun(p *Prop, c any, o *Out) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok && strings.HasPrefix(s, "harness:") {
				err = harnessError{fmt.Errorf("%s\n%s", s, debug.Stack())}

				return
			}

			err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
		}
	}()

	return p.Run(c, o)
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic("harness: " + err.Error())
	}

	return b
}

func writeFile(dir, name string, b []byte) {
	if dir == "" {
		return
	}

	tmp := filepath.Join(dir, name+".tmp")
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "harness: ", err)
		os.Exit(4)
	}

	if err := os.Rename(tmp, filepath.Join(dir, name)); err != nil {
		fmt.Fprintln(os.Stderr, "harness: ", err)
		os.Exit(4)
	}
}

// watchdog ends the process when a case runs for far longer than any case
// takes; the supervisor confirms by replaying it in a process of its own.
func watchdog(dir string) (arm func(), disarm func()) {
	limit := 60 * time.Second
	if s := os.Getenv("HV_CASE_TIMEOUT"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}

	var started atomic.Int64

	go func() {
		for {
			time.Sleep(time.Second)

			s := started.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > limit {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				writeFile(dir, "hang.txt", buf)
				fmt.Fprintln(os.Stderr, "harness: case exceeded its time limit")
				os.Exit(7)
			}
		}
	}()

	return func() { started.Store(time.Now().UnixNano()) }, func() { started.Store(0) }
}

type failure struct {
	Property string          `json:"property"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

func TestProp(t *testing.T) {
	// Anything but UTC
	time.Local = time.FixedZone("HV", 5*3600+45*60)

	id := os.Getenv("HV_PROP")
	if id == "" {
		t.Skip("HV_PROP not set")
	}

	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "harness: no property", id)
		os.Exit(4)
	}

	dir := os.Getenv("HV_DIR")
	arm, disarm := watchdog(dir)

	if rp := os.Getenv("HV_REPLAY"); rp != "" {
		replay(t, p, rp, arm, disarm)

		return
	}

	var (
		mu sync.Mutex
		st = stats{Property: id, Rule: p.Rule, Classes: map[string]int{}}
	)

	st.Checks, _ = strconv.Atoi(os.Getenv("HV_CHECKS"))
	failed := false
	seen := map[string]bool{}

	defer func() {
		st.Completed = !failed
		for h := range seen {
			st.Hashes = append(st.Hashes, h)
		}
		writeFile(dir, "stats.json", mustJSON(st))
	}()

	known := loadKnown(id)

	rapid.Check(t, func(t *rapid.T) {
		c := p.Draw(t)
		js := mustJSON(c)
		writeFile(dir, "current.json", js)

		// The case is run from its serialised form, as a replay would.
		c2 := p.New()
		if err := json.Unmarshal(js, c2); err != nil {
			fmt.Fprintln(os.Stderr, "harness: case does not round-trip:", err)
			os.Exit(4)
		}

		var o Out

		arm()
		err := safeRun(p, c2, &o)
		disarm()

		if he, ok := err.(harnessError); ok {
			fmt.Fprintf(os.Stderr, "%v\ncase: %s\n", he, js)
			writeFile(dir, "harness.json", js)
			os.Exit(4)
		}

		mu.Lock()
		defer mu.Unlock()

		if err != nil {
			if k := known.match(err, js); k != "" {
				writeFile(dir, "known-"+k+".json", mustJSON(failure{id, err.Error(), js}))

				st.Cases++
				st.Evals += max(1, o.Evals)
				st.Classes["known:"+k]++

				return
			}

			failed = true

			writeFile(dir, "fail.json", mustJSON(failure{id, err.Error(), js}))
			t.Fatalf("%v", err)
		}

		if failed {
			return // shrinking
		}

		st.Cases++
		st.Evals += max(1, o.Evals)

		for _, c := range o.Classes {
			st.Classes[c]++
		}

		if o.NonTrivial {
			st.NonTrivial++

			h := sha256.Sum256(js)
			k := hex.EncodeToString(h[:8])

			if !seen[k] {
				seen[k] = true

				if len(st.Samples) < 3 || (st.NonTrivial%97 == 0 && len(st.Samples) < 6) {
					if len(js) < 4000 {
						st.Samples = append(st.Samples, json.RawMessage(js))
					}
				}
			}
		}
	})
}

func replay(t *testing.T, p *Prop, path string, arm, disarm func()) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(4)
	}

	var f failure
	if err := json.Unmarshal(b, &f); err != nil || f.Case == nil {
		f.Case = b
	}

	c := p.New()
	if err := json.Unmarshal(f.Case, c); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(4)
	}

	n := 1
	if s := os.Getenv("HV_REPEAT"); s != "" {
		n, _ = strconv.Atoi(s)
	}

	for range n {
		var o Out

		arm()
		err = safeRun(p, c, &o)
		disarm()

		if he, ok := err.(harnessError); ok {
			fmt.Fprintln(os.Stderr, he)
			os.Exit(4)
		}

		if err != nil {
			t.Fatalf("REPLAY-FAIL %v", err)
		}
	}

	fmt.Println("REPLAY-PASS")
}

// known findings: lines "KNOWN property=<id> key=<key> match=<substring>" in
// the file named by HV_KNOWN.
type knownSet []struct{ key, match string }

func loadKnown(id string) knownSet {
	var k knownSet

	b, err := os.ReadFile(os.Getenv("HV_KNOWN"))
	if err != nil {
		return nil
	}

	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "KNOWN property="+id+" ") {
			continue
		}

		_, rest, _ := strings.Cut(l, "key=")
		key, rest, _ := strings.Cut(rest, " ")
		_, m, ok := strings.Cut(rest, "match=")

		if ok && key != "" && m != "" {
			k = append(k, struct{ key, match string }{key, m})
		}
	}

	return k
}

func (k knownSet) match(err error, _ []byte) string {
	for _, x := range k {
		if strings.Contains(err.Error(), x.match) {
			return x.key
		}
	}

	return ""
}
