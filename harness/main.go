// Command zzverif searches for concrete inputs on which the code under test
// breaks a property. It is overlaid into the module and built from the current
// tree on every run. What it explores is bounded and never counted as proof.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sync"
	"time"
)

type failure struct {
	Key    string `json:"key"`
	What   string `json:"what"`
	Input  string `json:"input"`
	Detail string `json:"detail"`
}

type result struct {
	Evaluations int64     `json:"evaluations"`
	Distinct    int64     `json:"distinct_nontrivial"`
	Rule        string    `json:"rule"`
	Samples     []string  `json:"samples"`
	Failures    []failure `json:"failures"`
	Notes       []string  `json:"notes"`
}

// T is the state of one search.
type T struct {
	*rand.Rand
	mu       sync.Mutex
	res      result
	seen     map[uint64]bool
	deadline time.Time
	thorough bool
	repo     string

	input   string // input being evaluated
	since   time.Time
	running bool
}

var (
	propF = flag.String("prop", "", "property")
	seedF = flag.Int64("seed", 1, "seed")
	secsF = flag.Int("secs", 20, "seconds")
	tierF = flag.String("tier", "quick", "tier")
	repoF = flag.String("repo", "/repo", "repository")
)

func (t *T) fail(key, what, detail string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for _, f := range t.res.Failures {
		if f.Key == key {
			return
		}
	}
	t.res.Failures = append(t.res.Failures, failure{key, what, clip(t.input, 4000), clip(detail, 4000)})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

func (t *T) done() bool {
	t.mu.Lock()
	n := len(t.res.Failures)
	t.mu.Unlock()
	return n >= 3 || time.Now().After(t.deadline)
}

// try evaluates f on an input; a panic is a failure of the property.
// nontrivial reports whether the input exercised the property.
func (t *T) try(input string, f func() (nontrivial bool)) {
	t.mu.Lock()
	t.input, t.since, t.running = input, time.Now(), true
	t.mu.Unlock()
	nt := false
	func() {
		defer func() {
			if e := recover(); e != nil {
				t.fail("panic", "panic on this input", fmt.Sprintf("%v\n%s", e, debug.Stack()))
			}
		}()
		nt = f()
	}()
	t.mu.Lock()
	t.running = false
	t.res.Evaluations++
	if nt {
		h := fnv.New64a()
		h.Write([]byte(input))
		if k := h.Sum64(); !t.seen[k] {
			if len(t.seen) < 2000000 {
				t.seen[k] = true
			}
			t.res.Distinct++
			if len(t.res.Samples) < 5 {
				t.res.Samples = append(t.res.Samples, clip(input, 300))
			}
		}
	}
	t.mu.Unlock()
}

func (t *T) print() {
	if t.res.Samples == nil {
		t.res.Samples = []string{}
	}
	json.NewEncoder(os.Stdout).Encode(t.res)
}

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	t := &T{Rand: rand.New(rand.NewSource(*seedF)), seen: map[uint64]bool{}, thorough: *tierF == "thorough", repo: *repoF}
	t.deadline = time.Now().Add(time.Duration(*secsF) * time.Second)
	f := props[*propF]
	if f == nil {
		t.res.Notes = append(t.res.Notes, "no input search for this property")
		t.print()
		return
	}
	// watchdog: an evaluation that takes very long does not terminate
	go func() {
		for {
			time.Sleep(time.Second)
			t.mu.Lock()
			if t.running && time.Since(t.since) > 40*time.Second {
				t.res.Failures = append(t.res.Failures, failure{"hang", "no result after 40 seconds", clip(t.input, 4000), ""})
				t.print()
				os.Exit(0)
			}
			t.mu.Unlock()
		}
	}()
	f(t)
	t.mu.Lock()
	t.print()
	t.mu.Unlock()
	os.Exit(0)
}

var props = map[string]func(*T){}
