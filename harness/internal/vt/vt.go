// Package vt drives a property: plan generation (rapid), execution, evidence, replay.
package vt

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Case describes one executed case.
type Case struct {
	Nontrivial bool
	// Classes are labels counted in the evidence.
	Classes []string
	// Known is the id of a known finding this case ran into ("" if none).
	Known string
}

// ErrInconclusive marks a case the harness could not judge.
var ErrInconclusive = errors.New("inconclusive")

type shard struct {
	Property      string         `json:"property"`
	Evaluations   int            `json:"evaluations"`
	Nontrivial    int            `json:"nontrivial"`
	Hashes        []uint64       `json:"hashes"`
	Classes       map[string]int `json:"classes"`
	Known         map[string]int `json:"known"`
	Samples       []any          `json:"samples"`
	Violation     string         `json:"violation,omitempty"`
	Plan          any            `json:"plan,omitempty"`
	Inconclusive  string         `json:"inconclusive,omitempty"`
	WallS         float64        `json:"wall_s"`
	Skipped       int            `json:"skipped"`
	InconclusiveN int            `json:"inconclusive_n"`
}

func outDir() string {
	d := os.Getenv("VERIF_OUT")
	if d == "" {
		d = os.TempDir()
	}
	return d
}

// Budget is the wall-clock budget of this process.
func Budget() time.Duration {
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			return d
		}
	}
	return 60 * time.Second
}

// Thorough tells whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Run checks one property.
func Run[P any](t *testing.T, id string, gen func(*rapid.T) P, run func(t *testing.T, p P) (Case, error)) {
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		data, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		var p P
		var wrap struct {
			Plan json.RawMessage `json:"plan"`
		}
		if json.Unmarshal(data, &wrap) == nil && len(wrap.Plan) > 0 {
			data = wrap.Plan
		}
		if err := json.Unmarshal(data, &p); err != nil {
			t.Fatal(err)
		}
		c, err := guard(t, run, p)
		t.Logf("classes: %v nontrivial: %v known: %v", c.Classes, c.Nontrivial, c.Known)
		if err != nil {
			t.Fatalf("REPLAY FAILS: %v", err)
		}
		t.Log("REPLAY PASSES")
		return
	}
	sh := &shard{Property: id, Classes: map[string]int{}, Known: map[string]int{}, Samples: []any{}, Hashes: []uint64{}}
	seen := map[uint64]bool{}
	var mu sync.Mutex
	start := time.Now()
	budget := Budget()
	current := filepath.Join(outDir(), "current.json")
	write := func() {
		mu.Lock()
		defer mu.Unlock()
		sh.WallS = time.Since(start).Seconds()
		data, err := json.Marshal(sh)
		if err != nil {
			t.Errorf("marshal: %v", err)
			return
		}
		_ = os.WriteFile(filepath.Join(outDir(), "shard.json"), data, 0o644)
	}
	defer write()
	maxCases := 1 << 30
	if n, err := strconv.Atoi(os.Getenv("VERIF_CASES")); err == nil && n > 0 {
		maxCases = n
	}
	var base uint64 = 1
	if n, err := strconv.ParseUint(os.Getenv("VERIF_RSEED"), 10, 64); err == nil {
		base = n
	}
	var tt *testing.T
	minCases := 3 // even on a very slow machine
	prop := func(rt *rapid.T) {
		p := gen(rt)
		if sh.Violation == "" && (sh.Evaluations >= maxCases || time.Since(start) > budget && sh.Evaluations >= minCases) {
			sh.Skipped++
			return
		}
		data, err := json.Marshal(p)
		if err != nil {
			rt.Fatalf("plan is not serialisable: %v", err)
		}
		// run what the replay file says, not the in-memory plan
		var q P
		if err := json.Unmarshal(data, &q); err != nil {
			rt.Fatalf("plan is not serialisable: %v", err)
		}
		_ = os.WriteFile(current, data, 0o644)
		c, err := guard(tt, run, q)
		sh.Evaluations++
		for _, k := range c.Classes {
			sh.Classes[k]++
		}
		if c.Known != "" {
			sh.Known[c.Known]++
		}
		if c.Nontrivial {
			sh.Nontrivial++
			h := fnv.New64a()
			h.Write(data)
			if x := h.Sum64(); !seen[x] {
				seen[x] = true
				sh.Hashes = append(sh.Hashes, x)
				if len(sh.Samples) < 2 && len(data) < 6000 {
					sh.Samples = append(sh.Samples, json.RawMessage(data))
				}
			}
		}
		if err != nil {
			if errors.Is(err, ErrInconclusive) {
				sh.Inconclusive = err.Error()
				sh.InconclusiveN++
				return
			}
			sh.Violation = err.Error()
			sh.Plan = json.RawMessage(data)
			write()
			rt.Fatalf("%v", err)
		}
	}
	if f := flag.Lookup("rapid.nofailfile"); f != nil {
		_ = f.Value.Set("true")
	}
	if f := flag.Lookup("rapid.shrinktime"); f != nil {
		_ = f.Value.Set(ShrinkTime.String())
	}
	batch := 0
	for sh.Violation == "" && sh.Evaluations < maxCases && (time.Since(start) < budget || sh.Evaluations < minCases) {
		size := 16
		if sh.Evaluations > 500 {
			size = 100
		}
		_ = flag.Set("rapid.checks", strconv.Itoa(size))
		_ = flag.Set("rapid.seed", strconv.FormatUint(base+uint64(batch)*15485863, 10))
		batch++
		t.Run("batch", func(t *testing.T) {
			tt = t
			rapid.Check(t, prop)
		})
		if t.Failed() && sh.Violation == "" {
			break // harness problem
		}
		write()
	}
	_ = os.Remove(current)
}

// Uni draws a number in [0,n) almost uniformly (rapid prefers small numbers).
func Uni(t *rapid.T, name string, n int) int {
	x, m := 0, 1
	for m < n || m < 8*n && n > 4 {
		x = x*4 + rapid.IntRange(0, 3).Draw(t, name)
		m *= 4
	}
	return x * n / m
}

// ShrinkTime bounds the minimisation of a failing case.
var ShrinkTime = 20 * time.Second

func guard[P any](t *testing.T, run func(t *testing.T, p P) (Case, error), p P) (c Case, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return run(t, p)
}

func trimStack(s string) string {
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

// ErrLeak is returned by Bubble when goroutines remained blocked at the end.
var ErrLeak = errors.New("goroutines left blocked")

func bubbleStacks(s string) string {
	var r []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(strings.SplitN(g, "\n", 2)[0], "synctest bubble") {
			r = append(r, g)
		}
	}
	return trimStack(strings.Join(r, "\n\n"))
}

// Bubble runs f in virtual time.
func Bubble(t *testing.T, f func() error) (err error) {
	done := false
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if done && strings.Contains(msg, "deadlock") {
				if err == nil {
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					err = fmt.Errorf("%w: %s\n%s", ErrLeak, msg, bubbleStacks(string(buf)))
				}
				return
			}
			if strings.Contains(msg, "deadlock") {
				err = fmt.Errorf("deadlock in virtual time: %s", msg)
				return
			}
			panic(r)
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
		}()
		err = f()
		done = true
	})
	return err
}
