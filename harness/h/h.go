// Package h runs one property's bounded checks of the real code against an
// independent oracle: the stand-in for what is outside the verifier's reach,
// and the replay of a failed obligation with a concrete input.
package h

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Failure is one input on which the real code breaks the property.
type Failure struct {
	Check  string // which rule was broken
	Key    string // stable identification of the failing case (for known findings)
	Input  string // the concrete input
	Detail string // expected and observed
}

// Report is what a run covered.
type Report struct {
	Property    string
	Seed        int64
	Tier        string
	Evaluations int
	Distinct    int
	Checks      map[string]int
	Samples     []string
	Failures    []Failure
	Wall        float64
	Capped      bool
}

// T is one run.
type T struct {
	R        *rand.Rand
	Thorough bool
	rep      Report
	seen     map[uint64]bool
	start    time.Time
	budget   time.Duration
	cur      atomic.Value
	out      string
	maxCase  time.Duration
}

type curCase struct {
	check, key, input string
	at                time.Time
}

// Main runs f and writes the report to the file named by the first argument.
func Main(prop string, f func(t *T)) {
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	tier := os.Getenv("VERIF_TIER")
	t := &T{R: rand.New(rand.NewSource(seed)), Thorough: tier == "thorough", seen: map[uint64]bool{}, start: time.Now(), maxCase: 60 * time.Second}
	t.budget = 25 * time.Second
	if t.Thorough {
		t.budget = 240 * time.Second
	}
	t.rep = Report{Property: prop, Seed: seed, Tier: tier, Checks: map[string]int{}}
	t.out = "/dev/stdout"
	if len(os.Args) > 1 {
		t.out = os.Args[1]
	}
	debug.SetGCPercent(200)
	go t.watch()
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.fail("harness", "panic", "", fmt.Sprintf("panic outside a case: %v\n%s", r, debug.Stack()))
			}
		}()
		f(t)
	}()
	t.finish()
}

func (t *T) finish() {
	t.rep.Distinct = len(t.seen)
	t.rep.Wall = time.Since(t.start).Seconds()
	b, _ := json.MarshalIndent(t.rep, "", " ")
	if err := os.WriteFile(t.out, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Exit(0)
}

func (t *T) watch() {
	for {
		time.Sleep(500 * time.Millisecond)
		c, ok := t.cur.Load().(curCase)
		if ok && c.check != "" && time.Since(c.at) > t.maxCase {
			t.rep.Failures = append(t.rep.Failures, Failure{c.check, c.key, c.input, fmt.Sprintf("did not terminate within %v", t.maxCase)})
			t.finish()
		}
	}
}

// Time says whether the share (0..1) of the time budget counted from the start
// of the run is not used up yet.
func (t *T) Time(share float64) bool {
	return time.Since(t.start) < time.Duration(float64(t.budget)*share)
}

// N scales an iteration count with the tier.
func (t *T) N(n int) int {
	if t.Thorough {
		return n * 10
	}
	return n
}

func (t *T) fail(check, key, input, detail string) {
	n := 0
	for _, f := range t.rep.Failures {
		if f.Check == check {
			n++
			if f.Key == key {
				return
			}
		}
	}
	if n >= 4 {
		return
	}
	if len(input) > 6000 {
		input = input[:6000] + "..."
	}
	if len(detail) > 3000 {
		detail = detail[:3000] + "..."
	}
	t.rep.Failures = append(t.rep.Failures, Failure{check, key, input, detail})
}

// Case runs one input. f returns "" when the property held, otherwise what was
// wrong. A panic is a failure.
func (t *T) Case(check, input string, f func() string) {
	t.CaseKey(check, "", input, f)
}

// CaseKey is Case with a stable key for the kind of input.
func (t *T) CaseKey(check, key, input string, f func() string) {
	t.rep.Evaluations++
	t.rep.Checks[check]++
	hh := fnv.New64a()
	hh.Write([]byte(check))
	hh.Write([]byte(input))
	id := hh.Sum64()
	if !t.seen[id] {
		t.seen[id] = true
		if t.rep.Checks[check] == 3 && len(t.rep.Samples) < 12 {
			s := input
			if len(s) > 300 {
				s = s[:300] + "..."
			}
			t.rep.Samples = append(t.rep.Samples, check+": "+s)
		}
	}
	t.cur.Store(curCase{check, key, input, time.Now()})
	defer t.cur.Store(curCase{})
	defer func() {
		if r := recover(); r != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			var keep []string
			for _, l := range st {
				if strings.Contains(l, "tokucore") && !strings.Contains(l, "zzverif") {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			if len(keep) > 10 {
				keep = keep[:10]
			}
			t.fail(check, key, input, fmt.Sprintf("panic: %v\n%s", r, strings.Join(keep, "\n")))
		}
	}()
	if msg := f(); msg != "" {
		t.fail(check, key, input, msg)
	}
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}

// Bytes returns n random bytes, sometimes from a small alphabet of corner values.
func (t *T) Bytes(n int) []byte {
	b := make([]byte, n)
	switch t.R.Intn(4) {
	case 0:
		c := []byte{0, 1, 0x7f, 0x80, 0xff, 0xfd, 0xfe, 0x81}
		for i := range b {
			b[i] = c[t.R.Intn(len(c))]
		}
	case 1:
		for i := range b {
			b[i] = byte(t.R.Intn(256))
		}
		for i := 0; i < n && i < t.R.Intn(4); i++ {
			b[i] = 0
		}
	default:
		for i := range b {
			b[i] = byte(t.R.Intn(256))
		}
	}
	return b
}

// Len picks a length with emphasis on small ones and on the given corners.
func (t *T) Len(max int, corners ...int) int {
	if len(corners) > 0 && t.R.Intn(3) == 0 {
		return corners[t.R.Intn(len(corners))]
	}
	if t.R.Intn(2) == 0 {
		if max > 8 {
			max = 8
		}
	}
	return t.R.Intn(max + 1)
}

// U64 picks a corner-heavy 64-bit value.
func (t *T) U64() uint64 {
	switch t.R.Intn(4) {
	case 0:
		c := []uint64{0, 1, 2, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1}
		return c[t.R.Intn(len(c))]
	case 1:
		return uint64(1)<<uint(t.R.Intn(64)) + uint64(t.R.Intn(3)) - 1
	case 2:
		return t.R.Uint64() >> uint(t.R.Intn(64))
	}
	return t.R.Uint64()
}

// Hex formats bytes.
func Hex(b []byte) string { return fmt.Sprintf("%x", b) }
