// Package mon holds the runtime monitors. It is compiled as a test binary so
// that testing/synctest is available; VMON selects the monitor to run and the
// observations are written as JSON to VMON_OUT.
package mon

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

type monitor func(c *Ctx)

var monitors = map[string]monitor{}

func register(name string, f monitor) { monitors[name] = f }

// Violation is one refutation of a property, with the case that shows it.
type Violation struct {
	What   string `json:"what"`
	Detail any    `json:"detail,omitempty"`
}

// Finding is a refutation that may be listed in KNOWN_FINDINGS.txt; if it is not,
// check.py reports a violation.
type Finding struct {
	What  string `json:"what"`
	Times int    `json:"times"`
}

// Ctx carries the seed, the tier and what a monitor observed.
type Ctx struct {
	T       *testing.T
	Seed    int64
	Scale   int // 1 quick, more for thorough
	Variant string
	Dir     string // scratch directory of this run

	mu         sync.Mutex
	evals      int64
	distinct   map[uint64]struct{}
	counts     map[string]int64
	samples    []any
	violations []Violation
	nviol      int
	findings   map[string]*Finding
	notes      []string
	progress   int64
}

func (c *Ctx) Rand(stream string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", c.Seed, stream)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Eval counts one evaluated case; key identifies it, "" means trivial.
func (c *Ctx) Eval(key string) {
	c.mu.Lock()
	c.evals++
	if key != "" && len(c.distinct) < 2000000 {
		h := fnv.New64a()
		h.Write([]byte(key))
		c.distinct[h.Sum64()] = struct{}{}
	}
	c.mu.Unlock()
}

func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.counts[name] += int64(n)
	c.mu.Unlock()
}

func (c *Ctx) Max(name string, n int) {
	c.mu.Lock()
	if int64(n) > c.counts[name] {
		c.counts[name] = int64(n)
	}
	c.mu.Unlock()
}

func (c *Ctx) Get(name string) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.counts[name]
}

func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 4 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *Ctx) Note(format string, a ...any) {
	c.mu.Lock()
	c.notes = append(c.notes, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}

func (c *Ctx) Violate(detail any, format string, a ...any) {
	c.mu.Lock()
	c.nviol++
	few := len(c.violations) < 10
	if few {
		c.violations = append(c.violations, Violation{What: fmt.Sprintf(format, a...), Detail: detail})
	}
	c.mu.Unlock()
	if few {
		c.save(false, false) // in case the monitor does not come to its end
	}
}

// Known records a refutation that has a name.
func (c *Ctx) Known(name, format string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.findings == nil {
		c.findings = map[string]*Finding{}
	}
	if c.findings[name] == nil {
		c.findings[name] = &Finding{What: fmt.Sprintf(format, a...)}
	}
	c.findings[name].Times++
}

func (c *Ctx) Violated() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.nviol > 0
}

// TooMany stops a monitor early once enough refutations are on record.
func (c *Ctx) TooMany() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.nviol >= 5
}

// Flush writes the result file; done tells whether the monitor completed.
func (c *Ctx) Flush(done bool) { c.save(done, true) }

func (c *Ctx) save(done, details bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	violations := c.violations
	if !details { // they may still be changing
		violations = nil
		for _, v := range c.violations {
			if _, ok := v.Detail.(string); !ok {
				v.Detail = nil
			}
			violations = append(violations, v)
		}
	}
	out := map[string]any{
		"done":        done,
		"evaluations": c.evals,
		"distinct":    len(c.distinct),
		"counts":      c.counts,
		"samples":     c.samples,
		"violations":  violations,
		"nviol":       c.nviol,
		"findings":    c.findings,
		"notes":       c.notes,
	}
	b, err := json.Marshal(out)
	if err != nil {
		b, _ = json.Marshal(map[string]any{"done": false, "error": err.Error()})
	}
	path := os.Getenv("VMON_OUT")
	if path == "" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	os.WriteFile(path+".part", b, 0644)
	os.Rename(path+".part", path)
}

// Inconclusive ends the run without a verdict.
func (c *Ctx) Inconclusive(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "INCONCLUSIVE: "+format+"\n", a...)
	c.Note("inconclusive: "+format, a...)
	c.Flush(false)
	os.Exit(3)
}

// WaitOrStuck waits for done. Expiry of the generous limit is a violation only
// when goroutines of the tracker stay blocked on a mutex, else inconclusive.
func (c *Ctx) WaitOrStuck(done <-chan struct{}, what string) {
	select {
	case <-done:
		return
	case <-time.After(90 * time.Second):
	}
	// blocked in the same way at every one of four looks
	stuck, seen := stuckStacks(), 0
	for look := 1; look < 12; look++ {
		select {
		case <-done:
			return
		case <-time.After(15 * time.Second):
		}
		now := stuckStacks()
		var both []string
		for id, s := range stuck {
			if now[id] == s {
				both = append(both, s)
			} else {
				delete(stuck, id)
			}
		}
		if len(both) == 0 {
			stuck, seen = now, 0
			continue
		}
		if seen++; seen == 3 {
			c.Violate(both, "%s: tracker goroutines are blocked on locks for good", what)
			c.Flush(true)
			os.Exit(0)
		}
	}
	buf := make([]byte, 1<<20)
	os.Stderr.Write(buf[:runtime.Stack(buf, true)])
	c.Inconclusive("%s did not finish in time", what)
}

func stuckStacks() map[string]string {
	buf := make([]byte, 16<<20)
	buf = buf[:runtime.Stack(buf, true)]
	res := map[string]string{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if !strings.Contains(g, "crimist/trakx/") {
			continue
		}
		if strings.Contains(head, "sync.Mutex.Lock") || strings.Contains(head, "sync.RWMutex") || strings.Contains(head, "semacquire") {
			id := strings.Fields(head)[1]
			_, rest, _ := strings.Cut(g, "\n")
			res[id] = rest
		}
	}
	return res
}

func TestMon(t *testing.T) {
	name := os.Getenv("VMON")
	if name == "" {
		t.Skip("VMON not set")
	}
	f, ok := monitors[name]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown monitor", name)
		os.Exit(3)
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	scale, _ := strconv.Atoi(os.Getenv("VMON_SCALE"))
	if scale < 1 {
		scale = 1
	}
	dir := os.Getenv("VMON_DIR")
	if dir == "" {
		dir = t.TempDir()
	}
	c := &Ctx{T: t, Seed: seed, Scale: scale, Variant: os.Getenv("VMON_VARIANT"), Dir: dir,
		distinct: map[uint64]struct{}{}, counts: map[string]int64{}}
	baseConfig()
	f(c)
	c.Flush(true)
	os.Exit(0) // goroutines of the tracker never end
}

func hx(b []byte) string { return hex.EncodeToString(b) }

func scratch(c *Ctx, name string) string {
	p := filepath.Join(c.Dir, name)
	os.MkdirAll(p, 0755)
	return p
}

func must(c *Ctx, err error, what string) {
	if err != nil {
		c.Inconclusive("%s: %v", what, err)
	}
}
