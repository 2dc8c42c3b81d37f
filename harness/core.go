package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Kind is one family of cases: case i of a kind is determined by (seed, property, kind, i) alone.
type Kind struct {
	Name   string
	N, TN  int // number of cases in the quick and the thorough tier
	Run    func(c *Ctx)
	Serial bool // cases run one at a time with nothing else running (allocation or global state is observed)
}

// Prop is a property with the cases and monitors that decide it.
type Prop struct {
	ID    string
	Rule  string
	Race  bool // the child is built with the race detector
	Kinds []Kind
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// failure is one observed violation.
type failure struct {
	Sig   string `json:"sig"`
	Msg   string `json:"msg"`
	Kind  string `json:"kind"`
	Index int    `json:"index"`
	Timed bool   `json:"timed,omitempty"` // decided by a timeout: counts only when it repeats
}

// result is what a child reports.
type result struct {
	Evals    int64             `json:"evals"`
	Cases    int64             `json:"cases"`
	Distinct int64             `json:"distinct"`
	Counts   map[string]int64  `json:"counts"`
	Samples  []string          `json:"samples"`
	Failures []failure         `json:"failures"`
	Done     bool              `json:"done"`
	Extra    map[string]string `json:"extra,omitempty"`
}

type worker struct {
	id     int
	evals  int64
	cases  int64
	nt     map[uint64]struct{}
	counts map[string]int64
	start  atomic.Int64 // unix nano of the current case, 0 when idle
	cur    atomic.Pointer[curCase]
}

type curCase struct {
	kind  string
	index int
}

type runner struct {
	prop      *Prop
	seed      uint64
	thor      bool
	mu        sync.Mutex
	fails     map[string]failure
	firstFail time.Time
	ntimed    int
	nfail     int
	samples   []string
	sampled   map[string]int
	journal   *os.File
	workers   []*worker
	stop      atomic.Bool
}

// Ctx is the context of one running case.
type Ctx struct {
	*Rand
	r    *runner
	w    *worker
	K    *Kind
	Idx  int
	Thor bool
	note func() string
}

type abortCase struct{}

func (r *runner) record(f failure) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.nfail++
	if old, ok := r.fails[f.Sig]; !ok || (old.Kind == f.Kind && f.Index < old.Index) {
		if ok || len(r.fails) < 200 {
			r.fails[f.Sig] = f
		}
	}
	if f.Timed {
		r.ntimed++
	}
	if r.firstFail.IsZero() {
		r.firstFail = time.Now()
	}
	// enough is known: do not spend the whole budget on a broken tree
	if r.nfail > 2000 || r.ntimed >= 6 || time.Since(r.firstFail) > 2*time.Minute {
		r.stop.Store(true)
	}
	// (development: stop at the first failure whose signature is not in the list)
	if v := os.Getenv("VERIF_FAST"); v != "" && !strings.Contains(v, ","+f.Sig+",") {
		r.stop.Store(true)
	}
}

// Fail records a violation of the property and ends the case.
func (c *Ctx) Fail(sig, format string, args ...interface{}) {
	c.Soft(sig, format, args...)
	panic(abortCase{})
}

// Soft records a violation and goes on with the case.
func (c *Ctx) Soft(sig, format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	if c.note != nil {
		msg += " | " + c.note()
	}
	if len(msg) > 6000 {
		msg = msg[:6000] + "..."
	}
	c.r.record(failure{Sig: sig, Msg: msg, Kind: c.K.Name, Index: c.Idx})
}

// TimedFail records a violation that was decided by a timeout.
func (c *Ctx) TimedFail(sig, format string, args ...interface{}) {
	c.r.record(failure{Sig: sig, Msg: fmt.Sprintf(format, args...), Kind: c.K.Name, Index: c.Idx, Timed: true})
	panic(abortCase{})
}

// Check fails the case unless ok.
func (c *Ctx) Check(ok bool, sig, format string, args ...interface{}) {
	c.w.evals++
	if !ok {
		c.Fail(sig, format, args...)
	}
}

// Note sets a description of the case's input, added to failure messages.
func (c *Ctx) Note(f func() string) { c.note = f }

// Eval counts n oracle evaluations.
func (c *Ctx) Eval(n int) { c.w.evals += int64(n) }

// Count counts an observed event.
func (c *Ctx) Count(name string) { c.w.counts[name]++ }

// CountN counts n observed events.
func (c *Ctx) CountN(name string, n int) { c.w.counts[name] += int64(n) }

// NT registers a distinct non-trivial case.
func (c *Ctx) NT(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprint(h, v)
		}
		h.Write([]byte{0xfe, 0x01})
	}
	if len(c.w.nt) < 1<<20 {
		c.w.nt[h.Sum64()] = struct{}{}
	}
}

// Sample keeps a few written-out cases per kind for the evidence.
func (c *Ctx) Sample(format string, args ...interface{}) {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	if c.r.sampled[c.K.Name] >= 2 {
		return
	}
	c.r.sampled[c.K.Name]++
	s := fmt.Sprintf(format, args...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	c.r.samples = append(c.r.samples, fmt.Sprintf("%s[%d]: %s", c.K.Name, c.Idx, s))
}

// NoPanic runs f, turning a panic into a violation.
func (c *Ctx) NoPanic(sig string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortCase); ok {
				panic(e)
			}
			c.Fail(sig, "panic: %v at %s", e, panicSite(string(debug.Stack())))
		}
	}()
	f()
}

// panicSite returns the innermost frame of the library (or else of the harness) in a stack.
func panicSite(stack string) string {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i
		}
	}
	for _, want := range []string{"github.com/keyfuse/tokucore/", "main."} {
		for i := start; i < len(lines); i++ {
			if strings.HasPrefix(lines[i], want) {
				fn := lines[i]
				if k := strings.LastIndex(fn, "("); k > 0 {
					fn = fn[:k]
				}
				return fn
			}
		}
	}
	return "?"
}

func seedFor(seed uint64, prop, kind string, idx int) uint64 {
	h := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], seed)
	h.Write(b[:])
	h.Write([]byte(prop))
	h.Write([]byte{0})
	h.Write([]byte(kind))
	binary.LittleEndian.PutUint64(b[:], uint64(idx))
	h.Write(b[:])
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

// runCase runs one case on a worker.
func (r *runner) runCase(w *worker, k *Kind, idx int) {
	c := &Ctx{Rand: newRand(seedFor(r.seed, r.prop.ID, k.Name, idx)), r: r, w: w, K: k, Idx: idx, Thor: r.thor}
	w.cases++
	w.cur.Store(&curCase{k.Name, idx})
	w.start.Store(time.Now().UnixNano())
	if r.journal != nil {
		var b [64]byte
		copy(b[:], fmt.Sprintf("%s:%d\n", k.Name, idx))
		r.journal.WriteAt(b[:], int64(w.id)*64)
	}
	defer func() {
		w.start.Store(0)
		if r.journal != nil {
			var b [64]byte
			r.journal.WriteAt(b[:], int64(w.id)*64)
		}
		if e := recover(); e != nil {
			if _, ok := e.(abortCase); ok {
				return
			}
			site := panicSite(string(debug.Stack()))
			msg := fmt.Sprintf("panic: %v at %s", e, site)
			if c.note != nil {
				msg += " | " + c.note()
			}
			if os.Getenv("VERIF_STACK") != "" {
				msg += "\n" + string(debug.Stack())
			}
			r.record(failure{Sig: "panic:" + site, Msg: msg, Kind: k.Name, Index: idx})
		}
	}()
	k.Run(c)
}

func (r *runner) newWorker(id int) *worker {
	return &worker{id: id, nt: map[uint64]struct{}{}, counts: map[string]int64{}}
}

const nworkers = 8

// run runs all kinds (or only the given case) and returns the result.
func (r *runner) run(only string) *result {
	r.fails = map[string]failure{}
	r.sampled = map[string]int{}
	for i := 0; i < nworkers; i++ {
		r.workers = append(r.workers, r.newWorker(i))
	}
	go r.watchdog()
	if kind, ok := strings.CutSuffix(only, ":*"); only != "" && !ok {
		var kn string
		var idx int
		i := strings.LastIndex(only, ":")
		kn = only[:i]
		fmt.Sscanf(only[i+1:], "%d", &idx)
		for i := range r.prop.Kinds {
			if r.prop.Kinds[i].Name == kn {
				r.runCase(r.workers[0], &r.prop.Kinds[i], idx)
			}
		}
	} else {
		for i := range r.prop.Kinds {
			k := &r.prop.Kinds[i]
			if ok && k.Name != kind {
				continue
			}
			n := k.N
			if r.thor {
				n = k.TN
				if n == 0 {
					n = k.N * 10
				}
			}
			t0 := time.Now()
			if k.Serial {
				runtime.GC()
				for j := 0; j < n && !r.stop.Load(); j++ {
					r.runCase(r.workers[0], k, j)
				}
			} else {
				var next atomic.Int64
				var wg sync.WaitGroup
				for _, w := range r.workers {
					wg.Add(1)
					go func(w *worker) {
						defer wg.Done()
						for !r.stop.Load() {
							j := int(next.Add(1)) - 1
							if j >= n {
								return
							}
							r.runCase(w, k, j)
						}
					}(w)
				}
				wg.Wait()
			}
			if os.Getenv("VERIF_TIMES") != "" {
				fmt.Fprintf(os.Stderr, "%s %s: %d cases %.2fs\n", r.prop.ID, k.Name, n, time.Since(t0).Seconds())
			}
		}
	}
	res := &result{Counts: map[string]int64{}, Done: true}
	nt := map[uint64]struct{}{}
	for _, w := range r.workers {
		res.Evals += w.evals
		res.Cases += w.cases
		for k := range w.nt {
			nt[k] = struct{}{}
		}
		for k, v := range w.counts {
			res.Counts[k] += v
		}
	}
	res.Distinct = int64(len(nt))
	res.Samples = r.samples
	r.mu.Lock()
	for _, f := range r.fails {
		res.Failures = append(res.Failures, f)
	}
	r.mu.Unlock()
	sort.Slice(res.Failures, func(i, j int) bool { return res.Failures[i].Sig < res.Failures[j].Sig })
	return res
}

var caseLimit = 60 * time.Second

// watchdog ends the process when one case runs far too long; the parent then reruns that case alone.
func (r *runner) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		now := time.Now().UnixNano()
		for _, w := range r.workers {
			s := w.start.Load()
			if s != 0 && now-s > int64(caseLimit) {
				cc := w.cur.Load()
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "HANG %s:%d\n%s\n", cc.kind, cc.index, buf)
				os.Exit(3)
			}
		}
	}
}

func hx(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%s...(%d bytes)", hex.EncodeToString(b[:400]), len(b))
	}
	return hex.EncodeToString(b)
}
