package main

import (
	"fmt"
	"runtime/debug"
	"sync"
	"time"
)

// The cases of the other properties reach the branches of the library that the operations of the catalogue seldom take:
// failing decoders, refused arguments, the limits.  C30 runs them again under the race detector, the same cases at the same time
// in several goroutines, each with objects of its own.  What they find wrong by themselves is not C30's business: only
// races count, and failures of a case that passes alone.

type pathKind struct {
	prop string
	k    *Kind
}

var pathOnce sync.Once
var pathList []pathKind

func pathKinds() []pathKind {
	pathOnce.Do(func() {
		skip := map[string]bool{"large": true, "long": true, "silent": true, "sweep": true, "socket": true, "big": true, "pbkdf2long": true,
			"chinese": true, "japanese": true, "custom": true}
		for i := 1; i <= len(props); i++ {
			id := fmt.Sprintf("C%02d", i)
			p := props[id]
			if p == nil || (id >= "C28" && id <= "C31") {
				continue
			}
			for j := range p.Kinds {
				if k := &p.Kinds[j]; !k.Serial && !skip[k.Name] {
					pathList = append(pathList, pathKind{id, k})
				}
			}
		}
	})
	return pathList
}

// muted runs one case of another property by itself and returns what it found.
func muted(seed uint64, p pathKind, idx int, w *worker) (out *failure) {
	r := &runner{prop: props[p.prop], seed: seed, fails: map[string]failure{}, sampled: map[string]int{p.k.Name: 2}}
	c := &Ctx{Rand: newRand(seedFor(seed, p.prop, p.k.Name, idx)), r: r, w: w, K: p.k, Idx: idx}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abortCase); !ok {
				out = &failure{Sig: "panic", Msg: fmt.Sprintf("panic: %v at %s", e, panicSite(string(debug.Stack())))}
				return
			}
		}
		for _, f := range r.fails {
			if !f.Timed {
				f := f
				out = &f
			}
		}
	}()
	p.k.Run(c)
	return
}

func c30paths(c *Ctx) {
	l := pathKinds()
	p := l[c.Idx%len(l)]
	const lanes = 6
	seed, base := c.U64(), c.N(p.k.N)
	// cheap cases go on for a while, dear ones until there are a few
	short, long, few := 250*time.Millisecond, 800*time.Millisecond, 10
	if c.Thor {
		short, long, few = time.Second, 10*time.Second, 100
	}
	c.Note(func() string { return fmt.Sprintf("cases of %s %s from %d", p.prop, p.k.Name, base) })
	var fs []func()
	var done [lanes]int
	var ws [lanes]*worker
	var bad [lanes]map[int]*failure
	for g := 0; g < lanes; g++ {
		g := g
		ws[g] = c.r.newWorker(g)
		bad[g] = map[int]*failure{}
		fs = append(fs, func() {
			from := time.Now()
			more := func(n int) bool {
				t := time.Since(from)
				return n == 0 || t < short && n < 20000 || t < long && n < few
			}
			for ; more(done[g]); done[g]++ {
				if f := muted(seed, p, (base+done[g])%p.k.N, ws[g]); f != nil && len(bad[g]) < 3 {
					bad[g][(base+done[g])%p.k.N] = f
				}
			}
		})
	}
	together(c, fs)
	for g := range bad {
		c.Eval(int(ws[g].evals))
		c.CountN("cases of other properties at once", done[g])
		if p.prop == "C27" || p.k.Name == "rpc" {
			continue // these wait for a peer: only races are judged
		}
		for idx, f := range bad[g] {
			alone := true
			for i := 0; i < 3 && alone; i++ {
				alone = muted(seed, p, idx, c.r.newWorker(0)) == nil
			}
			c.Check(!alone, "paths-differ", "case %d fails beside its like and passes alone: %s: %s", idx, f.Sig, f.Msg)
			c.Count("cases that fail alone too: " + f.Sig)
		}
	}
	c.NT(p.prop, p.k.Name, base)
	c.Sample("%d cases of %s %s in %d goroutines", done[0], p.prop, p.k.Name, lanes)
}
