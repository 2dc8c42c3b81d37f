package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	langs "github.com/keyfuse/tokucore/xcore/bip39/words"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/ripemd160"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"github.com/keyfuse/tokucore/xprotocol"
	"github.com/keyfuse/tokucore/xvm"
)

func init() {
	register(&Prop{
		ID:   "C31",
		Rule: "every operation of a catalogue of the public API is called several times, in random order and mixed with other operations, on arguments with spare capacity; after each call the arguments (and the bytes behind them) are compared with what they were, each answer with the first one, and at the end all values returned so far with how they looked when returned; non-trivial: distinct answers",
		Kinds: []Kind{
			{Name: "each", N: 4500, TN: 120000, Run: c31each},
			{Name: "mixed", N: 1000, TN: 30000, Run: c31mixed},
			{Name: "heavy", N: 8, TN: 60, Run: c31heavy},
		},
	})
	register(&Prop{
		ID:   "C30",
		Race: true,
		Rule: "operations of the catalogue run at once in many goroutines, each on objects of its own, on shared keys, curves, networks, word lists and arguments, as the first use of the library in a new process, while the word list is set, through one connection and through one RPC client, and the cases of the other properties (failing decoders, refused arguments, limits) run several at once, under the race detector; answers are compared with those given one at a time; non-trivial: distinct answers",
		Kinds: []Kind{
			{Name: "separate", N: 170, TN: 6000, Run: c30separate},
			{Name: "shared", N: 180, TN: 6000, Run: c30shared},
			{Name: "first", N: 80, TN: 800, Run: c30first},
			{Name: "wordlist", N: 20, TN: 200, Run: c30wordlist, Serial: true},
			{Name: "paths", N: 140, TN: 1400, Run: c30paths, Serial: true},
			{Name: "connection", N: 60, TN: 400, Run: c28shared},
			{Name: "traffic", N: 60, TN: 400, Run: c28traffic},
			{Name: "rpc", N: 12, TN: 100, Run: c29parallel},
		},
	})
}

func opsWhere(f func(*apiOp) bool) []*apiOp {
	var l []*apiOp
	for i := range apiOps {
		if f(&apiOps[i]) {
			l = append(l, &apiOps[i])
		}
	}
	return l
}

func pickOp(c *Ctx, l []*apiOp, i int) *apiOp { return l[i%len(l)] }

var lightOps = func() []*apiOp { return opsWhere(func(o *apiOp) bool { return !o.heavy }) }
var sharedOps = func() []*apiOp { return opsWhere(func(o *apiOp) bool { return !o.heavy && o.shared }) }

// use is one made operation with what it has answered.
type use struct {
	op    *apiOp
	a     *args
	reads []read
	first []string
	kept  []keptVal
}

type keptVal struct {
	name string
	v    []interface{}
	was  string
}

func (c *Ctx) use(op *apiOp) *use {
	a := &args{r: c.Rand}
	u := &use{op: op, a: a}
	u.reads = op.make(c, a)
	u.first = make([]string, len(u.reads))
	if ch := a.changed(); ch != "" {
		c.Fail("args:"+op.name, "while the objects were made: %s", ch)
	}
	return u
}

func (u *use) call(c *Ctx, i int) {
	r := &u.reads[i]
	v := r.f()
	s := dumpDeep(v)
	c.Eval(1)
	for _, x := range v {
		if o, ok := x.(overwritten); ok {
			c.Fail("reuse:"+r.name, "%s: %s", r.name, string(o))
		}
	}
	if ch := u.a.changed(); ch != "" {
		c.Fail("args:"+r.name, "%s changed its arguments: %s", r.name, ch)
	}
	if u.first[i] == "" {
		u.first[i] = s
		u.kept = append(u.kept, keptVal{r.name, v, s})
		c.NT(r.name, s)
		c.Count(u.op.name)
	} else if !r.rnd {
		c.Check(u.first[i] == s, "repeat:"+r.name, "%s first gave %s and later %s", r.name, short(u.first[i]), short(s))
	}
}

// still checks that returned values are what they were.
func (u *use) still(c *Ctx) {
	for _, k := range u.kept {
		now := dumpDeep(k.v)
		c.Check(now == k.was, "kept:"+k.name, "what %s returned was %s and has become %s", k.name, short(k.was), short(now))
	}
}

func c31each(c *Ctx) {
	l := lightOps()
	u := c.use(pickOp(c, l, c.Idx))
	c.Note(func() string { return u.op.name })
	for round := 0; round < 3; round++ {
		for _, i := range c.Perm(len(u.reads)) {
			u.call(c, i)
		}
	}
	u.still(c)
	c.Sample("%s: %d operations, e.g. %s = %s", u.op.name, len(u.reads), u.reads[0].name, u.first[0])
}

func c31mixed(c *Ctx) {
	l := lightOps()
	var us []*use
	for n := c.Range(2, 4); n > 0; n-- {
		us = append(us, c.use(l[c.N(len(l))]))
	}
	if c.Bool() { // two of a kind
		us = append(us, c.use(us[0].op))
	}
	for n := 0; n < 40; n++ {
		u := us[c.N(len(us))]
		u.call(c, c.N(len(u.reads)))
	}
	for _, u := range us {
		u.still(c)
	}
	c.Sample("%s with %s, 40 calls", us[0].op.name, us[1].op.name)
}

func c31heavy(c *Ctx) {
	l := opsWhere(func(o *apiOp) bool { return o.heavy })
	u := c.use(pickOp(c, l, c.Idx))
	for round := 0; round < 2; round++ {
		for _, i := range c.Perm(len(u.reads)) {
			u.call(c, i)
		}
	}
	u.still(c)
}

// ---- C30 ----

// lane is the private context of a goroutine of a case.
func (c *Ctx) lane() *Ctx {
	s := *c
	s.Rand = newRand(c.U64())
	s.w = &worker{counts: map[string]int64{}, nt: map[uint64]struct{}{}}
	return &s
}

func (c *Ctx) twin(seed uint64) *Ctx {
	s := c.lane()
	s.Rand = newRand(seed)
	return s
}

// together starts the functions at once and waits for them; a panic is a violation.
func together(c *Ctx, fs []func()) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad []string
	start := make(chan struct{})
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					b := make([]byte, 1<<14)
					b = b[:runtime.Stack(b, false)]
					mu.Lock()
					if _, ok := e.(abortCase); !ok {
						bad = append(bad, fmt.Sprintf("panic: %v at %s", e, panicSite(string(b))))
					}
					mu.Unlock()
				}
			}()
			<-start
			f()
		}()
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(50 * time.Second):
		c.TimedFail("stuck", "goroutines did not end within 50 s")
	}
	if len(bad) > 0 {
		c.Fail("panic", "%s", bad[0])
	}
}

type laneRun struct {
	op   *apiOp
	seed uint64
	u    *use
	c    *Ctx
}

// run makes the objects (unless shared ones are given) and calls the operations some times in random order.
func (l *laneRun) run(shared *use, rounds int) {
	c := l.c
	if shared != nil {
		l.u = &use{op: shared.op, a: &args{r: c.Rand}, reads: shared.reads, first: make([]string, len(shared.reads))}
	} else {
		l.u = c.use(l.op)
	}
	for r := 0; r < rounds; r++ {
		for _, i := range c.Perm(len(l.u.reads)) {
			l.u.call(c, i)
			if c.P(3) {
				runtime.Gosched()
			}
		}
	}
}

// sequential compares the answers of a lane with those of a twin made and called alone.
func (l *laneRun) sequential(c *Ctx, shared *use) {
	t := shared
	if t == nil && !l.op.random {
		t = c.twin(l.seed).use(l.op)
	} else if t == nil {
		t = l.u
	}
	for i := range t.reads {
		if t.reads[i].rnd {
			continue
		}
		want := dumpDeep(t.reads[i].f())
		c.Check(l.u.first[i] == want, "concurrent:"+t.reads[i].name, "%s gave %s among other goroutines and %s alone", t.reads[i].name, short(l.u.first[i]), short(want))
	}
	l.u.still(c)
}

func runLanes(c *Ctx, lanes []*laneRun, shared *use, rounds int) {
	var fs []func()
	for _, l := range lanes {
		l := l
		fs = append(fs, func() { l.run(shared, rounds) })
	}
	together(c, fs)
	if c.failed(lanes) {
		panic(abortCase{})
	}
	for _, l := range lanes {
		l.sequential(c, shared)
		c.NT(l.op.name, strings.Join(l.u.first, " "))
		c.CountN("calls", len(l.u.reads)*rounds)
	}
	if shared != nil {
		if ch := shared.a.changed(); ch != "" {
			c.Fail("args:"+shared.op.name, "shared arguments changed: %s", ch)
		}
	}
}

// failed tells whether a lane ended early: it has already recorded why.
func (c *Ctx) failed(lanes []*laneRun) bool {
	for _, l := range lanes {
		if l.u == nil {
			return true
		}
		for _, s := range l.u.first {
			if s == "" {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) newLane(op *apiOp) *laneRun {
	seed := c.U64()
	return &laneRun{op: op, seed: seed, c: c.twin(seed)}
}

func c30separate(c *Ctx) {
	l := lightOps()
	same := c.Bool()
	op := pickOp(c, l, c.Idx)
	var lanes []*laneRun
	for n := c.Range(2, 6); n > 0; n-- {
		lanes = append(lanes, c.newLane(op))
		if !same {
			op = l[c.N(len(l))]
		}
	}
	var names []string
	for _, x := range lanes {
		names = append(names, x.op.name)
	}
	c.Note(func() string { return strings.Join(names, ", ") })
	runLanes(c, lanes, nil, 2)
	c.Sample("separate objects in %d goroutines: %s", len(lanes), strings.Join(names, ", "))
}

func c30shared(c *Ctx) {
	op := pickOp(c, sharedOps(), c.Idx)
	u := c.use(op)
	c.Note(func() string { return op.name })
	var lanes []*laneRun
	for n := c.Range(2, 6); n > 0; n-- {
		lanes = append(lanes, c.newLane(op))
	}
	runLanes(c, lanes, u, 3)
	c.Sample("%s shared by %d goroutines: %s", op.name, len(lanes), u.reads[0].name)
}

// c30first runs a new process whose first uses of the library are concurrent.
func c30first(c *Ctx) {
	l := lightOps()
	op := (c.Idx / 2) % (len(l) + 1)
	if op == len(l) {
		op = -1 // all kinds mixed
	}
	if c.Idx%2 == 1 {
		op = 1000 + (c.Idx/2)%(len(firstCalls)+1) // single calls, with nothing of the harness between them
	}
	cmd := exec.Command(os.Args[0], "-first", fmt.Sprintf("%d:%d", op, c.U64()))
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all")
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		c.Fail("start", "%v", err)
	}
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(55 * time.Second):
		cmd.Process.Kill()
		c.TimedFail("first-stuck", "a process whose first uses of the library are concurrent did not end")
	}
	s := out.String()
	c.Check(strings.HasPrefix(s, "ok "), "first-use", "first use in several goroutines: %s %s", short(s), crashSummary(er.String()))
	c.NT(s)
	c.CountN("first uses", 1)
	c.Sample("new process, %s", strings.TrimSpace(s))
}

// firstCalls are calls with constant arguments; the harness does nothing before or between them.
var firstCalls = []func() []interface{}{
	func() []interface{} { return vals(xcrypto.PrvKeyFromBytes(firstArg).PubKey().Serialize()) },
	func() []interface{} { x, y := secp256k1.SECP256K1().ScalarBaseMult(firstArg); return vals(x, y) },
	func() []interface{} {
		k, err := xcrypto.PubKeyFromBytes(firstPoint)
		return vals(k.Serialize(), okErr(err))
	},
	func() []interface{} {
		k := xcrypto.PrvKeyFromBytes(firstArg)
		s, err := xcrypto.EcdsaSign(k, firstArg)
		return vals(s, okErr(err), xcrypto.EcdsaVerify(k.PubKey(), firstArg, s) == nil)
	},
	func() []interface{} {
		k := xcrypto.PrvKeyFromBytes(firstArg)
		s, err := xcrypto.SchnorrSign(k, firstArg)
		return vals(s, okErr(err), xcrypto.SchnorrVerify(k.PubKey(), firstArg, s) == nil)
	},
	func() []interface{} {
		return vals(xbase.Base58Encode(firstArg), xbase.Base58Decode("1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa"))
	},
	func() []interface{} {
		s, err := xbase.WitnessEncode("bc", 0, firstArg[:20])
		h, d, err2 := xbase.Bech32Decode("bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4")
		return vals(s, okErr(err), h, d, okErr(err2))
	},
	func() []interface{} {
		a, err := xcore.DecodeAddress("1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa", network.MainNet)
		if err != nil {
			return vals(err.Error())
		}
		l, err := a.LockingScript()
		return vals(l, okErr(err), a.ToString(network.TestNet))
	},
	func() []interface{} {
		m, err := bip39.NewMnemonic(firstArg)
		i, ok := bip39.GetWordIndex("zoo")
		return vals(m, okErr(err), i, ok)
	},
	func() []interface{} {
		const m = "legal winner thank year wave sausage worth useful legal winner thank yellow"
		return vals(bip39.IsMnemonicValid(m), bip39.NewSeed(m, "x"))
	},
	func() []interface{} {
		k, err := bip32.NewHDKey(firstArg).DeriveByPath("m/0'/1")
		if err != nil {
			return vals(err.Error())
		}
		return vals(k.ToString(network.MainNet))
	},
	func() []interface{} {
		e := xvm.NewEngine()
		err := e.Verify([]byte{0x51, 0x52}, []byte{0x93, 0x53, 0x87})
		return vals(okErr(err), xvm.DisasmString(append([]byte{0x76, 0xa9, 0x20}, firstArg...)))
	},
	func() []interface{} {
		h := ripemd160.New()
		h.Write(firstArg)
		return vals(h.Sum(nil), xcrypto.Hash160(firstArg), xcrypto.DoubleSha256(firstArg))
	},
	func() []interface{} {
		tx := xcore.NewTransaction()
		err := tx.Deserialize(firstTx)
		return vals(okErr(err), tx.ID(), tx.Serialize(), tx.Vsize())
	},
	func() []interface{} {
		l, err := xcore.ParseLockingScript(append(append([]byte{0x76, 0xa9, 0x14}, firstArg[:20]...), 0x88, 0xac))
		if err != nil {
			return vals(err.Error())
		}
		return vals(l.GetAddress().ToString(network.MainNet))
	},
	func() []interface{} {
		m := xprotocol.NewMsgVersion(network.MainNet)
		m.Timestamp, m.Nonce = 1, 2
		var o xprotocol.MsgVersion
		err := o.Decode(m.Encode())
		return vals(o.Services, o.UserAgent, okErr(err))
	},
	func() []interface{} {
		m := &memConn{room: -1}
		err := xprotocol.NewStream(m, network.MainNet.Magic).WriteMessage(xprotocol.NewMsgPing(7))
		got, err2 := xprotocol.NewStream(&memConn{in: m.out, room: -1}, network.MainNet.Magic).ReadMessage()
		return vals(m.out, okErr(err), okErr(err2), got)
	},
	func() []interface{} {
		return vals(xvm.NewScriptBuilder().AddOp(0x51).AddInt64(1000).AddData(firstArg).Script())
	},
}

var (
	firstArg   = []byte("0123456789abcdef0123456789abcdef")
	firstPoint = append([]byte{2}, firstX...)
	firstX, _  = hex.DecodeString("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	firstTx, _ = hex.DecodeString("0100000001000000000000000000000000000000000000000000000000000000000000000001000000015100ffffff0100000000000000000151000000" + "00")
)

// firstDirect makes one call in many goroutines at once, and once again after them.
func firstDirect(c *Ctx, n int) {
	fs := firstCalls
	if n < len(fs) {
		fs = fs[n : n+1]
	}
	var out [24]string
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range out {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					out[i] = fmt.Sprint("panic: ", e)
				}
			}()
			<-start
			out[i] = dumpDeep(fs[i%len(fs)]())
		}(i)
	}
	close(start)
	wg.Wait()
	for i := range out {
		if want := dumpDeep(fs[i%len(fs)]()); out[i] != want {
			fmt.Printf("first call %d among others gives %s, later %s\n", n, out[i], want)
			return
		}
	}
	fmt.Printf("ok %d calls of entry %d: %s\n", len(out), n, short(out[0]))
}

// firstMain is the process of c30first.
func firstMain(arg string) {
	i := strings.Index(arg, ":")
	n, _ := strconv.Atoi(arg[:i])
	seed, _ := strconv.ParseUint(arg[i+1:], 10, 64)
	r := &runner{fails: map[string]failure{}, sampled: map[string]int{}}
	c := &Ctx{Rand: newRand(seed), r: r, K: &Kind{Name: "first"}, w: &worker{counts: map[string]int64{}, nt: map[uint64]struct{}{}}}
	l := lightOps()
	if n >= 1000 {
		firstDirect(c, n-1000)
		return
	}
	var lanes []*laneRun
	var names []string
	for k := 0; k < 8; k++ {
		op := l[c.N(len(l))]
		if n >= 0 {
			op = l[n]
		}
		lanes = append(lanes, c.newLane(op))
		names = append(names, op.name)
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abortCase); !ok {
					fmt.Println("panic:", e)
				}
			}
		}()
		runLanes(c, lanes, nil, 1)
	}()
	for _, f := range r.fails {
		fmt.Println(f.Sig, f.Msg)
	}
	if len(r.fails) == 0 {
		fmt.Printf("ok %s: %d answers\n", strings.Join(names, ", "), c.w.evals)
	}
}

// c30wordlist sets the word list in use again while mnemonics are made and read.
func c30wordlist(c *Ctx) {
	var op *apiOp
	for _, o := range lightOps() {
		if o.name == "mnemonic" {
			op = o
		}
	}
	lang := [][]string{langs.English, langs.Japanese, langs.Chinese}[c.N(3)]
	bip39.SetWordList(lang)
	defer bip39.SetWordList(langs.English)
	var lanes []*laneRun
	var fs []func()
	for k := 0; k < 4; k++ {
		x := c.newLane(op)
		lanes = append(lanes, x)
		fs = append(fs, func() { x.run(nil, 3) })
	}
	for k := 0; k < 2; k++ {
		fs = append(fs, func() {
			for i := 0; i < 5; i++ {
				bip39.SetWordList(lang)
				runtime.Gosched()
			}
		})
	}
	together(c, fs)
	if c.failed(lanes) {
		panic(abortCase{})
	}
	for _, x := range lanes {
		x.sequential(c, nil)
		c.NT(strings.Join(x.u.first, " "))
	}
	c.CountN("calls", 12*len(lanes[0].u.reads))
	c.Sample("mnemonics in 4 goroutines while 2 set the list: %s", lanes[0].u.first[0])
}
