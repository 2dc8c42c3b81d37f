package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type replayFile struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Index    int    `json:"index"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Sig      string `json:"sig"`
	Msg      string `json:"what"`
}

func main() {
	var (
		prop   = flag.String("prop", "", "property id")
		tier   = flag.String("tier", "quick", "quick or thorough")
		seed   = flag.Int64("seed", 1, "seed")
		child  = flag.Bool("child", false, "run the cases in this process")
		only   = flag.String("only", "", "kind:index")
		out    = flag.String("out", "", "result file of a child")
		jrn    = flag.String("journal", "", "journal file of a child")
		self   = flag.String("bin", "", "binary that runs the cases (default: this one)")
		verif  = flag.String("verif", "/verif", "verif directory")
		evid   = flag.String("evidence", "", "evidence directory")
		replay = flag.String("replay", "", "replay file")
		work   = flag.String("work", "", "scratch directory")
		list   = flag.Bool("list", false, "list the properties")
		first  = flag.String("first", "", "run the first uses of C30 in this process")
	)
	flag.Parse()
	log.SetOutput(io.Discard) // net/http tells of broken answers
	if *first != "" {
		firstMain(*first)
		return
	}
	if *list {
		var ids []string
		for id, p := range props {
			n := id
			if p.Race {
				n += " race"
			}
			ids = append(ids, n)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		fatal(err)
		var rf replayFile
		fatal(json.Unmarshal(b, &rf))
		*prop, *tier, *seed = rf.Property, rf.Tier, rf.Seed
		if rf.Kind != "" {
			*only = fmt.Sprintf("%s:%d", rf.Kind, rf.Index)
		}
	}
	p := props[*prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *prop)
		os.Exit(2)
	}
	if *child {
		runChild(p, *tier, uint64(*seed), *only, *out, *jrn)
		return
	}
	s := &supervisor{prop: p, tier: *tier, seed: *seed, bin: *self, verif: *verif, work: *work, evid: *evid}
	if s.evid == "" {
		s.evid = filepath.Join(*verif, "evidence")
	}
	if s.bin == "" {
		s.bin, _ = os.Executable()
	}
	os.Exit(s.run(*only))
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "error:", err)
		os.Exit(2)
	}
}

func runChild(p *Prop, tier string, seed uint64, only, out, jrn string) {
	debug.SetMaxStack(256 << 20)
	if !p.Race {
		// A runaway allocation must end this process, not the sandbox's memory.
		lim := syscall.Rlimit{Cur: 20 << 30, Max: 20 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetMemoryLimit(6 << 30)
	r := &runner{prop: p, seed: seed, thor: tier == "thorough"}
	if jrn != "" {
		f, err := os.OpenFile(jrn, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
		fatal(err)
		r.journal = f
	}
	res := r.run(only)
	b, err := json.Marshal(res)
	fatal(err)
	fatal(os.WriteFile(out, b, 0644))
}

type supervisor struct {
	prop     *Prop
	tier     string
	seed     int64
	bin      string
	verif    string
	evid     string
	work     string
	nrun     int
	repeated int
	races    map[string]string
}

type childRun struct {
	res    *result
	exit   int
	sig    string
	stderr string
	slots  []string
	killed bool
}

func (s *supervisor) child(only string, limit time.Duration) *childRun {
	s.nrun++
	base := filepath.Join(s.work, fmt.Sprintf("run%d", s.nrun))
	out, jrn, racelog := base+".json", base+".journal", base+".race"
	args := []string{"-child", "-prop", s.prop.ID, "-tier", s.tier, "-seed", strconv.FormatInt(s.seed, 10), "-out", out, "-journal", jrn}
	if only != "" {
		args = append(args, "-only", only)
	}
	cmd := exec.Command(s.bin, args...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+racelog, "GOTRACEBACK=all")
	var errb bytes.Buffer
	cmd.Stdout = nil // the library prints
	cmd.Stderr = &capped{b: &errb, max: 4 << 20}
	cr := &childRun{}
	fatal(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(limit):
		cr.killed = true
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			cmd.Process.Kill()
			<-done
		}
	}
	cr.exit = cmd.ProcessState.ExitCode()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		cr.sig = ws.Signal().String()
	}
	cr.stderr = errb.String()
	if os.Getenv("VERIF_TIMES") != "" {
		os.Stderr.WriteString(cr.stderr)
	}
	if b, err := os.ReadFile(out); err == nil {
		var r result
		if json.Unmarshal(b, &r) == nil {
			cr.res = &r
		}
	}
	if b, err := os.ReadFile(jrn); err == nil {
		for i := 0; i+64 <= len(b); i += 64 {
			slot := strings.TrimRight(string(b[i:i+64]), "\x00\n")
			if slot != "" {
				cr.slots = append(cr.slots, slot)
			}
		}
	}
	if s.prop.Race {
		s.collectRaces(racelog)
	}
	return cr
}

type capped struct {
	b   *bytes.Buffer
	max int
}

func (c *capped) Write(p []byte) (int, error) {
	if c.b.Len() < c.max {
		c.b.Write(p)
	}
	return len(p), nil
}

// collectRaces reads the reports of the race detector, keyed by the innermost library frames of both accesses.
func (s *supervisor) collectRaces(prefix string) {
	if s.races == nil {
		s.races = map[string]string{}
	}
	files, _ := filepath.Glob(prefix + ".*")
	frame := regexp.MustCompile(`^  (\S+)\(\)$`)
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			var fr []string
			inStack, found := false, false
			for _, l := range strings.Split(rep, "\n") {
				t := strings.TrimSpace(l)
				if strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous ") || strings.HasPrefix(t, "Atomic") {
					inStack, found = true, false
					continue
				}
				if strings.HasPrefix(t, "Goroutine ") {
					inStack = false
				}
				if m := frame.FindStringSubmatch(l); m != nil && inStack && !found && strings.Contains(m[1], "tokucore/") {
					fr = append(fr, m[1][strings.Index(m[1], "tokucore/"):])
					found = true
				}
			}
			sort.Strings(fr)
			key := "harness-only"
			if len(fr) > 0 {
				key = strings.Join(fr, " / ")
			}
			if _, ok := s.races[key]; !ok {
				s.races[key] = rep
			}
		}
	}
}

// repeats runs all cases of a kind once more and tells whether a timeout (of any of them) comes again:
// what needs an unusual schedule does not repeat with the case alone.
func (s *supervisor) repeats(kind, sig string) bool {
	if s.repeated >= 2 {
		return false
	}
	s.repeated++
	c := s.child(kind+":*", 240*time.Second)
	if c.res == nil || !c.res.Done {
		return strings.Contains(c.stderr, "HANG "+kind+":")
	}
	for _, f := range c.res.Failures {
		if f.Sig == sig || strings.HasPrefix(f.Sig, "hang") {
			return true
		}
	}
	return false
}

func (s *supervisor) run(only string) int {
	t0 := time.Now()
	if s.work == "" {
		d, err := os.MkdirTemp("", "verif")
		fatal(err)
		s.work = d
		defer os.RemoveAll(d)
	}
	limit := 600 * time.Second
	if s.tier == "thorough" {
		limit = 6 * time.Hour
	}
	if v := os.Getenv("VERIF_CHILD_LIMIT"); v != "" {
		n, _ := strconv.Atoi(v)
		limit = time.Duration(n) * time.Second
	}
	cr := s.child(only, limit)
	var fails []failure
	inconclusive := ""
	if cr.res != nil && cr.res.Done {
		for _, f := range cr.res.Failures {
			if f.Timed {
				// decided by a timeout: it counts when it happens again with the case running alone
				c2 := s.child(fmt.Sprintf("%s:%d", f.Kind, f.Index), 300*time.Second)
				again := false
				if c2.res != nil {
					for _, f2 := range c2.res.Failures {
						if f2.Sig == f.Sig {
							again = true
						}
					}
				} else {
					again = true
				}
				if !again {
					again = s.repeats(f.Kind, f.Sig)
				}
				if !again {
					inconclusive = "timeout of " + f.Kind + " did not repeat: " + f.Msg
					continue
				}
			}
			fails = append(fails, f)
		}
	} else {
		// The process died. Attribute it to a case by running the candidates alone.
		tail := crashSummary(cr.stderr)
		var cands []string
		if m := regexp.MustCompile(`(?m)^HANG (\S+)$`).FindStringSubmatch(cr.stderr); m != nil {
			cands = []string{m[1]}
		} else {
			cands = cr.slots
		}
		if only != "" {
			cands = []string{only}
		}
		for _, cand := range cands {
			c2 := s.child(cand, 150*time.Second)
			if c2.res != nil && c2.res.Done {
				if len(c2.res.Failures) > 0 {
					fails = append(fails, c2.res.Failures...)
				}
				continue
			}
			if c2.sig == "killed" && !c2.killed {
				inconclusive = "a child was killed from outside"
				continue
			}
			i := strings.LastIndex(cand, ":")
			idx, _ := strconv.Atoi(cand[i+1:])
			what := crashSummary(c2.stderr)
			sig := "crash"
			if strings.Contains(c2.stderr, "HANG ") || c2.killed {
				sig, what = "hang", "the case does not end: "+what
			}
			fails = append(fails, failure{Sig: sig + ":" + cand[:i], Msg: what, Kind: cand[:i], Index: idx})
		}
		if i := strings.LastIndex(append(cands, ":")[0], ":"); len(fails) == 0 && len(cands) > 0 && only == "" && strings.Contains(cr.stderr, "HANG ") && s.repeats(cands[0][:i], "") {
			idx, _ := strconv.Atoi(cands[0][i+1:])
			fails = append(fails, failure{Sig: "hang:" + cands[0][:i], Msg: "cases of this kind do not end, now one, now another: " + tail, Kind: cands[0][:i], Index: idx})
		}
		if len(fails) == 0 {
			switch {
			case cr.killed:
				inconclusive = "the run did not end in time"
			case cr.sig == "killed":
				inconclusive = "the child was killed from outside"
			case strings.Contains(cr.stderr, "HANG "):
				inconclusive = "a case did not end in time but did when run alone"
			case strings.Contains(cr.stderr, "fatal error:") || strings.Contains(cr.stderr, "panic:") || strings.Contains(cr.stderr, "SIG"):
				kind := ""
				idx := 0
				if len(cands) > 0 {
					i := strings.LastIndex(cands[0], ":")
					kind = cands[0][:i]
					idx, _ = strconv.Atoi(cands[0][i+1:])
				}
				fails = append(fails, failure{Sig: "crash", Msg: tail, Kind: kind, Index: idx})
			default:
				inconclusive = fmt.Sprintf("child ended with %d %s: %s", cr.exit, cr.sig, tail)
			}
		}
	}
	for key, rep := range s.races {
		if key == "harness-only" {
			inconclusive = "race inside the harness:\n" + rep
			continue
		}
		fails = append(fails, failure{Sig: "race:" + key, Msg: "the race detector reports:\n" + rep})
	}
	known := loadKnown(filepath.Join(s.verif, "known_findings.txt"), s.prop.ID)
	var viols []failure
	nknown := 0
	for _, f := range fails {
		if what, ok := known[f.Sig]; ok {
			nknown++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", s.prop.ID, what)
			continue
		}
		viols = append(viols, f)
	}
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].Sig < viols[j].Sig })
	rdir := filepath.Join(s.evid, "replays")
	os.MkdirAll(rdir, 0755)
	for i, f := range viols {
		rp := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", s.prop.ID, i+1))
		b, _ := json.MarshalIndent(replayFile{s.prop.ID, f.Kind, f.Index, s.seed, s.tier, f.Sig, f.Msg}, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0644)
		if i < 5 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", s.prop.ID, rp)
			msg := f.Msg
			if len(msg) > 1500 {
				msg = msg[:1500] + "..."
			}
			fmt.Printf("  %s (case %s:%d): %s\n", f.Sig, f.Kind, f.Index, msg)
		}
		if i >= 20 {
			break
		}
	}
	if only == "" {
		s.evidence(cr, len(viols), nknown, time.Since(t0).Seconds())
	}
	switch {
	case len(viols) > 0:
		return 1
	case inconclusive != "":
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", inconclusive)
		return 2
	case only == "" && (cr.res == nil || cr.res.Evals == 0 || cr.res.Distinct < 10):
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE: nothing observed")
		return 2
	}
	if cr.res != nil && only == "" {
		fmt.Printf("property=%s held on %d cases, %d evaluations, %d distinct (%.1fs)\n", s.prop.ID, cr.res.Cases, cr.res.Evals, cr.res.Distinct, time.Since(t0).Seconds())
	}
	return 0
}

func crashSummary(stderr string) string {
	var keep []string
	n := 0
	for _, l := range strings.Split(stderr, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "fatal error:") || strings.HasPrefix(t, "panic:") || strings.HasPrefix(t, "HANG") || strings.Contains(t, "tokucore/") {
			keep = append(keep, t)
			if n++; n > 12 {
				break
			}
		}
	}
	if len(keep) == 0 && len(stderr) > 0 {
		if len(stderr) > 500 {
			stderr = stderr[len(stderr)-500:]
		}
		return stderr
	}
	return strings.Join(keep, " ; ")
}

// loadKnown reads the known findings of a property: sig -> what.
func loadKnown(file, prop string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return m
	}
	defer f.Close()
	re := regexp.MustCompile(`^known: property=(\S+) sig=(\S+) (.*)$`)
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if g := re.FindStringSubmatch(sc.Text()); g != nil && g[1] == prop {
			m[g[2]] = g[3]
		}
	}
	return m
}

func (s *supervisor) evidence(cr *childRun, viols, nknown int, wall float64) {
	res := cr.res
	if res == nil {
		res = &result{}
	}
	cov := map[string]interface{}{
		"evaluations":         res.Evals,
		"cases":               res.Cases,
		"distinct_nontrivial": res.Distinct,
		"rule":                s.prop.Rule,
		"samples":             res.Samples,
		"observed":            res.Counts,
		"known_findings":      nknown,
	}
	if s.prop.Race {
		cov["race_reports"] = len(s.races)
		cov["race_detector"] = "on"
	}
	if len(res.Samples) == 0 {
		cov["samples"] = []string{"none (the run ended early)"}
	}
	ev := map[string]interface{}{
		"property":   s.prop.ID,
		"tier":       s.tier,
		"seed":       s.seed,
		"level":      "exploration",
		"coverage":   cov,
		"wall_s":     wall,
		"violations": viols,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := s.evid
	os.MkdirAll(dir, 0755)
	fatal(os.WriteFile(filepath.Join(dir, s.prop.ID+".json"), append(b, '\n'), 0644))
}
