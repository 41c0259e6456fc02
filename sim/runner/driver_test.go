package runner

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"maps"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"verif/sim/world"
)

// Exit codes of a check.
const (
	exitHeld      = 0
	exitViolation = 1
	exitError     = 2 // the check could not do its work
	exitForeign   = 3 // only other properties were seen broken
	exitHarness   = 4 // defect of the simulator
)

func TestMain(m *testing.M) {
	switch os.Getenv("VERIF_ROLE") {
	case "driver":
		os.Exit(driver())
	case "replay":
		os.Exit(replay(os.Getenv("VERIF_REPLAY")))
	case "selftest":
		os.Exit(selftest())
	}
	os.Exit(m.Run())
}

// worker is a process that executes runs.
type worker struct {
	cmd *exec.Cmd
	in  *json.Encoder
	out *json.Decoder
	fds []*os.File
	ran []uint64 // seeds of the generated runs so far
}

// death tells how a worker died.
type death struct {
	seed   uint64
	step   int
	op     string
	tags   []string
	killed bool
	reason string
}

func startWorker() (*worker, error) {
	rr, rw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	sr, sw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	w := &worker{cmd: exec.Command(exe, "-test.run=^TestWorker$", "-test.timeout=0")}
	w.cmd.Env = append(os.Environ(), "VERIF_ROLE=worker", "GOMAXPROCS=2")
	w.cmd.ExtraFiles = []*os.File{rr, sw}
	w.cmd.Stderr = nil
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	rr.Close()
	sw.Close()
	w.fds = []*os.File{rw, sr}
	w.in = json.NewEncoder(rw)
	w.out = json.NewDecoder(bufio.NewReader(sr))
	return w, nil
}

func (w *worker) stop() {
	for _, f := range w.fds {
		f.Close()
	}
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

// do executes a request. A dead worker is reported as a death.
func (w *worker) do(rq request) (*response, *death) {
	d := &death{step: -1}
	if err := w.in.Encode(rq); err != nil {
		d.reason = err.Error()
		return nil, d
	}
	for {
		var rs response
		if err := w.out.Decode(&rs); err != nil {
			d.reason = "the process died"
			return nil, d
		}
		switch rs.Kind {
		case "run":
			*d = death{seed: rs.Seed, step: -1}
		case "op":
			d.step, d.op, d.tags = rs.Step, rs.Op, rs.Tags
		case "killed":
			return nil, &death{seed: rs.Seed, step: rs.Step, op: rs.Op, tags: rs.Tags, killed: true, reason: rs.Reason}
		case "done":
			return &rs, nil
		}
	}
}

// pool is a set of workers. Death of a worker is part of the work.
type pool struct {
	free  chan *worker
	evals chan struct{}
	n     int
}

func newPool(n int) (*pool, error) {
	p := &pool{free: make(chan *worker, n), evals: make(chan struct{}, n), n: n}
	for range n {
		w, err := startWorker()
		if err != nil {
			return nil, err
		}
		p.free <- w
	}
	return p, nil
}

// do executes a range of generated runs, and returns which runs the same
// process has executed before.
func (p *pool) do(rq request) (*response, *death, []uint64) {
	w := <-p.free
	ran := slices.Clip(w.ran)
	rs, d := w.do(rq)
	for i := range rq.Count {
		w.ran = append(w.ran, rq.Start+i)
	}
	if d != nil {
		w.stop()
		nw, err := startWorker()
		if err != nil {
			fatalf("cannot start a worker: %v", err)
		}
		w = nw
	}
	p.free <- w
	return rs, d, ran
}

func (p *pool) stop() {
	for range p.n {
		(<-p.free).stop()
	}
}

func fatalf(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "error: "+format+"\n", args...)
	os.Exit(exitError)
}

// outcome of one run given by configuration and steps.
type outcome struct {
	v       *world.Violation
	harness string
	log     []string
	digest  string
}

func deathOutcome(d *death) outcome {
	v := &world.Violation{Step: d.step, Tags: slices.Clone(d.tags)}
	if d.killed {
		v.Class = "hang"
		v.Tags = append(v.Tags, "C17")
		v.Msg = d.reason
	} else {
		v.Class = "fatal"
		v.Tags = append(v.Tags, "C16")
		v.Msg = fmt.Sprintf("%s ended the whole process", d.op)
	}
	slices.Sort(v.Tags)
	v.Tags = slices.Compact(v.Tags)
	if d.op == "" {
		return outcome{harness: "a worker died outside of any operation: " + d.reason}
	}
	return outcome{v: v}
}

// eval executes one run in a new process, after the runs of the given seeds.
func (p *pool) eval(cfg world.Config, steps []world.Step, before []uint64) outcome {
	if steps == nil {
		steps = []world.Step{}
	}
	p.evals <- struct{}{}
	defer func() { <-p.evals }()
	w, err := startWorker()
	if err != nil {
		fatalf("cannot start a worker: %v", err)
	}
	defer w.stop()
	rs, d := w.do(request{Prop: cfg.Prop, Config: &cfg, Steps: steps, Log: true, Before: before})
	if d != nil {
		return deathOutcome(d)
	}
	return outcome{v: rs.Result.Violation, harness: rs.Result.Harness, log: rs.Log, digest: rs.Result.Digest}
}

type chunk struct{ start, count uint64 }

type totals struct {
	st       world.Stats
	situs    map[uint64]bool
	digests  map[string]bool
	rerun    int
	mismatch int
	foreign  map[string]int
}

func newTotals() *totals {
	return &totals{st: *world.NewStats(), situs: map[uint64]bool{}, digests: map[string]bool{}, foreign: map[string]int{}}
}

func (t *totals) add(rs *response) {
	s := rs.Stats
	t.st.Runs += s.Runs
	t.st.Steps += s.Steps
	t.st.Ops += s.Ops
	t.st.Evals += s.Evals
	t.st.SimSecs += s.SimSecs
	t.st.Accepts += s.Accepts
	t.st.Rejects += s.Rejects
	for k, n := range s.Faults {
		t.st.Faults[k] += n
	}
	for k, n := range s.Kinds {
		t.st.Kinds[k] += n
	}
	t.st.MaxLeaves = max(t.st.MaxLeaves, s.MaxLeaves)
	t.st.MaxEpoch = max(t.st.MaxEpoch, s.MaxEpoch)
	t.st.MaxAlloc = max(t.st.MaxAlloc, s.MaxAlloc)
	t.st.MaxRatio = max(t.st.MaxRatio, s.MaxRatio)
	if len(t.st.Samples) < 5 {
		t.st.Samples = append(t.st.Samples, s.Samples[:min(1, len(s.Samples))]...)
	}
	for b := rs.Situs; len(b) >= 8; b = b[8:] {
		t.situs[binary.LittleEndian.Uint64(b)] = true
	}
	for _, d := range rs.Digest {
		t.digests[d] = true
	}
}

// candidate is a run that seems to break something.
type candidate struct {
	seed  uint64
	cfg   world.Config
	steps []world.Step
	v     *world.Violation
	// runs the same process executed before; they should not matter
	before []uint64
}

// search runs the seeds until they are used up, time is over or one breaks the
// property.
type search struct {
	p        *pool
	prop     string
	next     uint64
	end      uint64
	deadline time.Time
	tot      *totals
	timeUp   bool
	others   []candidate // break other properties only
}

const chunkSize = 4

func (s *search) run() ([]candidate, string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	var cands []candidate
	harness := ""
	var queue []chunk // parts of chunks whose worker died
	take := func() (chunk, bool) {
		mu.Lock()
		defer mu.Unlock()
		if len(queue) > 0 {
			c := queue[0]
			queue = queue[1:]
			return c, true
		}
		if len(cands) > 0 || harness != "" || s.next >= s.end {
			return chunk{}, false
		}
		if time.Now().After(s.deadline) {
			s.timeUp = true
			return chunk{}, false
		}
		c := chunk{s.next, min(chunkSize, s.end-s.next)}
		s.next += c.count
		return c, true
	}
	note := func(c candidate) {
		if c.v.Has(s.prop) {
			cands = append(cands, c)
		} else {
			s.tot.foreign[c.v.Class+" "+strings.Join(c.v.Tags, ",")]++
			s.others = append(s.others, c)
		}
	}
	for range s.p.n {
		wg.Go(func() {
			for {
				c, ok := take()
				if !ok {
					return
				}
				rs, d, ran := s.p.do(request{Prop: s.prop, Start: c.start, Count: c.count})
				before := func(seed uint64) []uint64 {
					b := slices.Clone(ran)
					for i := range seed - c.start {
						b = append(b, c.start+i)
					}
					return b
				}
				if d != nil {
					seed := d.seed
					if seed < c.start || seed >= c.start+c.count {
						mu.Lock()
						harness = "a worker died before its first run: " + d.reason
						mu.Unlock()
						continue
					}
					cfg, steps := world.Plan(s.prop, seed)
					o := s.p.eval(cfg, steps, nil)
					if o.harness == "" && o.v == nil {
						o = s.p.eval(cfg, steps, before(seed))
					}
					mu.Lock()
					switch {
					case o.harness != "":
						harness = fmt.Sprintf("seed %d: %s", seed, o.harness)
					case o.v != nil:
						note(candidate{seed, cfg, steps, o.v, before(seed)})
					default:
						harness = fmt.Sprintf("seed %d: a worker died (%s), but not again", seed, d.reason)
					}
					s.tot.st.Runs++
					if seed > c.start {
						queue = append(queue, chunk{c.start, seed - c.start})
					}
					if e := c.start + c.count; seed+1 < e {
						queue = append(queue, chunk{seed + 1, e - seed - 1})
					}
					mu.Unlock()
					continue
				}
				var again []string
				if c.count == chunkSize && (c.start/chunkSize)%24 == 7 {
					// prove that runs are repeatable, in another process
					if rs2, d2, _ := s.p.do(request{Prop: s.prop, Start: c.start, Count: c.count}); d2 == nil {
						again = rs2.Digest
					}
				}
				mu.Lock()
				s.tot.add(rs)
				if again != nil {
					s.tot.rerun += len(again)
					for i := range again {
						if again[i] != rs.Digest[i] {
							s.tot.mismatch++
						}
					}
				}
				for _, f := range rs.Found {
					if f.Harness != "" {
						harness = fmt.Sprintf("seed %d: %s", f.Config.Seed, f.Harness)
						continue
					}
					note(candidate{f.Config.Seed, f.Config, f.Steps, f.Violation, before(f.Config.Seed)})
				}
				mu.Unlock()
			}
		})
	}
	wg.Wait()
	slices.SortFunc(cands, func(a, b candidate) int {
		if a.seed < b.seed {
			return -1
		}
		return 1
	})
	return cands, harness
}

// same reports whether an outcome is the candidate's violation.
func (c *candidate) same(prop string, o outcome) bool {
	return o.v != nil && o.v.Class == c.v.Class && (o.v.Has(prop) || prop == "C18" && len(c.before) > 0)
}

// repeats reports whether a run goes wrong again in a new process.
func (p *pool) repeats(prop string, c candidate) (outcome, bool) {
	for range 3 {
		if o := p.eval(c.cfg, c.steps, c.before); c.same(prop, o) {
			return o, true
		}
	}
	return outcome{}, false
}

// isolate finds out which of the runs executed before in the same process are
// needed for the violation; normally it is none of them.
func (p *pool) isolate(prop string, c candidate, deadline time.Time) (candidate, bool) {
	all := c.before
	for n := 0; ; n = max(2*n, 1) {
		n = min(n, len(all))
		c.before = all[len(all)-n:]
		if _, ok := p.repeats(prop, c); ok {
			break
		}
		if n == len(all) || time.Now().After(deadline) {
			return c, false
		}
	}
	for n := 2; len(c.before) > 1 && time.Now().Before(deadline); {
		n = min(n, len(c.before))
		res := make([]outcome, n)
		parts := make([]candidate, n)
		var wg sync.WaitGroup
		for i := range n {
			parts[i] = c
			parts[i].before = slices.Concat(c.before[:i*len(c.before)/n], c.before[(i+1)*len(c.before)/n:])
			wg.Go(func() { res[i] = p.eval(c.cfg, c.steps, parts[i].before) })
		}
		wg.Wait()
		i := slices.IndexFunc(res, func(o outcome) bool { return c.same(prop, o) })
		if i >= 0 {
			c = parts[i]
			n = max(n-1, 2)
		} else if n == len(c.before) {
			break
		} else {
			n *= 2
		}
	}
	return c, true
}

// minimise removes steps and simplifies the configuration while the same kind
// of violation of the property remains.
func (p *pool) minimise(prop string, c candidate, deadline time.Time) candidate {
	same := func(o outcome) bool { return c.same(prop, o) }
	type try struct {
		cfg   world.Config
		steps []world.Step
	}
	// first evaluates all at once and returns the first that still fails
	first := func(tries []try) int {
		res := make([]outcome, len(tries))
		var wg sync.WaitGroup
		for i := range tries {
			wg.Go(func() { res[i] = p.eval(tries[i].cfg, tries[i].steps, c.before) })
		}
		wg.Wait()
		for i := range res {
			if same(res[i]) {
				c.v = res[i].v
				return i
			}
		}
		return -1
	}
	// nothing after the violation matters
	if c.v.Step < len(c.steps) {
		t := try{c.cfg, c.steps[:max(c.v.Step, -1)+1]}
		if first([]try{t}) == 0 {
			c.steps = t.steps
		}
	}
	for changed := true; changed; {
		changed = false
		for n := 2; len(c.steps) > 0 && time.Now().Before(deadline); {
			n = min(n, len(c.steps))
			var tries []try
			for i := range n {
				lo, hi := i*len(c.steps)/n, (i+1)*len(c.steps)/n
				tries = append(tries, try{c.cfg, slices.Concat(c.steps[:lo], c.steps[hi:])})
			}
			if i := first(tries); i >= 0 {
				c.steps = tries[i].steps
				changed = true
				n = max(n-1, 2)
				continue
			}
			if n == len(c.steps) {
				break
			}
			n *= 2
		}
		if time.Now().After(deadline) {
			break
		}
		var tries []try
		for _, f := range simpler {
			cfg := c.cfg
			f(&cfg)
			if cfg != c.cfg {
				tries = append(tries, try{cfg, c.steps})
			}
		}
		if i := first(tries); i >= 0 {
			c.cfg = tries[i].cfg
			changed = true
		}
	}
	return c
}

var simpler = []func(c *world.Config){
	func(c *world.Config) { c.NGroup = 1 },
	func(c *world.Config) { c.NSut = 1 },
	func(c *world.Config) { c.NSut = max(c.NSut-1, 1) },
	func(c *world.Config) { c.NRef = 1 },
	func(c *world.Config) { c.NRef = max(c.NRef-1, 1) },
	func(c *world.Config) { c.Probe = 0 },
	func(c *world.Config) { c.Pad = false },
	func(c *world.Config) { c.Skew = false },
	func(c *world.Config) { c.Later = 0 },
	func(c *world.Config) { c.Share = false },
	func(c *world.Config) { c.Scrib = false },
	func(c *world.Config) { c.Gap = 0 },
	func(c *world.Config) { c.SameID = false },
	func(c *world.Config) { c.Final = false },
	func(c *world.Config) { c.SutNew = false },
	func(c *world.Config) { c.Suite = 1 },
}

// premises are the properties that say that something makes no difference: a
// violation is only theirs if it goes away without that something.
var premises = []string{"C03", "C04", "C14", "C15", "C18"}

// needed reports whether the minimised run's violation depends on what the
// property is about. If one step less, or a configuration without the
// premise, leaves the same violation without the property's tag, it does not.
func (p *pool) needed(prop string, c candidate) bool {
	if !slices.Contains(premises, prop) {
		return true
	}
	if prop == "C18" && len(c.before) > 0 {
		return true // other groups of the process made the difference
	}
	type try struct {
		cfg   world.Config
		steps []world.Step
	}
	var tries []try
	for i := range c.steps {
		tries = append(tries, try{c.cfg, slices.Concat(c.steps[:i], c.steps[i+1:])})
	}
	cfg := c.cfg
	switch prop {
	case "C14":
		cfg.Skew, cfg.Later = false, 0
	case "C18":
		cfg.Share, cfg.Scrib = false, false
	}
	if cfg != c.cfg {
		tries = append(tries, try{cfg, c.steps})
	}
	var mu sync.Mutex
	ok := true
	var wg sync.WaitGroup
	for _, t := range tries {
		wg.Go(func() {
			o := p.eval(t.cfg, t.steps, c.before)
			if o.v != nil && o.v.Class == c.v.Class && !o.v.Has(prop) {
				mu.Lock()
				ok = false
				mu.Unlock()
			}
		})
	}
	wg.Wait()
	return ok
}

// replayFile is everything that is needed to see a violation again.
type replayFile struct {
	Property  string           `json:"property"`
	VerifSeed uint64           `json:"verif_seed"`
	FoundSeed uint64           `json:"found_with_run_seed"`
	FoundLen  int              `json:"found_with_steps"`
	Violation *world.Violation `json:"violation"`
	Config    world.Config     `json:"config"`
	Steps     []world.Step     `json:"steps"`
	Before    []uint64         `json:"after_runs,omitempty"`
	Trace     []string         `json:"trace"`
}

func envInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}

var quickRuns = map[string]int{}

func driver() int {
	begin := time.Now()
	prop := os.Getenv("VERIF_PROP")
	dir := os.Getenv("VERIF_DIR")
	tier := os.Getenv("VERIF_TIER")
	if world.Profiles[prop] == nil {
		fatalf("unknown property %q", prop)
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 31)
	if err != nil {
		fatalf("VERIF_SEED: %v", err)
	}
	runs, limit, minLimit := 4000, 240*time.Second, 120*time.Second
	if n := quickRuns[prop]; n != 0 {
		runs = n
	}
	if tier == "thorough" {
		runs, limit, minLimit = runs*12, 560*time.Second, 200*time.Second
	} else {
		tier = "quick"
	}
	runs = envInt("VERIF_RUNS", runs)
	n := envInt("VERIF_WORKERS", min(runtime.NumCPU(), 16))
	p, err := newPool(n)
	if err != nil {
		fatalf("cannot start workers: %v", err)
	}
	defer p.stop()

	s := &search{
		p: p, prop: prop, next: seed << 32, end: seed<<32 + uint64(runs),
		deadline: begin.Add(limit), tot: newTotals(),
	}
	var hit *candidate
	found := candidate{}
	var reproduced outcome
	failed := ""
	exit := exitHeld
	for range 6 {
		cands, harness := s.run()
		if harness != "" {
			failed, exit = harness, exitHarness
			break
		}
		if len(cands) == 0 && prop == "C18" {
			// whatever only happens after other runs is an influence of theirs
			for _, c := range s.others[:min(len(s.others), 8)] {
				if o := p.eval(c.cfg, c.steps, nil); o.v == nil && len(c.before) > 0 {
					cands = append(cands, c)
				}
			}
			s.others = nil
		}
		if len(cands) == 0 {
			break
		}
		for _, c := range cands[:min(len(cands), 3)] {
			m, ok := p.isolate(prop, c, time.Now().Add(minLimit))
			if !ok {
				failed = fmt.Sprintf("seed %d: %s (%s) cannot be reproduced in a new process", c.seed, c.v.Class, c.v.Msg)
				exit = exitError
				continue
			}
			m = p.minimise(prop, m, time.Now().Add(minLimit))
			if !p.needed(prop, m) {
				s.tot.foreign[m.v.Class+" "+strings.Join(m.v.Tags, ",")+" (whether or not "+prop+" applies)"]++
				continue
			}
			o, ok := p.repeats(prop, m)
			if !ok {
				failed = fmt.Sprintf("seed %d: %s (%s) cannot be reproduced in a new process", c.seed, m.v.Class, m.v.Msg)
				exit = exitError
				continue
			}
			hit, found, reproduced = &m, c, o
			break
		}
		if hit != nil {
			break
		}
	}
	if hit != nil {
		exit, failed = exitViolation, ""
	} else if exit == exitHeld && len(s.tot.foreign) > 0 {
		exit = exitForeign
	}
	if exit == exitHeld && s.tot.st.Evals == 0 {
		failed, exit = "nothing was evaluated", exitError
	}

	path := ""
	if hit != nil {
		path = filepath.Join(dir, "evidence", "replay", fmt.Sprintf("%s-%d.json", prop, found.seed))
		os.MkdirAll(filepath.Dir(path), 0o777)
		writeJSON(path, replayFile{
			Property: prop, VerifSeed: seed, FoundSeed: found.seed, FoundLen: len(found.steps),
			Violation: reproduced.v, Config: hit.cfg, Steps: hit.steps, Before: hit.before, Trace: reproduced.log,
		})
	}
	evidence(dir, prop, tier, seed, s, begin, hit, path, exit)

	for _, k := range slices.Sorted(maps.Keys(s.tot.foreign)) {
		fmt.Fprintf(os.Stderr, "note: %d runs broke something else: %s\n", s.tot.foreign[k], k)
	}
	if s.tot.mismatch > 0 {
		fmt.Fprintf(os.Stderr, "note: %d of %d repeated runs went differently\n", s.tot.mismatch, s.tot.rerun)
	}
	if failed != "" {
		fmt.Fprintf(os.Stderr, "error: %s\n", failed)
	}
	t := s.tot
	fmt.Fprintf(os.Stderr, "%s %s: %d runs (%.0f/s), %d steps, %d operations, %d evaluations, %d distinct\n", prop, tier, t.st.Runs, float64(t.st.Runs)/time.Since(begin).Seconds(), t.st.Steps, t.st.Ops, t.st.Evals, len(t.situs))
	if hit != nil {
		for _, l := range reproduced.log {
			fmt.Fprintln(os.Stderr, l)
		}
		fmt.Fprintf(os.Stderr, "%s %v: %s\n", reproduced.v.Class, reproduced.v.Tags, reproduced.v.Msg)
		fmt.Fprintf(os.Stderr, "run seed %d, %d steps, minimised to %d\n", found.seed, len(found.steps), len(hit.steps))
		if len(hit.before) > 0 {
			fmt.Fprintf(os.Stderr, "only after other runs in the same process: %v\n", hit.before)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	}
	return exit
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatalf("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o666); err != nil {
		fatalf("%v", err)
	}
}

func evidence(dir, prop, tier string, seed uint64, s *search, begin time.Time, hit *candidate, path string, exit int) {
	t := s.tot
	wall := time.Since(begin).Seconds()
	violations := []any{}
	if hit != nil {
		violations = append(violations, map[string]any{"class": hit.v.Class, "message": hit.v.Msg, "replay": path, "steps": len(hit.steps)})
	}
	cov := map[string]any{
		"evaluations":         t.st.Evals,
		"distinct_nontrivial": len(t.situs),
		"rule": "An evaluation is one expectation of this property compared with what the library did, within a simulated history. " +
			"Two evaluations are the same situation if they agree in cipher suite, ratchet tree shape (blank, source of each leaf, unmerged leaves), the member's position, " +
			"the kind of event with its details (message kind, fault kind, altered place, distances), the expected outcome, and the member's history flags " +
			"(failed operation, crash, created commits, moved clock, number of consumed messages and pending proposals). " +
			"Only situations with a real library object on one side and a prediction by the reference model on the other are counted.",
		"samples":                     t.st.Samples,
		"simulated_runs":              t.st.Runs,
		"runs_per_hour":               int(float64(t.st.Runs) / wall * 3600),
		"distinct_histories":          len(t.digests),
		"steps":                       t.st.Steps,
		"library_operations":          t.st.Ops,
		"simulated_seconds":           int(t.st.SimSecs),
		"faults_injected":             t.st.Faults,
		"events_executed":             t.st.Kinds,
		"messages_accepted":           t.st.Accepts,
		"messages_rejected":           t.st.Rejects,
		"largest_tree_leaves":         t.st.MaxLeaves,
		"highest_epoch":               t.st.MaxEpoch,
		"largest_allocation_bytes":    t.st.MaxAlloc,
		"largest_share_of_cost_limit": t.st.MaxRatio,
		"repeated_runs":               t.rerun,
		"repeated_runs_that_differed": t.mismatch,
		"broken_otherwise":            t.foreign,
		"run_seeds":                   fmt.Sprintf("%d to %d", seed<<32, s.next-1),
		"stopped_by_time":             s.timeUp,
		"workers":                     s.p.n,
		"real_components":             []string{"every group member, inviter, invitee and decoder under test: go-mls built from /repo's working tree, through its public API"},
		"simulated_components":        []string{"reference members (independent RFC 9420 implementation)", "delivery service and network", "clocks", "durable storage", "random source", "adversaries"},
		"exit":                        exit,
	}
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o777)
	writeJSON(filepath.Join(dir, "evidence", prop+".json"), map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"the reference model in sim/ref is right where it agrees with RFC 9420 and with go-mls on the honest histories of this run",
			"the cryptographic primitives of the Go standard library and circl are sound",
			"an application uses a group from one goroutine at a time and gives commits to it in the order of the delivery service",
		},
		"wall_s": wall, "violations": len(violations), "violation_details": violations,
	})
}

// replay repeats the run of a replay file.
func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fatalf("%v", err)
	}
	p, err := newPool(0)
	if err != nil {
		fatalf("%v", err)
	}
	p.evals = make(chan struct{}, 1)
	o := p.eval(f.Config, f.Steps, f.Before)
	for _, l := range o.log {
		fmt.Println(l)
	}
	switch {
	case o.harness != "":
		fmt.Println(o.harness)
		return exitHarness
	case o.v == nil:
		fmt.Println("no violation")
		return exitHeld
	}
	fmt.Printf("%s %v: %s\n", o.v.Class, o.v.Tags, o.v.Msg)
	if !o.v.Has(f.Property) && !(f.Property == "C18" && len(f.Before) > 0) {
		return exitForeign
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
	return exitViolation
}

// selftest proves that runs are repeatable: every profile's runs give the same
// digests in two sets of processes with different numbers of workers and
// different chunks, and when planned first and executed as a replay.
func selftest() int {
	runs := uint64(envInt("VERIF_RUNS", 400))
	bad := 0
	for _, prop := range slices.Sorted(maps.Keys(world.Profiles)) {
		var sets [3][]string
		for k, size := range []uint64{16, 5, 1} {
			p, err := newPool(8 - 3*k)
			if err != nil {
				fatalf("%v", err)
			}
			sets[k] = make([]string, runs)
			var wg sync.WaitGroup
			for at := uint64(0); at < runs; at += size {
				wg.Go(func() {
					n := min(size, runs-at)
					if size == 1 {
						if at%4 != 0 {
							return
						}
						cfg, steps := world.Plan(prop, 7<<32+at)
						sets[k][at] = p.eval(cfg, steps, nil).digest
						return
					}
					rs, d, _ := p.do(request{Prop: prop, Start: 7<<32 + at, Count: n})
					if d != nil {
						fatalf("worker died: %v", d)
					}
					copy(sets[k][at:], rs.Digest)
				})
			}
			wg.Wait()
			p.stop()
		}
		n := 0
		for i := range runs {
			if sets[0][i] != sets[1][i] || (i%4 == 0 && sets[2][i] != sets[0][i]) {
				fmt.Printf("%s: run %d differs\n", prop, i)
				n++
			}
		}
		fmt.Printf("%s: %d runs executed twice, every fourth also as a replay, %d differ\n", prop, runs, n)
		bad += n
	}
	if bad > 0 {
		return exitHarness
	}
	return exitHeld
}
