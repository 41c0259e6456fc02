package runner

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"sync"
	"syscall"
	"testing"
	"time"

	"verif/sim/world"
)

// request asks a worker for one or more runs.
type request struct {
	Prop string
	// a range of generated runs
	Start, Count uint64
	Digests      bool // report every digest
	// or one fixed run
	Config *world.Config
	Steps  []world.Step
	Log    bool
	// generated runs to execute first, whatever they give
	Before []uint64
}

// response reports runs. A worker sends a "run" line before each run, so that
// the driver knows what was going on if the worker dies.
type response struct {
	Kind   string // run, op, killed, done
	Seed   uint64 `json:",omitempty"`
	Step   int    `json:",omitempty"`
	Op     string `json:",omitempty"`
	Tags   []string
	Reason string        `json:",omitempty"`
	Stats  *world.Stats  `json:",omitempty"`
	Situs  []byte        `json:",omitempty"`
	Found  []found       `json:",omitempty"`
	Digest []string      `json:",omitempty"`
	Result *world.Result `json:",omitempty"`
	Log    []string      `json:",omitempty"`
}

type found struct {
	Config    world.Config
	Steps     []world.Step
	Violation *world.Violation
	Harness   string
}

// Limits on one operation; the allocation limit is the operation's own, with
// some room, since the operation may still end by itself and be judged then.
const (
	opCPU        = 6 * time.Second
	opAllocExtra = 2 << 30
)

const killedExit = 97

// watch ends the process when an operation of the library does not end.
type watch struct {
	mu     sync.Mutex
	out    *json.Encoder
	seed   uint64
	trace  bool
	active bool
	step   int
	op     string
	tags   []string
	limit  uint64
	alloc  uint64
	cpu    time.Duration
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func heapAllocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func (w *watch) Begin(step int, op string, tags []string, limit uint64) {
	w.mu.Lock()
	w.active, w.step, w.op, w.tags, w.limit = true, step, op, tags, limit
	w.alloc, w.cpu = heapAllocs(), cpuTime()
	if w.trace {
		w.out.Encode(response{Kind: "op", Seed: w.seed, Step: step, Op: op, Tags: tags})
	}
	w.mu.Unlock()
}

func (w *watch) End() {
	w.mu.Lock()
	w.active = false
	w.mu.Unlock()
}

func (w *watch) run() {
	for {
		time.Sleep(20 * time.Millisecond)
		w.mu.Lock()
		if w.active {
			reason := ""
			if a := heapAllocs() - w.alloc; a > w.limit+opAllocExtra {
				reason = fmt.Sprintf("%s has allocated %d MiB and goes on", w.op, a>>20)
			} else if c := cpuTime() - w.cpu; c > opCPU {
				reason = fmt.Sprintf("%s has used %v of CPU time and goes on", w.op, c.Round(time.Second))
			}
			if reason != "" {
				w.out.Encode(response{Kind: "killed", Seed: w.seed, Step: w.step, Op: w.op, Tags: w.tags, Reason: reason})
				os.Exit(killedExit)
			}
		}
		w.mu.Unlock()
	}
}

func TestWorker(t *testing.T) {
	if os.Getenv("VERIF_ROLE") != "worker" {
		t.Skip("not a worker")
	}
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(3 << 30)
	in := bufio.NewReader(os.NewFile(3, "requests"))
	out := json.NewEncoder(os.NewFile(4, "responses"))
	wd := &watch{out: out}
	go wd.run()
	dec := json.NewDecoder(in)
	seen := map[uint64]bool{}
	for {
		var rq request
		if err := dec.Decode(&rq); err != nil {
			return
		}
		rs := response{Kind: "done"}
		st := world.NewStats()
		send := func(seed uint64) {
			wd.mu.Lock()
			wd.seed = seed
			wd.trace = rq.Log
			out.Encode(response{Kind: "run", Seed: seed})
			wd.mu.Unlock()
		}
		for _, seed := range rq.Before {
			send(seed)
			t.Run("run", func(t *testing.T) {
				world.Run(t, world.NewConfig(rq.Prop, seed), world.Profiles[rq.Prop], world.NewStats(), world.Options{NSteps: world.StepCount(rq.Prop, seed), Progress: wd})
			})
		}
		if rq.Config != nil {
			send(rq.Config.Seed)
			o := world.Options{Steps: rq.Steps, Progress: wd}
			if o.Steps == nil {
				o.Steps = []world.Step{}
			}
			if rq.Log {
				o.Logf = func(f string, a ...any) { rs.Log = append(rs.Log, fmt.Sprintf(f, a...)) }
			}
			t.Run("run", func(t *testing.T) {
				res := world.Run(t, *rq.Config, nil, st, o)
				rs.Result = &res
			})
			rs.Stats = st
		} else {
			for i := uint64(0); i < rq.Count; i++ {
				seed := rq.Start + i
				send(seed)
				cfg := world.NewConfig(rq.Prop, seed)
				t.Run("run", func(t *testing.T) {
					res := world.Run(t, cfg, world.Profiles[rq.Prop], st, world.Options{NSteps: world.StepCount(rq.Prop, seed), Progress: wd})
					rs.Digest = append(rs.Digest, res.Digest)
					if res.Violation != nil || res.Harness != "" {
						rs.Found = append(rs.Found, found{cfg, res.Steps, res.Violation, res.Harness})
					}
				})
			}
			for k := range st.Situs {
				if !seen[k] {
					seen[k] = true
					rs.Situs = binary.LittleEndian.AppendUint64(rs.Situs, k)
				}
			}
			st.Situs = nil
			rs.Stats = st
		}
		wd.mu.Lock()
		out.Encode(rs)
		wd.mu.Unlock()
	}
}
