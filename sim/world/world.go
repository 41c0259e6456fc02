// Package world simulates groups of MLS clients: real go-mls clients and
// reference peers on a simulated network with simulated clocks, storage and
// randomness. Everything that happens is decided by one seed.
package world

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash"
	"hash/fnv"
	"math/rand/v2"
	"runtime"
	"runtime/metrics"
	"slices"
	"strings"
	"testing"
	"testing/cryptotest"
	"testing/synctest"
	"time"

	mls "github.com/emersion/go-mls"

	"verif/sim/ref"
)

// Step is one scheduled event. R decides every choice made in it.
type Step struct {
	K string `json:"k"`
	R uint64 `json:"r"`
}

// Config is the part of a run that is fixed before the first step.
type Config struct {
	Prop   string    `json:"property"`
	Seed   uint64    `json:"seed"`
	Suite  ref.Suite `json:"suite"`
	NGroup int       `json:"groups"`
	NSut   int       `json:"sut_nodes"`
	NRef   int       `json:"ref_members"`
	SutNew bool      `json:"sut_creates"`    // a SUT node creates the group
	Max    int       `json:"max_members"`    // size limit for the group
	Probe  int       `json:"probe_pct"`      // chance of a light probe after a commit
	Pad    bool      `json:"padding"`        // reference members pad
	Public int       `json:"public_pct"`     // share of public handshakes
	Skew   bool      `json:"skew"`           // clocks differ between nodes
	Later  int       `json:"years_later"`    // the run takes place this much later
	Share  bool      `json:"share"`          // groups share key packages and decoded objects
	Scrib  bool      `json:"scribble"`       // overwrite every buffer after use
	Gap    uint32    `json:"max_gap"`        // largest gap in generations
	SameID bool      `json:"same_id"`        // both groups have the same ID
	Final  bool      `json:"final_probes"`   // deep probes in the final phase
	Only   string    `json:"only,omitempty"` // debugging: the only bad commit to use
}

// Violation is a broken expectation.
type Violation struct {
	Class string   `json:"class"`
	Tags  []string `json:"properties"`
	Msg   string   `json:"message"`
	Step  int      `json:"step"`
}

func (v *Violation) Has(p string) bool { return slices.Contains(v.Tags, p) }

// harnessError is a defect of the simulator itself.
type harnessError struct{ msg string }

// Stats are measured while running.
type Stats struct {
	Runs      int            `json:"runs"`
	Steps     int            `json:"steps"`
	Ops       int            `json:"ops"`
	Evals     int            `json:"evals"`
	SimSecs   float64        `json:"sim_secs"`
	Faults    map[string]int `json:"faults"`
	Kinds     map[string]int `json:"kinds"`
	Accepts   int            `json:"accepts"`
	Rejects   int            `json:"rejects"`
	MaxLeaves int            `json:"max_leaves"`
	MaxEpoch  int            `json:"max_epoch"`
	Situs     map[uint64]bool
	Samples   []string `json:"samples"`
	MaxAlloc  uint64   `json:"max_alloc"`
	MaxRatio  float64  `json:"max_alloc_ratio"`
}

func NewStats() *Stats {
	return &Stats{Faults: map[string]int{}, Kinds: map[string]int{}, Situs: map[uint64]bool{}}
}

type Rng struct{ *rand.Rand }

func (r Rng) P(pct int) bool { return r.IntN(100) < pct }
func (r Rng) U32() uint32    { return uint32(r.Uint64()) }
func (r Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint64())
	}
	return b
}

func pick[T any](r Rng, s []T) T { return s[r.IntN(len(s))] }

func newRng(parts ...uint64) Rng {
	h := fnv.New64a()
	for _, p := range parts {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], p)
		h.Write(b[:])
	}
	return Rng{rand.New(rand.NewPCG(h.Sum64(), 0x9e3779b97f4a7c15))}
}

// World is the state of one run.
type World struct {
	t    *testing.T
	cfg  Config
	st   *Stats
	r    Rng // of the current step
	step int
	now  time.Duration // since base

	perByte int // instead of allocPerByte

	groups  []*GroupW
	nodes   []*Node
	keys    map[string][]byte // signature keys of reference clients
	inits   map[string][]byte // private init keys of reference clients
	genuine map[string]bool   // every genuine message
	names   int
	ids     [][]byte // identities in use
	msgs    int

	hist hash.Hash
	logf func(format string, args ...any)

	progress Progress
	inFault  string
	moved    bool // some clock differs from the world's
	split    bool // two groups have a common past
	decoded  map[string]*mls.Welcome
	kps      map[string]*mls.KeyPackage
	big      int // size of the next payload, if not random
}

// base is the simulated time at which every run starts. The fraction keeps
// clocks away from whole-second boundaries.
var base = time.Date(2025, 3, 1, 0, 0, 0, 250_000_000, time.UTC)

var bubbleStart = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

// GroupW is a group with its whole history.
type GroupW struct {
	idx   int
	id    []byte
	head  *EpochW
	chain []*EpochW
	nodes []*Node
	forks []*EpochW
}

// EpochW is an epoch with the messages that belong to it.
type EpochW struct {
	*ref.Epoch
	g     *GroupW
	fork  bool
	prev  *EpochW
	next  *EpochW
	won   *Msg // commit that ended the epoch
	msgs  []*Msg
	lost  []*Msg // losing commits
	gens  map[genKey]uint32
	leapt map[genKey]bool // lost most of its messages
	used  map[usedKey]string
	shape uint64
}

type genKey struct {
	leaf      uint32
	handshake bool
}

type usedKey struct {
	genKey
	gen uint32
}

const (
	kindApp    = "app"
	kindProp   = "proposal"
	kindCommit = "commit"
)

// Msg is a genuine message.
type Msg struct {
	id      int
	raw     []byte
	ep      *EpochW
	kind    string
	sender  uint32
	from    *Node // SUT sender
	public  bool
	payload []byte
	ref     []byte
	prop    *ref.Proposal
	refs    []string // proposals a commit refers to
	res     *ref.CommitResult
	next    *EpochW
	welcome []byte
	kps     []*ref.KeyPackage // added clients
	nodes   []*Node           // the SUT clients among them, in the same places
	tags    []string          // further properties that need it to be accepted
}

func (m *Msg) String() string {
	s := fmt.Sprintf("%s#%d(epoch %d, leaf %d", m.kind, m.id, m.ep.Ctx.Epoch, m.sender)
	if m.public {
		s += ", public"
	}
	if m.ep.fork {
		s += ", fork"
	}
	return s + ")"
}

// Node is a SUT client in one group.
type Node struct {
	name string
	g    *GroupW

	kp    *mls.KeyPairPackage
	refKP *ref.KeyPackage
	// durable storage
	kpRaw   []byte
	priv    [3][]byte
	welcome []byte
	log     []*Msg
	joinEp  *EpochW

	group   *mls.Group
	ep      *EpochW
	leaf    uint32
	creator bool
	gone    bool

	cons map[int]bool    // accepted private messages of this epoch
	pend map[string]bool // accepted proposals of this epoch
	past []*Msg          // accepted proposals of earlier epochs
	// the next generations of its own message keys
	genEp *EpochW
	gens  map[bool]uint32
	// the node was rebuilt in this epoch: what it consumed before and the
	// generations it used are forgotten
	rebuilt bool
	old     map[int]bool

	off     time.Duration
	failed  bool
	crashed bool
	created bool
	moved   bool
}

func (n *Node) live() bool { return n.group != nil && !n.gone }

func (w *World) fail(class string, tags []string, format string, args ...any) {
	slices.Sort(tags)
	panic(&Violation{Class: class, Tags: slices.Compact(tags), Msg: fmt.Sprintf(format, args...), Step: w.step})
}

func (w *World) bug(format string, args ...any) {
	panic(&harnessError{fmt.Sprintf(format, args...)})
}

// judge records an evaluated expectation.
func (w *World) judge(n *Node, tags []string, kind, outcome string, extra ...any) {
	if !slices.Contains(tags, w.cfg.Prop) {
		return
	}
	w.st.Evals++
	h := fnv.New64a()
	var ep *EpochW
	leaf := uint32(0)
	flags := 0
	if n != nil {
		ep, leaf = n.ep, n.leaf
		for i, b := range []bool{n.failed, n.crashed, n.created, n.moved, n.rebuilt} {
			if b {
				flags |= 1 << i
			}
		}
		flags |= min(len(n.cons), 3) << 6
		flags |= min(len(n.pend), 3) << 9
	}
	shape := uint64(0)
	if ep != nil {
		shape = ep.shapeHash()
	}
	fmt.Fprintf(h, "%x %d %s %s %d %v", shape, leaf, kind, outcome, flags, extra)
	k := h.Sum64()
	if !w.st.Situs[k] && len(w.st.Samples) < 5 {
		shown := "no group"
		if ep != nil {
			shown = ep.shapeString()
		}
		w.st.Samples = append(w.st.Samples, fmt.Sprintf("seed %d step %d: %s -> %s, receiver leaf %d, tree %s %v", w.cfg.Seed, w.step, kind, outcome, leaf, shown, extra))
	}
	w.st.Situs[k] = true
}

func (e *EpochW) shapeString() string {
	var b strings.Builder
	for i, n := range e.Tree {
		switch {
		case n == nil:
			b.WriteByte('_')
		case n.Leaf != nil:
			b.WriteByte("?kuc"[n.Leaf.Source&3])
		default:
			b.WriteByte('P')
			for range n.Parent.Unmerged {
				b.WriteByte('+')
			}
		}
		_ = i
	}
	return b.String()
}

func (e *EpochW) shapeHash() uint64 {
	if e.shape == 0 {
		h := fnv.New64a()
		fmt.Fprintf(h, "%d %s", e.CS, e.shapeString())
		e.shape = h.Sum64() | 1
	}
	return e.shape
}

func (w *World) fault(kind string) { w.st.Faults[kind]++ }

func (w *World) record(parts ...any) {
	fmt.Fprintf(w.hist, "%d|", w.step)
	for _, p := range parts {
		switch p := p.(type) {
		case []byte:
			s := sha256.Sum256(p)
			w.hist.Write(s[:])
		default:
			fmt.Fprintf(w.hist, "%v|", p)
		}
	}
}

func (w *World) log(format string, args ...any) {
	if w.logf != nil {
		w.logf("%3d  "+format, append([]any{w.step}, args...)...)
	}
}

// clock is the node's idea of the current time.
func (w *World) clock(n *Node) time.Time {
	t := base.Add(w.now)
	if n != nil {
		t = t.Add(n.off)
	}
	return t
}

// CallLimits bound what one operation of the library may use.
const (
	allocBase    = 6 << 20
	allocPerByte = 1536
	allocPerLeaf = 96 << 10
	denseAlloc   = 256 // per byte of a tree without gaps
)

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

// call runs one operation of the library at the node's time. in is the size of
// the operation's input.
func (w *World) call(n *Node, op string, in int, tags []string, f func()) {
	w.st.Ops++
	leaves := 1
	if n != nil && n.ep != nil {
		leaves = len(n.ep.Tree)
	}
	perByte := allocPerByte
	if w.perByte > 0 {
		perByte = w.perByte
	}
	limit := uint64(allocBase + perByte*in + allocPerLeaf*leaves)
	if w.progress != nil {
		w.progress.Begin(w.step, op, tags, limit)
	}
	at := w.clock(n)
	before := allocated()
	var pv any
	var stack string
	synctest.Test(w.t, func(*testing.T) {
		time.Sleep(at.Sub(bubbleStart))
		defer func() {
			if pv = recover(); pv != nil {
				buf := make([]byte, 8192)
				stack = string(buf[:runtime.Stack(buf, false)])
			}
		}()
		f()
	})
	if w.progress != nil {
		w.progress.End()
	}
	if pv != nil {
		if he, ok := pv.(*harnessError); ok {
			panic(he)
		}
		w.record("panic", op)
		w.fail("panic", append([]string{"C16"}, tags...), "%s panicked: %v at %s", op, pv, panicSite(stack))
	}
	used := allocated() - before
	w.st.MaxAlloc = max(w.st.MaxAlloc, used)
	w.st.MaxRatio = max(w.st.MaxRatio, float64(used)/float64(limit))
	w.judge(n, []string{"C17"}, "cost of "+op, "bounded", bucket(in), w.inFault)
	if used > limit {
		w.fail("cost", []string{"C17"}, "%s allocated %d MiB for an input of %d bytes and a tree of %d nodes", op, used>>20, in, leaves)
	}
}

func bucket(n int) int {
	b := 0
	for n > 0 {
		n >>= 1
		b++
	}
	return b
}

// panicSite extracts the library function that panicked.
func panicSite(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if i := strings.Index(l, "go-mls."); i >= 0 && !strings.HasPrefix(l, "\t") {
			if j := strings.LastIndexByte(l, '('); j > i {
				l = l[:j]
			}
			return l[i:]
		}
	}
	return "unknown"
}

// tags adds to base the properties whose premise the node's history satisfies.
func (w *World) tags(n *Node, baseTags ...string) []string {
	t := slices.Clone(baseTags)
	if n != nil {
		if n.failed {
			t = append(t, "C04")
		}
		if n.crashed {
			t = append(t, "C15")
		}
		if n.created {
			t = append(t, "C03")
		}
		if n.group != nil && !n.creator {
			t = append(t, "C02")
		}
	}
	if w.moved {
		t = append(t, "C14")
	}
	if w.cfg.Scrib || w.cfg.Share || w.split {
		t = append(t, "C18")
	}
	return t
}

// lend gives the library a private copy of a buffer, which done overwrites if
// the run scribbles.
func (w *World) lend(b []byte) (c []byte, done func()) {
	c = bytes.Clone(b)
	return c, func() {
		if w.cfg.Scrib {
			scribble(c)
		}
	}
}

func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0xa5
	}
}

// take copies a buffer returned by the library and overwrites the original if
// the run scribbles.
func (w *World) take(b []byte) []byte {
	c := bytes.Clone(b)
	if w.cfg.Scrib {
		scribble(b)
	}
	return c
}

// process gives a raw message to a node.
func (w *World) process(n *Node, raw []byte, tags []string) ([]byte, error) {
	b, done := w.lend(raw)
	var data []byte
	var err error
	w.call(n, "UnmarshalAndProcessMessage", len(raw), tags, func() {
		data, err = n.group.UnmarshalAndProcessMessage(b)
	})
	done()
	data = w.take(data)
	w.record("process", n.name, raw, err != nil, data)
	if err != nil {
		w.st.Rejects++
		if len(data) != 0 {
			w.fail("data-with-error", append(tags, "C05", "C13"), "%s got %d bytes together with error %v", n.name, len(data), err)
		}
	} else {
		w.st.Accepts++
	}
	return data, err
}

func short(b []byte) string {
	if len(b) > 6 {
		b = b[:6]
	}
	return hex.EncodeToString(b)
}

// Result is the outcome of one run.
type Result struct {
	Violation *Violation
	Harness   string
	Digest    string
	Steps     []Step `json:",omitempty"` // as executed
}

// Options of a run.
type Options struct {
	Steps    []Step // fixed steps; nil to generate
	NSteps   int    // number of steps to generate
	Logf     func(string, ...any)
	Progress Progress
}

// Progress observes the operations of a run, to notice those that do not end.
type Progress interface {
	Begin(step int, op string, tags []string, limit uint64)
	End()
}

// Run executes one run.
func Run(t *testing.T, cfg Config, prof *Profile, st *Stats, o Options) (res Result) {
	w := &World{
		t: t, cfg: cfg, st: st, keys: map[string][]byte{}, inits: map[string][]byte{}, genuine: map[string]bool{},
		hist: sha256.New(), logf: o.Logf, progress: o.Progress,
	}
	start := time.Duration(cfg.Later) * 365 * 24 * time.Hour
	w.now = start
	st.Runs++
	defer func() {
		st.SimSecs += (w.now - start).Seconds()
		res.Digest = hex.EncodeToString(w.hist.Sum(nil)[:16])
		switch p := recover().(type) {
		case nil:
		case *Violation:
			res.Violation = p
		case *harnessError:
			res.Harness = p.msg
		default:
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, false)]
			res.Harness = fmt.Sprintf("%v\n%s", p, buf)
		}
	}()

	w.step = -1
	w.r = newRng(cfg.Seed, 1)
	cryptotest.SetGlobalRandom(t, w.r.Uint64())
	w.setup()

	steps := o.Steps
	n := o.NSteps
	var gen *generator
	if steps == nil {
		gen = newGenerator(cfg, prof)
	} else {
		n = len(steps)
	}
	for i := 0; i < n; i++ {
		var s Step
		if steps != nil {
			s = steps[i]
		} else {
			s = gen.next(i)
		}
		res.Steps = append(res.Steps, s)
		w.step = i
		w.exec(s)
	}
	w.step = n
	w.r = newRng(cfg.Seed, 2)
	cryptotest.SetGlobalRandom(t, w.r.Uint64())
	w.finish()
	return res
}

func (w *World) exec(s Step) {
	w.st.Steps++
	w.r = newRng(w.cfg.Seed, 3, s.R)
	cryptotest.SetGlobalRandom(w.t, w.r.Uint64())
	w.now += time.Duration(w.r.Int64N(int64(90 * time.Second)))
	f := stepFuncs[s.K]
	if f == nil {
		w.bug("unknown step %q", s.K)
	}
	w.inFault = ""
	if f(w) {
		w.st.Kinds[s.K]++
	}
	w.inFault = ""
	for _, g := range w.groups {
		if g.head != nil {
			w.st.MaxLeaves = max(w.st.MaxLeaves, int(g.head.Tree.Leaves()))
			w.st.MaxEpoch = max(w.st.MaxEpoch, len(g.chain))
		}
	}
}
