package world

import (
	"cmp"
	"maps"
	"slices"
)

// Profile says which events a check schedules how often.
type Profile struct {
	Weights map[string]int
	// Keep lists the kinds that swarm variation never turns off.
	Keep     []string
	MinSteps int
	MaxSteps int
	Config   func(r Rng, c *Config)
}

// honest traffic, common to all profiles
var honest = map[string]int{
	"app": 8, "sutapp": 8, "propose": 8, "commit": 14, "invite": 6,
	"deliver": 20, "stray": 4, "sync": 8, "join": 5, "probe": 3, "deep": 2,
}

func mix(extra map[string]int) map[string]int {
	m := maps.Clone(honest)
	maps.Copy(m, extra)
	return m
}

// Profiles has one entry for each claimed property.
var Profiles = map[string]*Profile{
	"C01": {Weights: mix(map[string]int{"hollow": 1, "split": 1, "stray": 2, "probe": 6, "deep": 3, "burst": 1}), Keep: []string{"commit", "deliver"}},
	"C02": {Weights: mix(map[string]int{"hollow": 2, "invite": 14, "join": 14, "commit": 18, "stray": 1, "clock": 1}), Keep: []string{"commit", "join"}},
	"C03": {Weights: mix(map[string]int{"invite": 24, "deep": 8, "sutapp": 14, "entropy": 2}), Keep: []string{"invite", "sync"}},
	"C04": {Weights: mix(map[string]int{"stale": 1, "split": 1, "flood": 1, "misaddr": 4, "byz": 14, "alter": 8, "forge": 8, "stray": 6, "entropy": 8, "badkp": 8, "alterk": 3, "garbage": 3, "probe": 6, "deep": 6, "burst": 1}), Keep: []string{"commit", "sync"},
		Config: func(r Rng, c *Config) { c.Final = true; c.Probe = 50 }},
	"C05": {Weights: mix(map[string]int{"alter": 45, "alterw": 16, "alterk": 14, "garbage": 4}), Keep: []string{"alter", "alterw", "alterk"},
		Config: func(r Rng, c *Config) { c.Probe = min(c.Probe, 20) }},
	"C06": {Weights: mix(map[string]int{"stale": 6, "split": 4, "stray": 45, "misaddr": 25, "commit": 20, "invite": 10}), Keep: []string{"stray", "misaddr", "commit"},
		Config: func(r Rng, c *Config) { c.NGroup = 1 + r.IntN(3); c.SameID = r.P(40); c.Share = r.P(50) }},
	"C07": {Weights: mix(map[string]int{"forge": 60, "pose": 6}), Keep: []string{"forge", "commit"},
		Config: func(r Rng, c *Config) { c.Probe = min(c.Probe, 20) }},
	"C08": {Weights: mix(map[string]int{"byz": 60, "badkp": 10, "pose": 2}), Keep: []string{"byz", "commit"},
		Config: func(r Rng, c *Config) { c.NRef = max(c.NRef, 2); c.Probe = min(c.Probe, 20) }},
	"C09": {Weights: mix(map[string]int{"badwel": 50, "alterw": 5}), Keep: []string{"badwel", "commit"},
		Config: func(r Rng, c *Config) { c.NRef = max(c.NRef, 2) }},
	"C10": {Weights: mix(map[string]int{"badkp": 50, "alterk": 8, "invite": 12}), Keep: []string{"badkp", "commit"},
		Config: func(r Rng, c *Config) { c.Probe = min(c.Probe, 20) }},
	"C11": {Weights: mix(map[string]int{"stale": 6, "flood": 2, "pose": 2, "propose": 40, "commit": 24, "deliver": 50, "sync": 4, "byz": 8, "invite": 2}), Keep: []string{"propose", "commit", "deliver"},
		Config: func(r Rng, c *Config) { c.NRef = max(c.NRef, 3) }},
	"C12": {Weights: mix(map[string]int{"byz": 3, "badkp": 4, "forge": 2, "sutapp": 40, "deep": 12, "invite": 12, "probe": 10, "entropy": 4, "alter": 4, "burst": 4}), Keep: []string{"sutapp", "deliver"}},
	"C13": {Weights: mix(map[string]int{"byz": 3, "flood": 1, "app": 40, "sutapp": 20, "deliver": 80, "commit": 6, "alter": 6, "forge": 4, "stray": 6, "burst": 5}), Keep: []string{"app", "deliver"},
		Config: func(r Rng, c *Config) {
			if r.P(40) {
				c.Gap = 1 + uint32(r.IntN(120))
			}
		}},
	"C14": {Weights: mix(map[string]int{"clock": 30, "invite": 16, "join": 12, "deep": 8}), Keep: []string{"clock", "invite", "join"},
		Config: func(r Rng, c *Config) {
			c.Skew = r.P(60)
			if r.P(10) {
				c.Later = 1 + r.IntN(120)
			}
		}},
	"C15": {Weights: mix(map[string]int{"split": 1, "crash": 18, "codec": 6, "stray": 6, "alter": 3}), Keep: []string{"crash", "commit"}},
	"C16": {Weights: mix(map[string]int{"misaddr": 2, "garbage": 25, "byz": 20, "forge": 12, "badkp": 12, "badwel": 20, "alter": 8, "alterw": 6, "alterk": 6, "cost": 4, "entropy": 2}), Keep: []string{"commit"}},
	"C17": {Weights: mix(map[string]int{"cost": 45, "byz": 8, "forge": 6, "badwel": 10, "garbage": 6}), Keep: []string{"cost", "commit"}},
	"C18": {Weights: mix(map[string]int{"split": 5, "invite": 12, "join": 10, "deep": 6, "alterw": 4, "badwel": 3, "byz": 3}), Keep: []string{"commit", "deliver"},
		Config: func(r Rng, c *Config) {
			c.Share, c.Scrib = r.P(70), r.P(70)
			if !c.Share && !c.Scrib {
				c.Scrib = true
			}
			c.NGroup = 2
			c.SameID = r.P(30)
			c.Final = true
		}},
}

// NewConfig draws the configuration of a run.
func NewConfig(prop string, seed uint64) Config {
	r := newRng(seed, 10)
	c := Config{Prop: prop, Seed: seed, NGroup: 1, Final: r.P(30)}
	switch k := r.IntN(20); {
	case k < 8:
		c.Suite = 1
	case k < 16:
		c.Suite = 3
	case k < 19:
		c.Suite = 2
	default:
		c.Suite = 7
	}
	c.NSut = 1 + r.IntN(4)
	c.NRef = 1 + r.IntN(4)
	c.Max = 3 + r.IntN(7)
	if r.P(25) {
		c.Max = 10 + r.IntN(12)
		c.NRef += r.IntN(6)
	}
	c.Max = max(c.Max, c.NSut+c.NRef+1)
	c.SutNew = r.P(35)
	c.Probe = []int{0, 20, 50, 100}[r.IntN(4)]
	c.Pad = r.P(50)
	c.Public = []int{0, 20, 50, 100}[r.IntN(4)]
	if r.P(50) {
		c.Gap = 1 + uint32(r.IntN(8))
	}
	if r.P(15) {
		c.NGroup = 2
		c.SameID = r.P(30)
	}
	if r.P(6) {
		// past the end of 32-bit seconds, signed or not
		c.Later = []int{13, 14, 40, 81, 82, 110}[r.IntN(6)]
	}
	if p := Profiles[prop]; p.Config != nil {
		p.Config(r, &c)
	}
	if c.Suite == 2 || c.Suite == 7 {
		// slow suites
		c.Max = min(c.Max, 9)
		c.NRef = min(c.NRef, 4)
		c.Max = max(c.Max, c.NSut+c.NRef+1)
	} else if r.P(3) {
		// a large group
		c.NRef = 20 + r.IntN(40)
		c.Max = c.NSut + c.NRef + 1 + r.IntN(10)
		c.NGroup = 1
		if r.P(15) {
			c.NRef = 240 + r.IntN(20)
			c.Max = c.NSut + c.NRef + 1 + r.IntN(15)
		}
	}
	return c
}

type generator struct {
	r     Rng
	kinds []string
	cum   []int
}

func newGenerator(cfg Config, p *Profile) *generator {
	g := &generator{r: newRng(cfg.Seed, 11)}
	total := 0
	for _, k := range slices.Sorted(maps.Keys(p.Weights)) {
		wt := p.Weights[k] * 4
		keep := slices.Contains(p.Keep, k)
		switch x := g.r.IntN(10); {
		case x < 3 && !keep:
			wt = 0
		case x < 5:
			wt /= 2
		case x == 9:
			wt *= 4
		}
		if wt == 0 {
			continue
		}
		total += wt
		g.kinds = append(g.kinds, k)
		g.cum = append(g.cum, total)
	}
	return g
}

func (g *generator) next(i int) Step {
	x := g.r.IntN(g.cum[len(g.cum)-1])
	j, found := slices.BinarySearch(g.cum, x)
	if found {
		j++
	}
	return Step{g.kinds[j], g.r.Uint64() >> 11}
}

// StepCount draws the length of a run.
func StepCount(prop string, seed uint64) int {
	r := newRng(seed, 12)
	p := Profiles[prop]
	lo, hi := cmp.Or(p.MinSteps, 8), cmp.Or(p.MaxSteps, 60)
	if r.P(10) {
		hi *= 3
	}
	return lo + r.IntN(hi-lo)
}

// Plan generates the steps of a run without executing it.
func Plan(prop string, seed uint64) (Config, []Step) {
	c := NewConfig(prop, seed)
	g := newGenerator(c, Profiles[prop])
	steps := make([]Step, StepCount(prop, seed))
	for i := range steps {
		steps[i] = g.next(i)
	}
	return c, steps
}
