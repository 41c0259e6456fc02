package world

import (
	"bytes"
	"slices"
	"time"

	mls "github.com/emersion/go-mls"

	"verif/sim/ref"
)

var stepFuncs map[string]func(*World) bool

func init() {
	stepFuncs = map[string]func(*World) bool{
		"app":     (*World).stepApp,
		"sutapp":  (*World).stepSutApp,
		"propose": (*World).stepPropose,
		"commit":  (*World).stepCommit,
		"invite":  (*World).stepInvite,
		"deliver": (*World).stepDeliver,
		"stray":   (*World).stepStray,
		"sync":    (*World).stepSync,
		"join":    (*World).stepJoin,
		"crash":   (*World).stepCrash,
		"clock":   (*World).stepClock,
		"probe":   (*World).stepProbe,
		"deep":    (*World).stepDeep,
		"codec":   (*World).stepCodec,
		"entropy": (*World).stepEntropy,
		"alter":   (*World).stepAlter,
		"alterw":  (*World).stepAlterWelcome,
		"alterk":  (*World).stepAlterKP,
		"garbage": (*World).stepGarbage,
		"forge":   (*World).stepForge,
		"byz":     (*World).stepByzCommit,
		"badkp":   (*World).stepBadKP,
		"badwel":  (*World).stepBadWelcome,
		"cost":    (*World).stepCost,
		"burst":   (*World).stepBurst,
		"misaddr": (*World).stepMisaddressed,
		"pose":    (*World).stepPose,
		"stale":   (*World).stepStale,
		"flood":   (*World).stepFlood,
		"split":   (*World).stepSplit,
		"hollow":  (*World).stepHollow,
	}
}

func (w *World) group() *GroupW { return pick(w.r, w.groups) }

// liveNode picks a node that can act, or nil.
func (w *World) liveNode(f func(n *Node) bool) *Node {
	var c []*Node
	for _, n := range w.nodes {
		if n.live() && (f == nil || f(n)) {
			c = append(c, n)
		}
	}
	if len(c) == 0 {
		return nil
	}
	return pick(w.r, c)
}

// busyEpoch picks an epoch in which there is a live node, preferring the
// newest.
func (w *World) busyEpoch(g *GroupW) *EpochW {
	if w.r.P(60) {
		return g.head
	}
	if n := w.liveNode(func(n *Node) bool { return n.g == g }); n != nil {
		return n.ep
	}
	return g.head
}

func (w *World) stepApp() bool {
	e := w.busyEpoch(w.group())
	refs := w.refLeaves(e)
	if len(refs) == 0 {
		return false
	}
	m := w.refApp(e, pick(w.r, refs))
	w.log("reference leaf %d sends %v", m.sender, m)
	if w.r.P(40) {
		for _, n := range e.g.nodes {
			if n.live() && n.ep == e && w.r.P(50) {
				w.deliver(n, m)
			}
		}
	}
	return true
}

func (w *World) stepSutApp() bool {
	n := w.liveNode(func(n *Node) bool { return !n.rebuilt })
	if n == nil {
		return false
	}
	m := w.sutApp(n, w.payload())
	w.log("%s sends %v", n.name, m)
	if w.r.P(40) {
		for _, o := range n.g.nodes {
			if o.live() && o != n && o.ep == n.ep && w.r.P(50) {
				w.deliver(o, m)
			}
		}
	}
	return true
}

// stepBurst sends many messages at once, which arrive in any order or not at
// all.
func (w *World) stepBurst() bool {
	n := w.liveNode(nil)
	if n == nil {
		return false
	}
	if w.r.IntN(500) == 0 {
		return w.marathon(n)
	}
	e := n.ep
	k := 10 + w.r.IntN(30)
	if w.r.P(15) {
		k = 100 + w.r.IntN(200)
	}
	var msgs []*Msg
	refs := w.refLeaves(e)
	if s := w.liveNode(func(s *Node) bool { return s != n && s.ep == e && !s.rebuilt }); s != nil && (len(refs) == 0 || w.r.P(50)) {
		for ; k > 0; k-- {
			msgs = append(msgs, w.makeApp(s, w.r.Bytes(w.r.IntN(4))))
		}
	} else if len(refs) > 0 {
		li := pick(w.r, refs)
		if w.r.P(10) {
			w.leap(n, li)
		}
		for ; k > 0 && e.gens[genKey{li, false}] < 700; k-- {
			msgs = append(msgs, w.refApp(e, li))
			e.msgs = e.msgs[:len(e.msgs)-1]
		}
	}
	if len(msgs) == 0 {
		return false
	}
	w.log("burst of %d messages by leaf %d to %s", len(msgs), msgs[0].sender, n.name)
	w.fault("burst of messages")
	switch w.r.IntN(4) {
	case 0:
	case 1:
		slices.Reverse(msgs)
		w.fault("messages reversed")
	default:
		w.r.Shuffle(len(msgs), func(i, j int) { msgs[i], msgs[j] = msgs[j], msgs[i] })
		w.fault("messages shuffled")
	}
	for _, m := range msgs[w.r.IntN(len(msgs)):] {
		w.deliver(n, m)
	}
	for i := w.r.IntN(4); i > 0; i-- {
		w.deliver(n, pick(w.r, msgs))
	}
	// some may still arrive later
	e.msgs = append(e.msgs, msgs[:min(len(msgs), 4)]...)
	return true
}

// leap lets most messages of a member get lost, more than a receiver has to put
// up with at once but not more than it has to remember.
func (w *World) leap(n *Node, li uint32) {
	e, k := n.ep, genKey{li, false}
	if e.leapt[k] || e.gens[k] > 850 {
		return
	}
	e.leapt[k] = true
	w.fault("thousands of messages lost")
	back := e.gens[k]
	gen := uint32(1000)
	jumps := 1 + w.r.IntN(5)
	if w.r.P(5) {
		jumps = 80
	}
	for ; jumps > 0; jumps-- {
		e.gens[k] = gen
		m := w.refApp(e, li)
		e.msgs = e.msgs[:len(e.msgs)-1]
		w.deliver(n, m)
		gen = e.gens[k] + 800 + uint32(w.r.IntN(220))
	}
	// what follows has been sent before
	e.gens[k] = back
}

// marathon lets a node send more messages in one epoch than 16 bits can count.
// Another one gets some of them. The epoch ends then.
func (w *World) marathon(n *Node) bool {
	e := n.ep
	refs := w.refLeaves(e)
	if e != n.g.head || n.rebuilt || len(refs) == 0 || w.cfg.Suite != 1 && w.cfg.Suite != 3 {
		return false
	}
	o := w.liveNode(func(o *Node) bool { return o != n && o.ep == e })
	w.fault("more than 65,536 messages")
	tags := w.tags(n, "C01", "C03", "C12")
	last := uint32(0)
	for sent := 0; sent < 1<<16+5; {
		var raws [][]byte
		var err error
		w.call(n, "CreateApplicationMessage", 1<<16, tags, func() {
			for range 600 {
				var raw []byte
				if raw, err = n.group.CreateApplicationMessage(nil); err != nil {
					return
				}
				raws = append(raws, raw)
			}
		})
		if err != nil {
			w.fail("reject-valid", tags, "%s cannot create an application message: %v", n.name, err)
		}
		sent += len(raws)
		for _, raw := range raws {
			li, gen, err := e.Peek(raw)
			if err != nil || li != n.leaf {
				w.fail("state-diverged", tags, "application message created by %s is invalid: %v", n.name, err)
			}
			w.checkGen(n, false, gen, "application data")
			last = gen
		}
		m := w.makeApp(n, w.r.Bytes(3))
		if o != nil {
			w.deliver(o, m)
		}
	}
	w.log("%s sends until generation %d", n.name, last)
	li := pick(w.r, refs)
	m := w.refCommit(e, ref.CommitSpec{Sender: li, Path: true}, nil)
	w.win(m)
	w.deliver(n, m)
	return true
}

// stepFlood sends many proposals, of which the next commit uses some.
func (w *World) stepFlood() bool {
	n := w.liveNode(func(n *Node) bool { return n.ep == n.g.head && len(w.refLeaves(n.ep)) > 1 })
	if n == nil {
		return false
	}
	e := n.ep
	refs := w.refLeaves(e)
	k := 10 + w.r.IntN(30)
	if w.r.P(30) {
		k += w.r.IntN(120)
	}
	if w.r.P(8) {
		k += 100 + w.r.IntN(200)
	}
	var msgs []*Msg
	for ; k > 0; k-- {
		li := pick(w.r, refs)
		p := &ref.Proposal{Type: ref.PropRemove}
		if x, ok := w.removable(e, li); ok && w.r.P(70) {
			p.Removed = x
		} else {
			p = &ref.Proposal{Type: ref.PropUpdate, Leaf: w.updateLeaf(e, li)}
		}
		msgs = append(msgs, w.refProposal(e, li, p))
	}
	w.fault("flood of proposals")
	w.log("%d proposals to %s", len(msgs), n.name)
	if w.r.P(60) {
		w.r.Shuffle(len(msgs), func(i, j int) { msgs[i], msgs[j] = msgs[j], msgs[i] })
	}
	for _, m := range msgs {
		w.deliver(n, m)
	}
	spec, nodes := w.honestSpec(e, pick(w.r, refs))
	m := w.refCommit(e, spec, nodes)
	w.win(m)
	return w.deliver(n, m)
}

// stepHollow empties a part of a large tree, invites clients into it, and
// lets members far away renew the keys above them.
func (w *World) stepHollow() bool {
	g := w.group()
	refs := w.refLeaves(g.head)
	if len(refs) == 0 {
		return false
	}
	if k := 9 + w.r.IntN(8) - len(g.head.Tree.Members()); k > 0 {
		s := w.newSet(g.head, pick(w.r, refs))
		for ; k > 0; k-- {
			s.add(&ref.Proposal{Type: ref.PropAdd, KP: w.newRefClient().kp}, s.spec.Sender, nil, nil)
		}
		s.spec.Path = w.r.P(70)
		w.win(w.refCommit(s.e, *s.spec, s.nodes))
	}
	e := g.head
	refs = w.refLeaves(e)
	li := pick(w.r, refs)
	size := pick(w.r, []uint32{2, 2, 4})
	lo := li / (2 * size) * 2 * size
	s := w.newSet(e, li)
	for _, x := range e.Tree.Members() {
		if x >= lo && x < lo+2*size && x != li && (x/size != li/size || w.r.P(70)) {
			s.add(&ref.Proposal{Type: ref.PropRemove, Removed: x}, li, nil, nil)
		}
	}
	if len(s.leafs) == 0 {
		return false
	}
	s.spec.Path = true
	w.win(w.refCommit(e, *s.spec, nil))
	w.log("emptied around leaf %d", li)

	// fill up to the first free leaf there, and invite
	e = g.head
	s = w.newSet(e, li)
	for x := uint32(0); x < lo; x++ {
		if e.Tree.Leaf(x) == nil {
			s.add(&ref.Proposal{Type: ref.PropAdd, KP: w.newRefClient().kp}, li, nil, nil)
		}
	}
	for i := w.r.IntN(2); i >= 0; i-- {
		n := w.client(g)
		s.add(&ref.Proposal{Type: ref.PropAdd, KP: n.refKP}, li, nil, n)
	}
	s.spec.Path = w.r.P(80)
	m := w.refCommit(e, *s.spec, s.nodes)
	w.win(m)
	for _, n := range m.nodes {
		if n != nil && n.group == nil && !n.gone {
			w.join(n)
		}
	}
	for i := w.r.IntN(3); i >= 0; i-- {
		w.win(w.refCommit(g.head, ref.CommitSpec{Sender: pick(w.r, w.refLeaves(g.head)), Path: true}, nil))
	}
	for _, n := range m.nodes {
		if n != nil {
			w.catchUp(n, 3)
		}
	}
	return true
}

func (w *World) newSet(e *EpochW, li uint32) *propSet {
	return &propSet{spec: &ref.CommitSpec{Sender: li}, e: e, room: 1 << 20, leafs: map[uint32]bool{}, keys: map[string]bool{}}
}

// stepSplit shows different commits to different members: the group falls
// apart into two with the same name, number and past.
func (w *World) stepSplit() bool {
	n := w.liveNode(func(n *Node) bool { return n.ep == n.g.head && len(w.refLeaves(n.ep)) > 0 })
	if n == nil || len(w.groups) >= w.cfg.NGroup+2 {
		return false
	}
	g, e := n.g, n.ep
	refs := w.refLeaves(e)
	spec, nodes := w.honestSpec(e, pick(w.r, refs))
	m1 := w.refCommit(e, spec, nodes)
	// the other one: the same changes made by somebody else, or anything
	spec2, nodes2 := w.honestSpec(e, pick(w.r, refs))
	if !spec.Path && w.r.P(70) {
		spec2, nodes2 = ref.CommitSpec{Sender: pick(w.r, refs), Props: spec.Props, Resolved: spec.Resolved}, nodes
	}
	g2 := &GroupW{idx: len(w.groups), id: g.id}
	for i, c := range nodes2 {
		if c != nil {
			nodes2 = slices.Clone(nodes2)
			nodes2[i] = w.double(c, g2)
		}
	}
	m2 := w.refCommit(e, spec2, nodes2)
	if bytes.Equal(m1.next.Ctx.Bytes(), m2.next.Ctx.Bytes()) {
		return false
	}
	w.fault("group split")
	w.split = true
	w.win(m1)
	w.groups = append(w.groups, g2)
	m2.next.fork = false
	m2.next.g = g2
	g2.advance(m2.next, nil)
	w.log("group splits, other epoch %d: %s", m2.next.Ctx.Epoch, m2.next.shapeString())
	for i, c := range m2.nodes {
		if c != nil {
			w.placeNode(g2, c, m2.next, m2.welcome, m2.kps[i])
		}
	}
	for _, o := range slices.Clone(g.nodes) {
		if !o.live() || o.ep != e || o.creator && w.r.P(50) || m2.next.Tree.Leaf(o.leaf) == nil || !bytes.Equal(m2.next.Tree.Leaf(o.leaf).SigKey, o.refKP.Leaf.SigKey) || w.r.P(40) {
			continue
		}
		c := o
		if must, _ := o.canRebuild(w); must && w.r.P(40) {
			// this member sees both
			c = w.double(o, g2)
			c.welcome, c.joinEp, c.leaf, c.crashed = o.welcome, o.joinEp, o.leaf, true
			c.ep, c.log = e, slices.Clone(o.log)
			w.replay(c)
		} else {
			g.nodes = slices.DeleteFunc(g.nodes, func(x *Node) bool { return x == o })
		}
		c.g = g2
		g2.nodes = append(g2.nodes, c)
		for _, r := range m2.refs {
			if !c.pend[r] {
				i := slices.IndexFunc(e.msgs, func(p *Msg) bool { return p.kind == kindProp && string(p.ref) == r })
				if i < 0 {
					w.bug("proposal of %v not found", m2)
				}
				w.deliver(c, e.msgs[i])
			}
		}
		// its delivery service says that this commit has won
		won := e.won
		e.won = m2
		w.deliver(c, m2)
		e.won = won
		if c.ep != m2.next {
			w.bug("%s does not follow the split", c.name)
		}
	}
	return true
}

// double makes another instance of a client, which is in no group yet.
func (w *World) double(o *Node, g *GroupW) *Node {
	n := &Node{name: w.name("sut") + "=" + o.name, g: g, kp: o.kp, refKP: o.refKP, kpRaw: o.kpRaw, priv: o.priv, off: o.off, moved: o.moved}
	w.nodes = append(w.nodes, n)
	return n
}

// newClient makes a client to be added: a reference client or a new node.
func (w *World) newClient(g *GroupW) (*ref.KeyPackage, *Node) {
	if w.r.P(50) {
		return w.newRefClient().kp, nil
	}
	if w.r.P(30) {
		// somebody who was invited in vain before
		for _, n := range w.nodes {
			if n.g == g && n.ep == nil && !n.creator {
				return n.refKP, n
			}
		}
	}
	n := w.client(g)
	return n.refKP, n
}

func (w *World) room(e *EpochW) int { return w.cfg.Max - len(e.Tree.Members()) }

// removable picks a member other than li that may be removed.
func (w *World) removable(e *EpochW, li uint32) (uint32, bool) {
	refs, suts := w.refLeaves(e), w.sutLeaves(e)
	refs = slices.DeleteFunc(refs, func(x uint32) bool { return x == li })
	if len(suts) > 1 && w.r.P(45) || len(suts) == 1 && w.r.P(5) {
		return pick(w.r, suts), true
	}
	if len(refs) > 0 {
		return pick(w.r, refs), true
	}
	return 0, false
}

// someProposal makes an honest proposal of a reference member.
func (w *World) someProposal(e *EpochW, li uint32, update bool) (*ref.Proposal, *Node) {
	if update && len(e.Tree.Members()) > 2 && w.r.P(8) {
		// it wants to leave
		return &ref.Proposal{Type: ref.PropRemove, Removed: li}, nil
	}
	switch k := w.r.IntN(10); {
	case k < 4 && w.room(e) > 0:
		kp, n := w.newClient(e.g)
		return &ref.Proposal{Type: ref.PropAdd, KP: kp}, n
	case k < 7 && update:
		return &ref.Proposal{Type: ref.PropUpdate, Leaf: w.updateLeaf(e, li)}, nil
	default:
		if x, ok := w.removable(e, li); ok && (len(e.Tree.Members()) > 2 || w.r.P(20)) {
			return &ref.Proposal{Type: ref.PropRemove, Removed: x}, nil
		}
	}
	return nil, nil
}

func (w *World) stepPropose() bool {
	e := w.busyEpoch(w.group())
	refs := w.refLeaves(e)
	if len(refs) == 0 {
		return false
	}
	li := pick(w.r, refs)
	p, n := w.someProposal(e, li, true)
	if p == nil {
		return false
	}
	m := w.refProposal(e, li, p)
	if n != nil {
		m.nodes = []*Node{n}
	}
	w.log("reference leaf %d proposes %v type %d", li, m, p.Type)
	if w.r.P(60) {
		for _, n := range e.g.nodes {
			if n.live() && n.ep == e && w.r.P(60) {
				w.deliver(n, m)
			}
		}
	}
	return true
}

// propSet is a valid list of proposals under construction.
type propSet struct {
	spec  *ref.CommitSpec
	e     *EpochW
	room  int
	leafs map[uint32]bool // leaves updated or removed
	keys  map[string]bool
	nodes []*Node
}

func (s *propSet) add(p *ref.Proposal, sender uint32, pr []byte, n *Node) bool {
	switch p.Type {
	case ref.PropAdd:
		if s.room <= 0 || s.keys[string(p.KP.Leaf.SigKey)] || n != nil && n.ep != nil {
			return false
		}
		s.keys[string(p.KP.Leaf.SigKey)] = true
		s.room--
		s.nodes = append(s.nodes, n)
	case ref.PropUpdate:
		if sender == s.spec.Sender || s.leafs[sender] {
			return false
		}
		s.leafs[sender] = true
	case ref.PropRemove:
		if p.Removed == s.spec.Sender || s.leafs[p.Removed] {
			return false
		}
		s.leafs[p.Removed] = true
	}
	por := ref.PropOrRef{Prop: p}
	if pr != nil {
		por = ref.PropOrRef{Ref: pr}
	}
	s.spec.Props = append(s.spec.Props, por)
	s.spec.Resolved = append(s.spec.Resolved, ref.Resolved{Prop: p, Sender: sender})
	return true
}

func needsPath(spec *ref.CommitSpec) bool {
	if len(spec.Resolved) == 0 {
		return true
	}
	for _, p := range spec.Resolved {
		if p.Prop.Type != ref.PropAdd {
			return true
		}
	}
	return false
}

// honestSpec draws a valid commit by a reference member of the epoch.
func (w *World) honestSpec(e *EpochW, li uint32) (ref.CommitSpec, []*Node) {
	spec := ref.CommitSpec{Sender: li}
	if w.r.P(10) {
		// nothing but new keys
		spec.Path = true
		return spec, nil
	}
	s := &propSet{spec: &spec, e: e, room: w.room(e), leafs: map[uint32]bool{}, keys: map[string]bool{}}
	var props []*Msg
	for _, m := range e.msgs {
		if m.kind == kindProp {
			props = append(props, m)
		}
	}
	w.r.Shuffle(len(props), func(i, j int) { props[i], props[j] = props[j], props[i] })
	take := w.r.IntN(101)
	for _, m := range props {
		if w.r.P(take) {
			var n *Node
			if m.nodes != nil {
				n = m.nodes[0]
			}
			s.add(m.prop, m.sender, m.ref, n)
		}
	}
	if w.r.P(55) {
		for i := w.r.IntN(3); i >= 0; i-- {
			if p, n := w.someProposal(e, li, false); p != nil {
				s.add(p, li, nil, n)
			}
		}
	}
	if w.r.P(6) {
		w.successor(s, li)
	}
	if w.r.P(30) {
		w.r.Shuffle(len(spec.Props), func(i, j int) {
			spec.Props[i], spec.Props[j] = spec.Props[j], spec.Props[i]
			spec.Resolved[i], spec.Resolved[j] = spec.Resolved[j], spec.Resolved[i]
		})
		// keep the nodes in the order of their add proposals
		byKey := map[string]*Node{}
		for _, n := range s.nodes {
			if n != nil {
				byKey[string(n.refKP.Leaf.SigKey)] = n
			}
		}
		s.nodes = nil
		for _, p := range spec.Resolved {
			if p.Prop.Type == ref.PropAdd {
				s.nodes = append(s.nodes, byKey[string(p.Prop.KP.Leaf.SigKey)])
			}
		}
	}
	spec.Path = needsPath(&spec) || w.r.P(50)
	return spec, s.nodes
}

// successor adds a client with the signature key that a member gives up in the
// same commit.
func (w *World) successor(s *propSet, li uint32) {
	refs := slices.DeleteFunc(w.refLeaves(s.e), func(x uint32) bool { return x == li || s.leafs[x] })
	if len(refs) == 0 || s.room <= 0 {
		return
	}
	x := pick(w.r, refs)
	old := s.e.Tree.Leaf(x)
	c := w.newRefClient()
	c.sig = ref.KeyPair{Pub: old.SigKey, Priv: w.sigPriv(s.e, x)}
	c.kp.Leaf.SigKey = old.SigKey
	if w.r.P(50) {
		c.kp.Leaf.Cred = old.Cred
	}
	w.signKP(c)
	if w.r.P(60) {
		s.add(&ref.Proposal{Type: ref.PropRemove, Removed: x}, li, nil, nil)
	} else {
		l := w.updateLeaf(s.e, x)
		k := w.newSig()
		l.SigKey = k.Pub
		l.SignLeaf(s.e.CS, s.e.Ctx.GroupID, x, k.Priv)
		p := &ref.Proposal{Type: ref.PropUpdate, Leaf: l}
		s.add(p, x, w.refProposal(s.e, x, p).ref, nil)
	}
	s.add(&ref.Proposal{Type: ref.PropAdd, KP: c.kp}, li, nil, nil)
}

func (w *World) stepCommit() bool {
	g := w.group()
	e := g.head
	refs := w.refLeaves(e)
	if len(refs) == 0 {
		return false
	}
	spec, nodes := w.honestSpec(e, pick(w.r, refs))
	m := w.refCommit(e, spec, nodes)
	if w.r.P(20) {
		w.lose(m)
		return true
	}
	w.win(m)
	if w.r.P(50) {
		for _, n := range g.nodes {
			if n.live() && n.ep == e && w.r.P(60) {
				w.deliver(n, m)
			}
		}
	}
	return true
}

func (w *World) stepInvite() bool {
	n := w.liveNode(func(n *Node) bool { return !n.rebuilt && n.ep == n.g.head })
	if n == nil {
		return false
	}
	k := 1 + w.r.IntN(3)
	if w.r.P(8) {
		k = 4 + w.r.IntN(6)
	}
	if w.r.P(2) {
		k = 10 + w.r.IntN(40)
	}
	win := w.r.P(60)
	if win {
		k = min(k, w.room(n.ep))
	}
	if k <= 0 {
		return false
	}
	var kps []*ref.KeyPackage
	var nodes []*Node
	for i := 0; i < k; i++ {
		kp, c := w.newClient(n.g)
		if slices.ContainsFunc(kps, func(o *ref.KeyPackage) bool { return bytes.Equal(o.InitKey, kp.InitKey) }) {
			continue
		}
		kps = append(kps, kp)
		nodes = append(nodes, c)
	}
	m := w.invite(n, kps, nodes)
	if m == nil {
		return true
	}
	if !win {
		w.lose(m)
		return true
	}
	w.win(m)
	if w.r.P(60) {
		for _, o := range n.g.nodes {
			if o.live() && o.ep == m.ep && w.r.P(60) {
				w.deliver(o, m)
			}
		}
	}
	return true
}

func (w *World) stepDeliver() bool {
	n := w.liveNode(nil)
	if n == nil || len(n.ep.msgs) == 0 {
		return false
	}
	return w.deliver(n, pick(w.r, n.ep.msgs))
}

// stepStray delivers something that is not of the node's epoch.
func (w *World) stepStray() bool {
	var c []*Node
	for _, n := range w.nodes {
		if n.group != nil {
			c = append(c, n)
		}
	}
	if len(c) == 0 {
		return false
	}
	n := pick(w.r, c)
	var from []*EpochW
	switch w.r.IntN(4) {
	case 0:
		from = pick(w.r, w.groups).chain
	case 1:
		from = n.g.chain
	case 2:
		from = n.g.forks
	default:
		i := slices.Index(n.g.chain, n.ep)
		from = n.g.chain[max(0, i-1):min(len(n.g.chain), i+2)]
	}
	if len(from) == 0 {
		return false
	}
	e := pick(w.r, from)
	if e.fork {
		w.forkTraffic(e)
	}
	if len(e.msgs) == 0 {
		return false
	}
	return w.deliver(n, pick(w.r, e.msgs))
}

// forkTraffic makes reference members that followed a discarded commit talk.
func (w *World) forkTraffic(e *EpochW) {
	if len(e.msgs) > 4 {
		return
	}
	refs := w.refLeaves(e)
	if len(refs) == 0 {
		return
	}
	li := pick(w.r, refs)
	switch w.r.IntN(3) {
	case 0:
		w.refApp(e, li)
	case 1:
		w.refProposal(e, li, &ref.Proposal{Type: ref.PropUpdate, Leaf: w.updateLeaf(e, li)})
	default:
		m := w.refCommit(e, ref.CommitSpec{Sender: li, Path: true}, nil)
		e.msgs = append(e.msgs, m)
	}
}

func (w *World) stepSync() bool {
	n := w.liveNode(func(n *Node) bool { return n.ep.won != nil })
	if n == nil {
		return false
	}
	w.catchUp(n, 1+w.r.IntN(3))
	return true
}

func (w *World) stepJoin() bool {
	var c []*Node
	for _, g := range w.groups {
		for _, n := range g.nodes {
			if n.group == nil && !n.gone {
				c = append(c, n)
			}
		}
	}
	if len(c) == 0 {
		return false
	}
	w.join(pick(w.r, c))
	return true
}

// canRebuild tells whether lifetimes allow to join once more.
func (n *Node) canRebuild(w *World) (must, never bool) {
	if n.creator {
		return false, false
	}
	return w.joinTime(n, n.joinEp)
}

// stepCrash takes a node's memory away and rebuilds it from storage.
func (w *World) stepCrash() bool {
	n := w.liveNode(func(n *Node) bool {
		must, _ := n.canRebuild(w)
		return must
	})
	if n == nil {
		return false
	}
	w.fault("crash and rebuild")
	n.crashed = true
	w.replay(n)
	w.log("%s is rebuilt with %d messages", n.name, len(n.log))
	if w.r.P(50) {
		w.lightProbe(n)
	}
	if w.r.P(30) {
		w.deepProbe(n)
	}
	return true
}

// replay builds a node's group from its storage.
func (w *World) replay(n *Node) {
	cons := n.cons
	tags := w.tags(n, "C15")
	n.kp = w.storedKP(n)
	n.group = nil
	end := n.ep
	n.ep = n.joinEp
	group, err := w.tryJoin(n, n.welcome, tags)
	w.judge(n, tags, "rebuild", "accept", len(n.log))
	if err != nil {
		w.fail("reject-valid", tags, "%s cannot be rebuilt from its welcome: %v", n.name, err)
	}
	n.group = group
	for i, m := range n.log {
		n.ep = m.ep
		if _, err := w.process(n, m.raw, tags); err != nil {
			w.fail("reject-valid", tags, "%s cannot be rebuilt: message %d of %d, %v, fails: %v", n.name, i, len(n.log), m, err)
		}
		if w.r.P(5) {
			w.fault("crash while rebuilding")
			if group, err = w.tryJoin(n, n.welcome, tags); err != nil {
				w.fail("reject-valid", tags, "%s cannot be rebuilt twice: %v", n.name, err)
			}
			n.group = group
			for _, m := range n.log[:i+1] {
				if _, err := w.process(n, m.raw, tags); err != nil {
					w.fail("reject-valid", tags, "%s cannot be rebuilt twice: %v fails: %v", n.name, m, err)
				}
			}
		}
	}
	n.ep = end
	n.cons, n.old, n.pend = map[int]bool{}, map[int]bool{}, map[string]bool{}
	for id := range cons {
		n.old[id] = true
	}
	for _, m := range n.log {
		if m.ep != end {
			continue
		}
		if !m.public {
			n.cons[m.id] = true
			delete(n.old, m.id)
		}
		if m.kind == kindProp {
			n.pend[string(m.ref)] = true
		}
	}
	for k := range end.used {
		if k.leaf == n.leaf {
			delete(end.used, k)
		}
	}
	n.rebuilt = true
}

// stepClock moves a clock, or time itself.
func (w *World) stepClock() bool {
	w.moved = true
	if w.r.P(30) {
		d := time.Duration(w.r.Int64N(int64(12 * 24 * time.Hour)))
		w.now += d
		w.fault("time passes")
		w.log("%v pass", d)
		return true
	}
	n := w.liveNode(nil)
	if n == nil || w.r.P(20) {
		var c []*Node
		for _, g := range w.groups {
			for _, m := range g.nodes {
				if m.group == nil && !m.gone {
					c = append(c, m)
				}
			}
		}
		if len(c) == 0 {
			return false
		}
		n = pick(w.r, c)
	}
	n.moved = true
	switch w.r.IntN(6) {
	case 0:
		n.off = 0
	case 1: // decades
		n.off = time.Duration(w.r.Int64N(int64(20*365*24*time.Hour))) - time.Duration(w.r.Int64N(int64(20*365*24*time.Hour)))
		if w.r.P(40) {
			// lost altogether: the start of time, a number's end, any year
			at := pick(w.r, []time.Time{
				bubbleStart.Add(time.Hour),
				time.Unix(1<<31-1, 0), time.Unix(1<<31, 0),
				time.Unix(1<<32-1, 0), time.Unix(1<<32, 0),
				bubbleStart.Add(time.Duration(w.r.Int64N(int64(200 * 365 * 24 * time.Hour)))),
			})
			n.off = at.Sub(base.Add(w.now))
		}
		if w.clock(n).Before(bubbleStart.Add(time.Hour)) {
			n.off = bubbleStart.Add(time.Hour).Sub(base.Add(w.now))
		}
	case 2, 3: // right at the end of some validity period
		at := n.refKP.Leaf.NotAfter
		if n.ep != nil && w.r.P(50) {
			at = n.ep.Tree.Leaf(pick(w.r, n.ep.Tree.Members())).NotAfter
		}
		if at == 0 {
			return false
		}
		d := []time.Duration{-time.Second, time.Second, 0, -time.Minute, time.Minute, time.Hour}[w.r.IntN(6)]
		n.off = time.Unix(int64(at), 250_000_000).Add(d).Sub(base.Add(w.now))
	case 4: // around the start of its own
		d := []time.Duration{-time.Hour, -2 * time.Second, time.Second}[w.r.IntN(3)]
		n.off = time.Unix(int64(n.refKP.Leaf.NotBefore), 250_000_000).Add(d).Sub(base.Add(w.now))
	default:
		n.off = time.Duration(w.r.Int64N(int64(80*24*time.Hour))) - 40*24*time.Hour
	}
	w.fault("clock jump")
	w.log("clock of %s is now off by %v", n.name, n.off)
	return true
}

func (w *World) stepProbe() bool {
	n := w.liveNode(nil)
	if n == nil {
		return false
	}
	w.lightProbe(n)
	return true
}

func (w *World) stepDeep() bool {
	n := w.liveNode(nil)
	if n == nil {
		return false
	}
	w.deepProbe(n)
	return true
}

// stepCodec decodes stored objects and encodes them again.
func (w *World) stepCodec() bool {
	n := pick(w.r, w.nodes)
	tags := w.tags(n, "C15")
	check := func(kp *ref.KeyPackage) {
		raw := kp.Msg()
		b, done := w.lend(raw)
		var k *mls.KeyPackage
		var err error
		var out, id []byte
		w.call(n, "UnmarshalKeyPackage", len(raw), tags, func() { k, err = mls.UnmarshalKeyPackage(b) })
		done()
		if err != nil {
			w.fail("reject-valid", append(tags, "C10"), "valid key package cannot be decoded: %v", err)
		}
		w.call(n, "KeyPackage.GenerateRef", len(raw), tags, func() {
			var r mls.KeyPackageRef
			r, err = k.GenerateRef()
			id = w.take(r)
		})
		w.call(n, "KeyPackage.Bytes", len(raw), tags, func() { out = w.take(k.Bytes()) })
		w.judge(n, tags, "key package round trip", "same", bucket(len(raw)))
		if err != nil || !bytes.Equal(id, kp.Ref()) {
			w.fail("round-trip", tags, "decoded key package has another reference: %v", err)
		}
		if !bytes.Equal(out, raw) {
			w.fail("round-trip", tags, "key package changes when decoded and encoded")
		}
	}
	check(n.refKP)
	check(w.newRefClient().kp)
	if w.r.P(40) {
		// nobody in the groups supports it, but it can be stored
		c := w.newRefClient()
		c.kp.Leaf.Cred = ref.Credential{Type: ref.CredX509}
		for k := w.r.IntN(8); k > 0; k-- {
			c.kp.Leaf.Cred.Certs = append(c.kp.Leaf.Cred.Certs, w.r.Bytes(w.r.IntN(100)))
		}
		w.signKP(c)
		check(c.kp)
	}
	for range 4 {
		w.damaged(n, tags)
	}
	if n.welcome != nil {
		b, done := w.lend(n.welcome)
		var wel *mls.Welcome
		var err error
		var out []byte
		found := false
		w.call(n, "UnmarshalWelcome", len(b), tags, func() { wel, err = mls.UnmarshalWelcome(b) })
		done()
		if err != nil {
			w.fail("reject-valid", tags, "valid welcome cannot be decoded: %v", err)
		}
		w.call(n, "Welcome.NewMembers", len(b), tags, func() {
			for _, r := range wel.NewMembers() {
				found = found || bytes.Equal(w.take(r), n.refKP.Ref())
			}
			out = w.take(wel.Bytes())
		})
		w.judge(n, tags, "welcome round trip", "same", bucket(len(b)))
		if !found || !bytes.Equal(out, n.welcome) {
			w.fail("round-trip", tags, "welcome changes when decoded and encoded")
		}
	}
	return true
}

// damaged decodes stored objects with errors in them. A decoder may accept
// them, but not as something else.
func (w *World) damaged(n *Node, tags []string) {
	var b, out []byte
	var err error
	what := "key package"
	damage := func(raw []byte, f func() []byte) []byte {
		if w.r.P(40) {
			raw, _ = w.sloppily(f)
		} else {
			raw, _ = w.mangle(raw, n.kpRaw)
		}
		return raw
	}
	if n.welcome != nil && w.r.P(50) {
		what = "welcome"
		wel, err := ref.ParseWelcomeMsg(n.welcome)
		if err != nil {
			w.bug("welcome: %v", err)
		}
		b = damage(n.welcome, wel.Msg)
	} else {
		b = damage(n.refKP.Msg(), n.refKP.Msg)
	}
	in := bytes.Clone(b)
	w.fault("stored object damaged")
	w.call(n, "decode a damaged "+what, len(b), tags, func() {
		if what == "welcome" {
			var wel *mls.Welcome
			if wel, err = mls.UnmarshalWelcome(in); err == nil {
				out = wel.Bytes()
			}
		} else {
			var kp *mls.KeyPackage
			if kp, err = mls.UnmarshalKeyPackage(in); err == nil {
				out = kp.Bytes()
			}
		}
	})
	w.judge(n, tags, "damaged "+what, "same or error", err == nil, bucket(len(b)))
	if err == nil && !bytes.Equal(out, b) {
		w.fail("round-trip", tags, "damaged %s is decoded as another one", what)
	}
}
