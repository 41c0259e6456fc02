package world

import (
	"bytes"
	"slices"

	"verif/sim/ref"
)

func flipBit(r Rng, b []byte) []byte {
	b = bytes.Clone(b)
	if len(b) > 0 {
		b[r.IntN(len(b))] ^= 1 << r.IntN(8)
	}
	return b
}

// insider picks a live node and a reference member of its epoch.
func (w *World) insider() (*Node, *EpochW, uint32) {
	n := w.liveNode(func(n *Node) bool { return len(w.refLeaves(n.ep)) > 0 })
	if n == nil {
		return nil, nil, 0
	}
	return n, n.ep, pick(w.r, w.refLeaves(n.ep))
}

// stepForge makes somebody speak in another's name.
func (w *World) stepForge() bool {
	n, e, li := w.insider()
	if n == nil {
		return false
	}
	cs := e.CS
	mine := w.sigPriv(e, li)
	members := e.Tree.Members()
	others := slices.DeleteFunc(slices.Clone(members), func(x uint32) bool { return x == li })
	victim := pick(w.r, others)
	content := func(sender uint32) ref.Content {
		c := ref.Content{GroupID: e.Ctx.GroupID, Epoch: e.Ctx.Epoch, Sender: ref.Sender{Type: ref.SenderMember, Index: sender}, AAD: w.aad()}
		switch w.r.IntN(3) {
		case 0:
			c.Type, c.Prop = ref.ContentProposal, &ref.Proposal{Type: ref.PropRemove, Removed: victim}
		default:
			c.Type, c.App = ref.ContentApp, w.payload()
		}
		return c
	}
	// encode frames signed content in either way with all group secrets
	encode := func(ep *ref.Epoch, a *ref.Auth, ratchet uint32, opts ref.PrivateOpts) []byte {
		if a.Wire == ref.WirePublic {
			return ep.EncodePublic(a)
		}
		opts.RatchetLeaf = &ratchet
		if opts.Gen == 0 {
			opts.Gen = w.freshGen(e, ratchet, a.Content.Type != ref.ContentApp)
		}
		opts.Guard = [4]byte(w.r.Bytes(4))
		return ep.EncodePrivate(a, opts)
	}
	wire := uint16(ref.WirePrivate)
	if w.r.P(40) {
		wire = ref.WirePublic
	}
	fix := func(c *ref.Content) {
		if wire == ref.WirePublic && c.Type == ref.ContentApp {
			c.Type, c.App = ref.ContentProposal, nil
			c.Prop = &ref.Proposal{Type: ref.PropRemove, Removed: victim}
		}
	}
	var raw []byte
	what := ""
	switch w.r.IntN(15) {
	case 0, 1: // another member's name, own key
		c := content(victim)
		fix(&c)
		r := victim
		if w.r.P(40) {
			r = li
		}
		what = "other member's name"
		raw = encode(e.Epoch, e.Sign(c, wire, mine), r, ref.PrivateOpts{})
	case 2: // own content, other's name only in the sender data
		c := content(li)
		fix(&c)
		wire = ref.WirePrivate
		if c.Type == ref.ContentApp || c.Prop != nil {
			a := e.Sign(c, wire, mine)
			what = "other member in the sender data"
			raw = encode(e.Epoch, a, victim, ref.PrivateOpts{ClaimLeaf: &victim})
		}
	case 3, 4: // positions without a member
		var idx []uint32
		for x := uint32(0); x < e.Tree.Leaves(); x++ {
			if e.Tree.Leaf(x) == nil {
				idx = append(idx, x)
			}
		}
		nl := e.Tree.Leaves()
		idx = append(idx, nl, nl+1, nl*2, 1<<30, 1<<31, 1<<31+li, 1<<31+victim, ^uint32(0), 1<<31-1)
		x := pick(w.r, idx)
		c := content(x)
		fix(&c)
		a := e.Sign(c, wire, mine)
		r := li
		if x < nl || x&(1<<31) != 0 && x&^(1<<31) < nl {
			r = x &^ (1 << 31)
		}
		what = "position without a member"
		raw = encode(e.Epoch, a, r, ref.PrivateOpts{ClaimLeaf: &x})
	case 5: // signature over other content
		c := content(li)
		fix(&c)
		a := e.Sign(c, wire, mine)
		switch {
		case w.r.P(40):
			a.Content.AAD = append(bytes.Clone(a.Content.AAD), 'x')
		case c.Type == ref.ContentApp:
			a.Content.App = append(bytes.Clone(c.App), 'x')
		default:
			a.Content.Prop = &ref.Proposal{Type: ref.PropRemove, Removed: victim + 1}
		}
		what = "signature over other content"
		raw = encode(e.Epoch, a, li, ref.PrivateOpts{})
	case 6: // damaged or missing signature
		c := content(li)
		fix(&c)
		a := e.Sign(c, wire, mine)
		switch w.r.IntN(4) {
		case 0:
			a.Sig = nil
		case 1:
			a.Sig = a.Sig[:len(a.Sig)-1]
		case 2:
			a.Sig = make([]byte, len(a.Sig))
		default:
			if cs == 1 || cs == 3 {
				a.Sig = flipBit(w.r, a.Sig)
			} else {
				a.Sig = flipBit(w.r, a.Sig[:len(a.Sig)/2])
			}
		}
		what = "damaged signature"
		raw = encode(e.Epoch, a, li, ref.PrivateOpts{})
	case 7: // signed for another context
		c := content(li)
		fix(&c)
		x := *e.Epoch
		switch w.r.IntN(4) {
		case 0:
			x.Ctx.Epoch++
		case 1:
			x.Ctx.TreeHash = flipBit(w.r, x.Ctx.TreeHash)
		case 2:
			x.Ctx.Confirmed = append(bytes.Clone(x.Ctx.Confirmed), 1)
		default:
			if e.prev == nil {
				return false
			}
			x.Ctx = e.prev.Ctx
		}
		what = "signed for another context"
		raw = encode(e.Epoch, x.Sign(c, wire, mine), li, ref.PrivateOpts{})
	case 8: // a former key of the member
		var old []byte
		for p := e.prev; p != nil && old == nil; p = p.prev {
			if l := p.Tree.Leaf(li); l != nil && !bytes.Equal(l.SigKey, e.Tree.Leaf(li).SigKey) {
				old = w.keys[string(l.SigKey)]
			}
		}
		if old == nil {
			return false
		}
		c := content(li)
		fix(&c)
		what = "former signature key"
		raw = encode(e.Epoch, e.Sign(c, wire, old), li, ref.PrivateOpts{})
	case 9: // somebody with the secrets of an old epoch
		if e.prev == nil {
			return false
		}
		p := e.prev
		for p.prev != nil && w.r.P(50) {
			p = p.prev
		}
		refs := w.refLeaves(p)
		if len(refs) == 0 {
			return false
		}
		l := pick(w.r, refs)
		x := *p.Epoch
		x.Ctx.Epoch = e.Ctx.Epoch
		c := content(l)
		fix(&c)
		signer := x
		if w.r.P(50) {
			signer.Ctx = e.Ctx
		}
		what = "secrets of an old epoch"
		a := signer.Sign(c, wire, w.sigPriv(p, l))
		if wire == ref.WirePublic {
			y := *e.Epoch
			y.Membership = p.Membership
			raw = y.EncodePublic(a)
		} else {
			raw = x.EncodePrivate(a, ref.PrivateOpts{Guard: [4]byte(w.r.Bytes(4))})
		}
	case 10: // an outsider without secrets
		x := ref.NewGroup(cs, e.Ctx.GroupID, 0, e.Tree.Leaf(li), nil)
		x.Ctx, x.Tree = e.Ctx, e.Tree
		c := content(li)
		fix(&c)
		key := mine
		if w.r.P(50) {
			key = w.newSig().Priv
		}
		a := e.Sign(c, wire, key)
		what = "outsider"
		if wire == ref.WirePublic {
			raw = x.EncodePublic(a)
		} else {
			raw = x.EncodePrivate(a, ref.PrivateOpts{Guard: [4]byte(w.r.Bytes(4))})
		}
	case 11: // sender types that need no membership
		wire = ref.WirePublic
		c := content(li)
		fix(&c)
		c.Sender.Type = uint8(2 + w.r.IntN(3))
		what = "other sender type"
		a := e.Sign(c, wire, mine)
		raw = (&ref.Public{Auth: *a}).Msg()
	case 12: // signed for the other wire format
		c := content(li)
		fix(&c)
		other := uint16(ref.WirePublic)
		if wire == other {
			other = ref.WirePrivate
		}
		a := e.Sign(c, other, mine)
		a.Wire = wire
		what = "signed for the other wire format"
		raw = encode(e.Epoch, a, li, ref.PrivateOpts{})
	case 13: // wrong membership tag
		wire = ref.WirePublic
		c := content(li)
		fix(&c)
		a := e.Sign(c, wire, mine)
		p := &ref.Public{Auth: *a}
		good, _ := ref.ParsePublicMsg(e.EncodePublic(a))
		switch w.r.IntN(4) {
		case 0:
		case 1:
			p.MTag = flipBit(w.r, good.MTag)
		case 2:
			p.MTag = good.MTag[:len(good.MTag)-1]
		default:
			p.MTag = append(bytes.Clone(good.MTag), 0)
		}
		what = "wrong membership tag"
		raw = p.Msg()
	default: // a whole commit in another's name
		if w.r.P(50) {
			k := w.newSig()
			res := e.Commit(ref.CommitSpec{
				Sender: victim, SigPriv: k.Priv, Path: true, Wire: wire, AAD: w.aad(),
				Leaf: func(l *ref.LeafNode) { l.SigKey = k.Pub },
				Priv: ref.PrivateOpts{Gen: w.freshGen(e, victim, true), Guard: [4]byte(w.r.Bytes(4))},
			})
			raw = res.Msg
		} else {
			p := &ref.Proposal{Type: ref.PropAdd, KP: w.newRefClient().kp}
			res := e.Commit(ref.CommitSpec{
				Sender: victim, SigPriv: mine, Wire: wire, AAD: w.aad(),
				Props: []ref.PropOrRef{{Prop: p}}, Resolved: []ref.Resolved{{Prop: p, Sender: victim}},
				Priv: ref.PrivateOpts{Gen: w.freshGen(e, victim, true), Guard: [4]byte(w.r.Bytes(4))},
			})
			raw = res.Msg
		}
		what = "commit in other member's name"
	}
	if raw == nil {
		return false
	}
	w.fault("forgery: " + what)
	w.inFault = what
	w.mustReject(n, raw, w.tags(n, "C07"), "forgery: "+what, wire, li)
	return true
}

// stepMisaddressed sends what would be a fine message, were it not for the
// epoch or the group that it names.
func (w *World) stepMisaddressed() bool {
	n, e, li := w.insider()
	if n == nil {
		return false
	}
	groupID, epoch := e.Ctx.GroupID, e.Ctx.Epoch
	what := "other epoch number"
	if w.r.P(55) {
		k := w.r.IntN(64)
		epoch = pick(w.r, []uint64{epoch + 1, epoch - 1, epoch ^ 1<<k, epoch + 1<<k, epoch + 1<<32, epoch + 1<<16, epoch + 256, 0, ^uint64(0), epoch << 8})
	} else {
		what = "other group ID"
		switch g := bytes.Clone(groupID); w.r.IntN(8) {
		case 0:
			groupID = nil
		case 1:
			groupID = g[:w.r.IntN(len(g)+1)]
		case 2:
			groupID = append(g, byte(w.r.IntN(3)))
		case 3:
			groupID = append(g, g...)
		case 4:
			groupID = append([]byte{0}, g...)
		case 5:
			groupID = w.group().id
		case 6:
			groupID = bytes.ToUpper(g)
		default:
			groupID = flipBit(w.r, g)
		}
	}
	if epoch == e.Ctx.Epoch && bytes.Equal(groupID, e.Ctx.GroupID) {
		return false
	}
	// signed for the context of the receiver or for one that fits the address
	x := *e.Epoch
	if w.r.P(30) {
		x.Ctx.Epoch, x.Ctx.GroupID = epoch, groupID
		what += ", other context"
	}
	c := ref.Content{GroupID: groupID, Epoch: epoch, Sender: ref.Sender{Type: ref.SenderMember, Index: li}, AAD: w.aad()}
	wire := uint16(ref.WirePrivate)
	if w.r.P(w.cfg.Public) {
		wire = ref.WirePublic
	}
	var raw []byte
	kind := kindApp
	switch k := w.r.IntN(3); {
	case k == 0:
		kind = kindCommit
		spec := ref.CommitSpec{Sender: li, SigPriv: w.sigPriv(e, li), Path: true, Wire: wire, AAD: c.AAD}
		if w.r.P(50) {
			p := &ref.Proposal{Type: ref.PropAdd, KP: w.newRefClient().kp}
			spec.Path = w.r.P(50)
			spec.Props, spec.Resolved = []ref.PropOrRef{{Prop: p}}, []ref.Resolved{{Prop: p, Sender: li}}
		}
		spec.Mut.Content = func(c *ref.Content) { c.GroupID, c.Epoch = groupID, epoch }
		spec.Mut.SignCtx = &x.Ctx
		if wire == ref.WirePrivate {
			spec.Priv = w.privOpts(e, li, true)
		}
		raw = e.Commit(spec).Msg
	default:
		if k == 1 || wire == ref.WirePublic {
			kind = kindProp
			c.Type, c.Prop = ref.ContentProposal, &ref.Proposal{Type: ref.PropUpdate, Leaf: w.updateLeaf(e, li)}
		} else {
			c.Type, c.App = ref.ContentApp, w.payload()
		}
		a := x.Sign(c, wire, w.sigPriv(e, li))
		if wire == ref.WirePublic {
			// the tag covers the context as well
			x.Membership = e.Membership
			raw = x.EncodePublic(a)
		} else {
			raw = e.EncodePrivate(a, w.privOpts(e, li, kind != kindApp))
		}
	}
	w.fault("misaddressed: " + what)
	w.inFault = what
	w.mustReject(n, raw, w.tags(n, "C06"), "misaddressed "+kind+": "+what, wire, li)
	return true
}

// stepPose lets a member take the identity of another one in an update, which
// must change its own place in the group and no other.
func (w *World) stepPose() bool {
	n := w.liveNode(func(n *Node) bool { return n.ep == n.g.head && len(w.refLeaves(n.ep)) > 1 })
	if n == nil {
		return false
	}
	e := n.ep
	refs := w.refLeaves(e)
	w.r.Shuffle(len(refs), func(i, j int) { refs[i], refs[j] = refs[j], refs[i] })
	li, committer := refs[0], refs[1]
	victim := pick(w.r, slices.DeleteFunc(e.Tree.Members(), func(x uint32) bool { return x == li }))
	l := w.updateLeaf(e, li)
	l.Cred = e.Tree.Leaf(victim).Cred
	l.SignLeaf(e.CS, e.Ctx.GroupID, li, w.keys[string(l.SigKey)])
	p := w.refProposal(e, li, &ref.Proposal{Type: ref.PropUpdate, Leaf: l})
	spec := ref.CommitSpec{Sender: committer, Path: true, Props: []ref.PropOrRef{{Ref: p.ref}}, Resolved: []ref.Resolved{{Prop: p.prop, Sender: li}}}
	m := w.refCommit(e, spec, nil)
	p.tags, m.tags = []string{"C07"}, []string{"C07"}
	w.fault("update with another member's identity")
	w.win(m)
	w.deliver(n, p)
	return w.deliver(n, m)
}

// freshGen chooses a generation of a leaf's ratchet for a message that will not
// be accepted. Honest traffic may use the same one later.
func (w *World) freshGen(e *EpochW, li uint32, handshake bool) uint32 {
	if w.keys[string(e.Tree.LeafKey(li))] != nil {
		k := genKey{li, handshake}
		g := e.gens[k]
		if w.r.P(50) {
			e.gens[k]++
		}
		return g
	}
	// a SUT member's ratchet: it will use low generations itself
	return uint32(w.r.IntN(40))
}

// byzCase is one way to break a commit.
type byzCase struct {
	name string
	tags []string
	// build alters the specification; false means the case does not apply.
	build func(c *byzCtx) bool
}

type byzCtx struct {
	w    *World
	n    *Node
	e    *EpochW
	li   uint32
	spec *ref.CommitSpec
	m    *ref.Mutators
	path []int // filtered direct path after the proposals
	pos  int   // index of the lowest path node above the receiver
	tree ref.Tree

	plain func([]byte) []byte // alters what is encrypted
}

// shape recomputes what depends on the proposals.
func (c *byzCtx) shape() {
	t, _ := ref.ApplyProposals(c.e.Tree, c.spec.Resolved)
	t = t.Clone()
	for _, p := range t.DirectPath(int(2 * c.li)) {
		t[p] = nil
	}
	c.tree = t
	c.path, _ = t.FilteredPath(c.li)
	c.pos = slices.Index(c.path, t.CommonAncestor(c.li, c.n.leaf))
}

func (c *byzCtx) inline(p *ref.Proposal) {
	c.spec.Props = append(c.spec.Props, ref.PropOrRef{Prop: p})
	c.spec.Resolved = append(c.spec.Resolved, ref.Resolved{Prop: p, Sender: c.li})
}

// raw adds a proposal that the reference does not apply.
func (c *byzCtx) raw(p *ref.Proposal) {
	c.spec.Props = append(c.spec.Props, ref.PropOrRef{Prop: p})
}

// sent lets another member send a proposal that the receiver accepts, and
// refers to it.
func (c *byzCtx) sent(li uint32, p *ref.Proposal, apply bool) *Msg {
	m := c.w.refProposal(c.e, li, p)
	if !c.w.deliverAny(c.n, m) {
		return nil
	}
	c.spec.Props = append(c.spec.Props, ref.PropOrRef{Ref: m.ref})
	if apply {
		c.spec.Resolved = append(c.spec.Resolved, ref.Resolved{Prop: p, Sender: li})
	}
	return m
}

// removal removes a member, as proposed by the committer, by another member or
// by the member itself.
func (c *byzCtx) removal(x uint32, apply bool) bool {
	p := &ref.Proposal{Type: ref.PropRemove, Removed: x}
	by, ok := c.otherRef()
	if c.w.r.P(40) && slices.Contains(c.w.refLeaves(c.e), x) {
		by, ok = x, true
	}
	switch {
	case ok && c.w.r.P(60):
		return c.sent(by, p, apply) != nil
	case apply:
		c.inline(p)
	default:
		c.raw(p)
	}
	return true
}

// fits tells whether a proposal of an earlier epoch could be applied now.
func (c *byzCtx) fits(m *Msg) bool {
	l := c.e.Tree.Leaf(m.sender)
	switch m.prop.Type {
	case ref.PropAdd:
		return !c.inTree(m.prop.KP)
	case ref.PropUpdate:
		return m.sender != c.li && l != nil && !c.has(m.sender) && !bytes.Equal(l.EncKey, m.prop.Leaf.EncKey)
	case ref.PropRemove:
		x := m.prop.Removed
		return x != c.li && x != c.n.leaf && c.e.Tree.Leaf(x) != nil && !c.has(x)
	}
	return false
}

// bad lets another member send an invalid proposal, and refers to it. Refusing
// the proposal already is fine: then the commit cannot be applied either.
func (c *byzCtx) bad(li uint32, p *ref.Proposal, apply bool, name string) {
	w := c.w
	m := w.refProposal(c.e, li, p)
	c.e.msgs = slices.DeleteFunc(c.e.msgs, func(o *Msg) bool { return o == m })
	_, err := w.process(c.n, m.raw, w.tags(c.n, "C08"))
	w.log("%s receives an invalid proposal (%s): %v", c.n.name, name, err)
	if err != nil {
		c.n.failed = true
	}
	c.spec.Props = append(c.spec.Props, ref.PropOrRef{Ref: m.ref})
	if apply {
		c.spec.Resolved = append(c.spec.Resolved, ref.Resolved{Prop: p, Sender: li})
	}
}

func (c *byzCtx) otherRef() (uint32, bool) {
	refs := slices.DeleteFunc(c.w.refLeaves(c.e), func(x uint32) bool { return x == c.li })
	if len(refs) == 0 {
		return 0, false
	}
	return pick(c.w.r, refs), true
}

// otherLeaf is any member but the committer.
func (c *byzCtx) otherLeaf() uint32 {
	return pick(c.w.r, slices.DeleteFunc(c.e.Tree.Members(), func(x uint32) bool { return x == c.li }))
}

// treeMember is a member of the tree after the proposals, but not the
// committer.
func (c *byzCtx) treeMember() uint32 {
	return pick(c.w.r, slices.DeleteFunc(c.tree.Members(), func(x uint32) bool { return x == c.li }))
}

// parents lists the non-blank parent nodes that the path does not replace.
func (c *byzCtx) parents() []int {
	var out []int
	for i, n := range c.tree {
		if n != nil && n.Parent != nil {
			out = append(out, i)
		}
	}
	return out
}

func (c *byzCtx) parentKey(i int) []byte { return c.tree.EncKey(i) }

// deliverAny delivers a message without caring whether it was useful.
func (w *World) deliverAny(n *Node, m *Msg) bool {
	w.deliver(n, m)
	return n.pend[string(m.ref)]
}

func leafCase(name string, f func(c *byzCtx, l *ref.LeafNode) bool) byzCase {
	return byzCase{name: name, build: func(c *byzCtx) bool {
		probe := *c.e.Tree.Leaf(c.li)
		if !f(c, &probe) {
			return false
		}
		r := c.w.r.Uint64()
		c.spec.Leaf = func(l *ref.LeafNode) {
			c.w.r = newRng(r)
			f(c, l)
		}
		return true
	}}
}

var byzCases = []byzCase{
	{name: "wrong confirmation tag", build: func(c *byzCtx) bool {
		k := c.w.r.IntN(6)
		if c.w.r.P(30) && len(c.spec.Props) > 0 && !needsPath(c.spec) {
			c.spec.Path = false
		}
		c.m.Tag = func(t []byte) []byte {
			switch k {
			case 0:
				return nil
			case 1:
				return t[:len(t)-1]
			case 2:
				return append(t, 0)
			case 3:
				return make([]byte, len(t))
			case 4:
				return bytes.Clone(c.e.Tag)
			default:
				t[k%len(t)] ^= 0x10
				return t
			}
		}
		return true
	}},
	{name: "missing path", build: func(c *byzCtx) bool {
		if x, ok := c.otherRef(); ok && !c.has(x) && c.w.r.P(35) {
			// another member's update, with or without other proposals
			p := &ref.Proposal{Type: ref.PropUpdate, Leaf: c.w.updateLeaf(c.e, x)}
			if c.sent(x, p, true) == nil {
				return false
			}
			c.w.r.Shuffle(len(c.spec.Props), func(i, j int) {
				c.spec.Props[i], c.spec.Props[j] = c.spec.Props[j], c.spec.Props[i]
				c.spec.Resolved[i], c.spec.Resolved[j] = c.spec.Resolved[j], c.spec.Resolved[i]
			})
		} else if !needsPath(c.spec) {
			if x, ok := c.w.removable(c.e, c.li); ok && x != c.n.leaf && c.w.r.P(60) && !slices.ContainsFunc(c.spec.Resolved, func(p ref.Resolved) bool { return p.Prop.Type == ref.PropRemove && p.Prop.Removed == x }) {
				c.inline(&ref.Proposal{Type: ref.PropRemove, Removed: x})
			} else {
				c.spec.Props, c.spec.Resolved = nil, nil
			}
		}
		c.spec.Path = false
		return true
	}},
	{name: "path too short", build: func(c *byzCtx) bool {
		if len(c.path) == 0 {
			return false
		}
		i := c.w.r.IntN(len(c.path))
		c.m.Path = func(u *ref.UpdatePath) { u.Nodes = slices.Delete(u.Nodes, i, i+1) }
		return true
	}},
	{name: "path empty", build: func(c *byzCtx) bool {
		c.m.Path = func(u *ref.UpdatePath) { u.Nodes = nil }
		return len(c.path) > 0
	}},
	{name: "path too long", build: func(c *byzCtx) bool {
		i := c.w.r.IntN(len(c.path) + 1)
		c.m.Path = func(u *ref.UpdatePath) {
			n := ref.PathNode{EncKey: c.e.CS.GenHPKE().Pub}
			if len(u.Nodes) > 0 {
				n.Cts = u.Nodes[min(i, len(u.Nodes)-1)].Cts
			}
			u.Nodes = slices.Insert(u.Nodes, i, n)
		}
		return true
	}},
	{name: "path reordered", build: func(c *byzCtx) bool {
		if len(c.path) < 2 {
			return false
		}
		i := c.w.r.IntN(len(c.path) - 1)
		keys := c.w.r.P(50)
		c.m.Path = func(u *ref.UpdatePath) {
			if keys {
				u.Nodes[i].EncKey, u.Nodes[i+1].EncKey = u.Nodes[i+1].EncKey, u.Nodes[i].EncKey
			} else {
				u.Nodes[i], u.Nodes[i+1] = u.Nodes[i+1], u.Nodes[i]
			}
		}
		return true
	}},
	leafCase("leaf source", func(c *byzCtx, l *ref.LeafNode) bool {
		l.Source = []uint8{ref.SourceKeyPackage, ref.SourceUpdate}[c.w.r.IntN(2)]
		now := uint64(c.w.clock(c.n).Unix())
		l.NotBefore, l.NotAfter = now-1000, now+100000
		return true
	}),
	{name: "leaf signed by other key", build: func(c *byzCtx) bool {
		c.m.LeafSigner = c.w.newSig().Priv
		return true
	}},
	{name: "leaf signed for other group", build: func(c *byzCtx) bool {
		c.m.LeafGroup = append(bytes.Clone(c.e.Ctx.GroupID), 'x')
		return true
	}},
	{name: "leaf signed for other position", build: func(c *byzCtx) bool {
		x := c.otherLeaf()
		c.m.LeafIndex = &x
		return true
	}},
	{name: "leaf changed after signing", build: func(c *byzCtx) bool {
		k := c.w.r.IntN(5)
		c.m.AfterLeaf = func(l *ref.LeafNode) {
			switch k {
			case 0:
				l.Cred.Identity = []byte("mallory")
			case 1:
				l.EncKey = c.e.CS.GenHPKE().Pub
			case 2:
				l.Sig = nil
			case 3:
				l.Caps[2] = append(slices.Clone(l.Caps[2]), 9)
			default:
				l.SigKey = c.e.CS.GenSig().Pub
			}
		}
		return true
	}},
	leafCase("leaf key unchanged", func(c *byzCtx, l *ref.LeafNode) bool {
		l.EncKey = c.e.Tree.Leaf(c.li).EncKey
		return true
	}),
	leafCase("leaf key of another member", func(c *byzCtx, l *ref.LeafNode) bool {
		l.EncKey = c.tree.Leaf(c.treeMember()).EncKey
		return true
	}),
	leafCase("leaf key of a parent node", func(c *byzCtx, l *ref.LeafNode) bool {
		ps := c.parents()
		if len(ps) == 0 {
			return false
		}
		l.EncKey = c.parentKey(pick(c.w.r, ps))
		return true
	}),
	{name: "signature key of another member", build: func(c *byzCtx) bool {
		x, ok := c.otherRef()
		if !ok || c.tree.Leaf(x) == nil {
			return false
		}
		key := c.tree.Leaf(x).SigKey
		if c.w.keys[string(key)] == nil {
			return false
		}
		c.spec.Leaf = func(l *ref.LeafNode) { l.SigKey = key }
		c.m.LeafSigner = c.w.keys[string(key)]
		return true
	}},
	leafCase("unsupported credential", func(c *byzCtx, l *ref.LeafNode) bool {
		l.Cred = ref.Credential{Type: ref.CredX509, Certs: [][]byte{{1, 2, 3}}}
		l.Caps[4] = c.w.claimX509(len(c.tree.Members()))
		return true
	}),
	leafCase("unlisted extension", func(c *byzCtx, l *ref.LeafNode) bool {
		c.w.unlisted(l)
		return true
	}),
	leafCase("leaf does not support the credentials in use", func(c *byzCtx, l *ref.LeafNode) bool {
		l.Caps[4] = c.w.noBasic()
		return true
	}),
	{name: "path key of a leaf", build: func(c *byzCtx) bool {
		if len(c.path) == 0 {
			return false
		}
		i := c.w.r.IntN(len(c.path))
		key := c.tree.Leaf(c.treeMember()).EncKey
		c.m.NodeKey = func(j int) []byte {
			if i == j {
				return key
			}
			return nil
		}
		return true
	}},
	{name: "path key of a parent node", build: func(c *byzCtx) bool {
		ps := c.parents()
		if len(ps) == 0 || len(c.path) == 0 {
			return false
		}
		i := c.w.r.IntN(len(c.path))
		key := c.parentKey(pick(c.w.r, ps))
		c.m.NodeKey = func(j int) []byte {
			if i == j {
				return key
			}
			return nil
		}
		return true
	}},
	{name: "duplicate key in the path", build: func(c *byzCtx) bool {
		key := c.e.CS.GenHPKE().Pub
		if len(c.path) == 0 {
			return false
		}
		i, j := c.w.r.IntN(len(c.path)), c.w.r.IntN(len(c.path))
		if i == j {
			c.spec.Leaf = func(l *ref.LeafNode) { l.EncKey = key }
		}
		c.m.NodeKey = func(k int) []byte {
			if k == i || k == j {
				return key
			}
			return nil
		}
		return true
	}},
	{name: "malformed path key", build: func(c *byzCtx) bool {
		if c.pos < 0 {
			return false
		}
		i := c.pos + c.w.r.IntN(len(c.path)-c.pos)
		key := badKey(c.w, c.e.CS.GenHPKE().Pub)
		c.m.NodeKey = func(j int) []byte {
			if i == j {
				return key
			}
			return nil
		}
		return true
	}},
	{name: "path key without its secret", build: func(c *byzCtx) bool {
		if c.pos < 0 {
			return false
		}
		i := c.pos + c.w.r.IntN(len(c.path)-c.pos)
		key := c.e.CS.GenHPKE().Pub
		c.m.NodeKey = func(j int) []byte {
			if i == j {
				return key
			}
			return nil
		}
		return true
	}},
	{name: "wrong parent hash", build: func(c *byzCtx) bool {
		k := c.w.r.IntN(4)
		c.m.ParentHash = func(h []byte) []byte {
			switch {
			case len(h) == 0:
				return make([]byte, c.e.CS.Nh())
			case k == 0:
				return nil
			case k == 1:
				return h[:len(h)-1]
			case k == 2:
				return append(bytes.Clone(h), 0)
			}
			h = bytes.Clone(h)
			h[len(h)/2] ^= 4
			return h
		}
		return true
	}},
	{name: "number of ciphertexts", build: func(c *byzCtx) bool {
		if c.pos < 0 {
			return false
		}
		i, k := c.pos, c.w.r.IntN(3)
		if c.w.r.P(40) {
			i = c.w.r.IntN(len(c.path))
		}
		c.m.Cts = func(j int, cts []ref.HPKECt) []ref.HPKECt {
			if j != i {
				return cts
			}
			switch {
			case k == 0:
				return append(slices.Clone(cts), cts...)[:len(cts)+1]
			case k == 1:
				return nil
			default:
				return cts[:len(cts)-1]
			}
		}
		// all leaves below may be new, then there is no ciphertext to begin with
		_, added := ref.ApplyProposals(c.e.Tree, c.spec.Resolved)
		return len(added) == 0
	}},
	{name: "ciphertexts exchanged", build: func(c *byzCtx) bool {
		if c.pos < 0 {
			return false
		}
		ok := false
		c.m.Cts = func(j int, cts []ref.HPKECt) []ref.HPKECt {
			if j != c.pos || len(cts) < 2 {
				return cts
			}
			ok = true
			return append(slices.Clone(cts[1:]), cts[0])
		}
		_, copath := c.tree.FilteredPath(c.li)
		_ = ok
		_, added := ref.ApplyProposals(c.e.Tree, c.spec.Resolved)
		return len(added) == 0 && len(c.tree.Resolution(copath[c.pos])) >= 2
	}},
	{name: "damaged ciphertext", build: func(c *byzCtx) bool {
		if c.pos < 0 {
			return false
		}
		k := c.w.r.IntN(5)
		c.m.Cts = func(j int, cts []ref.HPKECt) []ref.HPKECt {
			if j != c.pos {
				return cts
			}
			cts = slices.Clone(cts)
			for i := range cts {
				switch k {
				case 0:
					cts[i].Kem = nil
				case 1:
					cts[i].Ct = nil
				case 2:
					cts[i].Kem = cts[i].Kem[:len(cts[i].Kem)-1]
				case 3:
					cts[i].Ct = append(bytes.Clone(cts[i].Ct[:len(cts[i].Ct)-1]), cts[i].Ct[len(cts[i].Ct)-1]^1)
				default:
					cts[i].Kem = make([]byte, len(cts[i].Kem))
				}
			}
			return cts
		}
		return true
	}},
	{name: "wrong path secret", build: func(c *byzCtx) bool {
		if c.pos < 0 {
			return false
		}
		k := c.w.r.IntN(4)
		c.m.PathSecret = func(i int, s []byte) []byte {
			if i != c.pos {
				return s
			}
			s = bytes.Clone(s)
			switch k {
			case 0:
				s[0] ^= 1
			case 1:
				return nil
			case 2:
				return s[:len(s)-1]
			default:
				return append(s, 1)
			}
			return s
		}
		return true
	}},
	{name: "secrets encrypted for another context", build: func(c *byzCtx) bool {
		if c.pos < 0 {
			return false
		}
		k := c.w.r.IntN(4)
		c.m.Context = func(x *ref.GroupContext) {
			switch k {
			case 0:
				x.Epoch--
			case 1:
				x.TreeHash = c.e.Ctx.TreeHash
			case 2:
				x.Epoch++
			default:
				x.GroupID = append(bytes.Clone(x.GroupID), 1)
			}
		}
		return true
	}},
	{name: "padding that is not zero", build: func(c *byzCtx) bool {
		if c.spec.Wire != ref.WirePrivate {
			return false
		}
		r := c.w.r
		pad := make([]byte, 1+r.IntN(40))
		if r.P(50) {
			pad = make([]byte, 1+r.IntN(3000))
		}
		pad[r.IntN(len(pad))] = byte(1 + r.IntN(255))
		if r.P(30) {
			pad[len(pad)-1] = 1
		}
		c.plain = func(b []byte) []byte { return append(b, pad...) }
		return true
	}},
	{name: "secrets also for new members", build: func(c *byzCtx) bool {
		if c.pos < 0 {
			return false
		}
		c.inline(&ref.Proposal{Type: ref.PropAdd, KP: c.w.newRefClient().kp})
		c.shape()
		c.m.IncludeNew = true
		if c.pos < 0 {
			return false
		}
		_, copath := c.tree.FilteredPath(c.li)
		_, added := ref.ApplyProposals(c.e.Tree, c.spec.Resolved)
		for _, y := range c.tree.Resolution(copath[c.pos]) {
			for _, a := range added {
				if int(2*a.Leaf) == y {
					return true
				}
			}
		}
		return false
	}},
	{name: "update by the committer", tags: []string{"C11"}, build: func(c *byzCtx) bool {
		p := &ref.Proposal{Type: ref.PropUpdate, Leaf: c.w.updateLeaf(c.e, c.li)}
		if c.w.r.P(50) {
			return c.sent(c.li, p, true) != nil
		}
		c.inline(p)
		return true
	}},
	{name: "removal of the committer", build: func(c *byzCtx) bool {
		p := &ref.Proposal{Type: ref.PropRemove, Removed: c.li}
		if x, ok := c.otherRef(); ok && c.w.r.P(50) {
			return c.sent(x, p, false) != nil
		}
		c.raw(p)
		return true
	}},
	{name: "double removal", build: func(c *byzCtx) bool {
		x, ok := c.w.removable(c.e, c.li)
		if !ok || x == c.n.leaf || c.has(x) {
			return false
		}
		return c.removal(x, true) && c.removal(x, false)
	}},
	{name: "update and removal of one member", tags: []string{"C11"}, build: func(c *byzCtx) bool {
		x, ok := c.otherRef()
		if !ok || c.has(x) {
			return false
		}
		first := c.w.r.P(50)
		if first && !c.removal(x, true) {
			return false
		}
		if c.sent(x, &ref.Proposal{Type: ref.PropUpdate, Leaf: c.w.updateLeaf(c.e, x)}, true) == nil {
			return false
		}
		return first || c.removal(x, true)
	}},
	{name: "two updates of one member", tags: []string{"C11"}, build: func(c *byzCtx) bool {
		x, ok := c.otherRef()
		if !ok || c.has(x) {
			return false
		}
		for i := 0; i < 2; i++ {
			if c.sent(x, &ref.Proposal{Type: ref.PropUpdate, Leaf: c.w.updateLeaf(c.e, x)}, true) == nil {
				return false
			}
		}
		return true
	}},
	{name: "two updates to one key", tags: []string{"C11"}, build: func(c *byzCtx) bool {
		x, ok := c.otherRef()
		y, _ := c.otherRef()
		if !ok || x == y || c.has(x) || c.has(y) {
			return false
		}
		lx, ly := c.w.updateLeaf(c.e, x), c.w.updateLeaf(c.e, y)
		c.w.sameKey(ly, lx)
		ly.SignLeaf(c.e.CS, c.e.Ctx.GroupID, y, c.w.keys[string(ly.SigKey)])
		c.bad(x, &ref.Proposal{Type: ref.PropUpdate, Leaf: lx}, true, "two updates to one key")
		c.bad(y, &ref.Proposal{Type: ref.PropUpdate, Leaf: ly}, true, "two updates to one key")
		return true
	}},
	{name: "update and new client with one key", tags: []string{"C10"}, build: func(c *byzCtx) bool {
		x, ok := c.otherRef()
		if !ok || c.has(x) {
			return false
		}
		l := c.w.updateLeaf(c.e, x)
		k := c.w.newRefClient()
		c.w.sameKey(&k.kp.Leaf, l)
		k.sig = ref.KeyPair{Pub: k.kp.Leaf.SigKey, Priv: c.w.keys[string(k.kp.Leaf.SigKey)]}
		c.w.signKP(k)
		first := c.w.r.P(50)
		if first {
			c.inline(&ref.Proposal{Type: ref.PropAdd, KP: k.kp})
		}
		c.bad(x, &ref.Proposal{Type: ref.PropUpdate, Leaf: l}, true, "update and new client with one key")
		if !first {
			c.inline(&ref.Proposal{Type: ref.PropAdd, KP: k.kp})
		}
		return true
	}},
	{name: "another member's update inline", build: func(c *byzCtx) bool {
		x, ok := c.otherRef()
		if !ok || c.has(x) {
			return false
		}
		// signed by its owner for its own position, but presented as the
		// committer's
		p := &ref.Proposal{Type: ref.PropUpdate, Leaf: c.w.updateLeaf(c.e, x)}
		c.spec.Props = append(c.spec.Props, ref.PropOrRef{Prop: p})
		c.spec.Resolved = append(c.spec.Resolved, ref.Resolved{Prop: p, Sender: x})
		return true
	}},
	{name: "proposal referenced twice", tags: []string{"C11"}, build: func(c *byzCtx) bool {
		x, ok := c.otherRef()
		if !ok || c.has(x) {
			return false
		}
		p := &ref.Proposal{Type: ref.PropUpdate, Leaf: c.w.updateLeaf(c.e, x)}
		if c.w.r.P(50) {
			p = &ref.Proposal{Type: ref.PropAdd, KP: c.w.newRefClient().kp}
		}
		m := c.sent(x, p, true)
		if m == nil {
			return false
		}
		c.spec.Props = append(c.spec.Props, ref.PropOrRef{Ref: m.ref})
		return true
	}},
	{name: "unknown proposal", tags: []string{"C11"}, build: func(c *byzCtx) bool {
		b := c.w.r.Bytes(c.e.CS.Nh())
		if c.w.r.P(30) {
			b = b[:c.w.r.IntN(len(b))]
		}
		c.spec.Props = append(c.spec.Props, ref.PropOrRef{Ref: b})
		return true
	}},
	{name: "almost a known proposal", tags: []string{"C11"}, build: func(c *byzCtx) bool {
		x, ok := c.otherRef()
		if !ok || c.has(x) {
			return false
		}
		p := &ref.Proposal{Type: ref.PropUpdate, Leaf: c.w.updateLeaf(c.e, x)}
		if c.w.r.P(50) {
			p = &ref.Proposal{Type: ref.PropAdd, KP: c.w.newRefClient().kp}
		}
		m := c.sent(x, p, true)
		if m == nil {
			return false
		}
		b := bytes.Clone(m.ref)
		switch c.w.r.IntN(5) {
		case 0:
			b = b[:c.w.r.IntN(len(b))]
		case 1:
			b = b[:len(b)-1]
		case 2:
			b = append(b, 0)
		case 3:
			b[len(b)-1] ^= 1 << c.w.r.IntN(8)
		default:
			b = flipBit(c.w.r, b)
		}
		c.spec.Props[len(c.spec.Props)-1].Ref = b
		return true
	}},
	{name: earlierProposal, tags: []string{"C11", "C06"}, build: func(c *byzCtx) bool {
		var all []*Msg
		for _, m := range c.n.past {
			if c.fits(m) {
				all = append(all, m)
			}
		}
		if len(all) == 0 || c.w.r.P(20) {
			for e := c.e.prev; e != nil; e = e.prev {
				for _, m := range e.msgs {
					if m.kind == kindProp && c.fits(m) {
						all = append(all, m)
					}
				}
			}
		}
		if len(all) == 0 {
			return false
		}
		m := pick(c.w.r, all)
		c.spec.Props = append(c.spec.Props, ref.PropOrRef{Ref: m.ref})
		c.spec.Resolved = append(c.spec.Resolved, ref.Resolved{Prop: m.prop, Sender: m.sender})
		return true
	}},
	{name: "client added twice", tags: []string{"C10"}, build: func(c *byzCtx) bool {
		p := &ref.Proposal{Type: ref.PropAdd, KP: c.w.newRefClient().kp}
		c.inline(p)
		c.inline(p)
		return true
	}},
	{name: "double PSK", build: func(c *byzCtx) bool {
		p := &ref.Proposal{Type: ref.PropPSK, PSK: &ref.PSKID{Type: 1, ID: []byte("psk"), Nonce: make([]byte, c.e.CS.Nh())}}
		c.raw(p)
		c.raw(p)
		return true
	}},
	{name: "unknown PSK", build: func(c *byzCtx) bool {
		c.raw(&ref.Proposal{Type: ref.PropPSK, PSK: &ref.PSKID{Type: 1, ID: []byte("psk"), Nonce: make([]byte, c.e.CS.Nh())}})
		c.spec.PSKSecret = c.w.r.Bytes(c.e.CS.Nh())
		return true
	}},
	{name: "PSK left out", build: func(c *byzCtx) bool {
		c.raw(&ref.Proposal{Type: ref.PropPSK, PSK: &ref.PSKID{Type: 1, ID: c.w.r.Bytes(c.w.r.IntN(5)), Nonce: c.w.r.Bytes(c.e.CS.Nh())}})
		return true
	}},
	{name: "context extensions left out", build: func(c *byzCtx) bool {
		var exts []ref.Extension
		if len(c.e.Ctx.Exts) == 0 {
			exts = []ref.Extension{{Type: 0x0A0A, Data: c.w.r.Bytes(3)}}
		}
		c.raw(&ref.Proposal{Type: ref.PropGCE, Raw: ref.GCEBody(exts)})
		return true
	}},
	{name: "two context extension proposals", build: func(c *byzCtx) bool {
		c.raw(&ref.Proposal{Type: ref.PropGCE, Raw: ref.GCEBody(nil)})
		c.raw(&ref.Proposal{Type: ref.PropGCE, Raw: ref.GCEBody(nil)})
		return true
	}},
	{name: "reinit with other proposals", build: func(c *byzCtx) bool {
		c.raw(&ref.Proposal{Type: ref.PropReinit, Raw: ref.ReinitBody([]byte("new"), c.e.CS)})
		c.inline(&ref.Proposal{Type: ref.PropAdd, KP: c.w.newRefClient().kp})
		return true
	}},
	{name: "external init by a member", build: func(c *byzCtx) bool {
		c.raw(&ref.Proposal{Type: ref.PropExternalInit, Raw: ref.ExternalInitBody(c.w.r.Bytes(32))})
		return true
	}},
	{name: "removal of nobody", build: func(c *byzCtx) bool {
		nl := c.e.Tree.Leaves()
		idx := []uint32{nl, nl + 1, 2 * nl, 1 << 30, 1 << 31, 1<<31 + c.otherLeaf(), ^uint32(0), 1<<31 - 1}
		for x := uint32(0); x < nl; x++ {
			if c.e.Tree.Leaf(x) == nil {
				idx = append(idx, x, x)
			}
		}
		p := &ref.Proposal{Type: ref.PropRemove, Removed: pick(c.w.r, idx)}
		if y, ok := c.otherRef(); ok && !c.has(y) && c.w.r.P(40) {
			c.bad(y, p, false, "removal of nobody")
			return true
		}
		c.raw(p)
		return true
	}},
	updateCase("update leaf with bad signature", func(c *byzCtx, x uint32, l *ref.LeafNode) bool {
		l.Sig = flipBit(c.w.r, l.Sig[:len(l.Sig)/2])
		return true
	}),
	updateCase("update leaf signed for other position", func(c *byzCtx, x uint32, l *ref.LeafNode) bool {
		l.SignLeaf(c.e.CS, c.e.Ctx.GroupID, c.li, c.w.keys[string(l.SigKey)])
		return true
	}),
	updateCase("update leaf signed for other group", func(c *byzCtx, x uint32, l *ref.LeafNode) bool {
		l.SignLeaf(c.e.CS, append(bytes.Clone(c.e.Ctx.GroupID), 1), x, c.w.keys[string(l.SigKey)])
		return true
	}),
	updateCase("update leaf of wrong source", func(c *byzCtx, x uint32, l *ref.LeafNode) bool {
		l.Source = []uint8{ref.SourceKeyPackage, ref.SourceCommit}[c.w.r.IntN(2)]
		now := uint64(c.w.clock(c.n).Unix())
		l.NotBefore, l.NotAfter = now-1000, now+100000
		l.SignLeaf(c.e.CS, c.e.Ctx.GroupID, x, c.w.keys[string(l.SigKey)])
		return true
	}),
	updateCase("update leaf with unchanged key", func(c *byzCtx, x uint32, l *ref.LeafNode) bool {
		l.EncKey = c.e.Tree.Leaf(x).EncKey
		l.SignLeaf(c.e.CS, c.e.Ctx.GroupID, x, c.w.keys[string(l.SigKey)])
		return true
	}),
	updateCase("update leaf with another member's key", func(c *byzCtx, x uint32, l *ref.LeafNode) bool {
		y := pick(c.w.r, slices.DeleteFunc(c.e.Tree.Members(), func(y uint32) bool { return y == x || y == c.li || c.has(y) }))
		l.EncKey = c.e.Tree.Leaf(y).EncKey
		l.SignLeaf(c.e.CS, c.e.Ctx.GroupID, x, c.w.keys[string(l.SigKey)])
		return true
	}),
	updateCase("update leaf with another member's signature key", func(c *byzCtx, x uint32, l *ref.LeafNode) bool {
		l.SigKey = c.e.Tree.Leaf(c.li).SigKey
		// the committer keeps its key
		c.spec.Leaf = func(*ref.LeafNode) {}
		c.m.LeafSigner = nil
		l.SignLeaf(c.e.CS, c.e.Ctx.GroupID, x, c.w.keys[string(l.SigKey)])
		return true
	}),
	updateCase("update leaf with unsupported credential", func(c *byzCtx, x uint32, l *ref.LeafNode) bool {
		l.Cred = ref.Credential{Type: ref.CredX509, Certs: [][]byte{{1}}}
		l.Caps[4] = c.w.claimX509(len(c.tree.Members()))
		l.SignLeaf(c.e.CS, c.e.Ctx.GroupID, x, c.w.keys[string(l.SigKey)])
		return true
	}),
	updateCase("update leaf with unlisted extension", func(c *byzCtx, x uint32, l *ref.LeafNode) bool {
		c.w.unlisted(l)
		l.SignLeaf(c.e.CS, c.e.Ctx.GroupID, x, c.w.keys[string(l.SigKey)])
		return true
	}),
}

// has tells whether a leaf is already updated or removed by the commit.
func (c *byzCtx) has(x uint32) bool {
	for _, p := range c.spec.Resolved {
		if p.Prop.Type == ref.PropRemove && p.Prop.Removed == x || p.Prop.Type == ref.PropUpdate && p.Sender == x {
			return true
		}
	}
	return false
}

func (c *byzCtx) inTree(kp *ref.KeyPackage) bool {
	for _, li := range c.e.Tree.Members() {
		l := c.e.Tree.Leaf(li)
		if bytes.Equal(l.SigKey, kp.Leaf.SigKey) || bytes.Equal(l.EncKey, kp.Leaf.EncKey) {
			return true
		}
	}
	return false
}

// updateCase makes another member's update invalid.
func updateCase(name string, f func(c *byzCtx, x uint32, l *ref.LeafNode) bool) byzCase {
	return byzCase{name: name, tags: []string{"C11"}, build: func(c *byzCtx) bool {
		x, ok := c.otherRef()
		if !ok || c.has(x) || len(c.e.Tree.Members()) < 3 {
			return false
		}
		l := c.w.updateLeaf(c.e, x)
		if !f(c, x, l) {
			return false
		}
		c.bad(x, &ref.Proposal{Type: ref.PropUpdate, Leaf: l}, true, name)
		return true
	}}
}

// stepByzCommit lets a member send a commit that breaks the rules.
func (w *World) stepByzCommit() bool {
	n, e, li := w.insider()
	if n == nil {
		return false
	}
	k := byzCases[w.r.IntN(len(byzCases))]
	if w.cfg.Only != "" {
		k = byzCaseOf(w.cfg.Only)
	}
	return w.byzCommit(n, e, li, k)
}

func byzCaseOf(name string) byzCase {
	return byzCases[slices.IndexFunc(byzCases, func(k byzCase) bool { return k.name == name })]
}

const earlierProposal = "proposal of an earlier epoch"

// stepStale makes proposals that a node accepted outlive their epoch, and then
// has a commit refer to one of them.
func (w *World) stepStale() bool {
	n, e, li := w.insider()
	if n == nil {
		return false
	}
	if e.won == nil && (len(n.past) == 0 || w.r.P(60)) {
		// proposals, followed by a commit that leaves them out
		for i := w.r.IntN(3); i >= 0; i-- {
			from := pick(w.r, w.refLeaves(e))
			if p, x := w.someProposal(e, from, true); p != nil {
				m := w.refProposal(e, from, p)
				if x != nil {
					m.nodes = []*Node{x}
				}
				w.deliver(n, m)
			}
		}
		spec := ref.CommitSpec{Sender: li, Path: true}
		var nodes []*Node
		if w.r.P(40) {
			spec, nodes = w.honestSpec(e, li)
		}
		m := w.refCommit(e, spec, nodes)
		w.win(m)
		w.catchUp(n, 1)
		if n.ep == e || !n.live() {
			return true
		}
		e = n.ep
		if e.Tree.Leaf(li) == nil {
			return true
		}
	}
	w.byzCommit(n, e, li, byzCaseOf(earlierProposal))
	return true
}

func (w *World) byzCommit(n *Node, e *EpochW, li uint32, k byzCase) bool {
	wire := uint16(ref.WirePrivate)
	if w.r.P(w.cfg.Public) {
		wire = ref.WirePublic
	}
	spec := &ref.CommitSpec{Sender: li, SigPriv: w.sigPriv(e, li), Path: true, Wire: wire, AAD: w.aad()}
	c := &byzCtx{w: w, n: n, e: e, li: li, spec: spec, m: &spec.Mut}
	// some honest content
	if w.r.P(40) {
		if w.r.P(60) {
			c.inline(&ref.Proposal{Type: ref.PropAdd, KP: w.newRefClient().kp})
		}
		if x, ok := w.removable(e, li); ok && x != n.leaf && w.r.P(30) {
			c.inline(&ref.Proposal{Type: ref.PropRemove, Removed: x})
		}
	}
	c.shape()
	if !k.build(c) {
		return false
	}
	if n.ep != e || n.gone {
		return false
	}
	if wire == ref.WirePrivate {
		spec.Priv = w.privOpts(e, li, true)
		spec.Priv.MutatePlain = c.plain
	}
	res := e.Commit(*spec)
	w.fault("bad commit: " + k.name)
	w.inFault = k.name
	w.mustReject(n, res.Msg, w.tags(n, append([]string{"C08"}, k.tags...)...), "bad commit: "+k.name, wire, len(c.path), c.pos)
	return true
}

// kpCase is an unacceptable key package, or several that are together.
type kpCase struct {
	name string
	// invite limits the case to invitations made by the library
	invite bool
	make   func(w *World, e *EpochW) []*ref.KeyPackage
}

func oneKP(name string, f func(w *World, e *EpochW, c *RefClient) bool) kpCase {
	return kpCase{name: name, make: func(w *World, e *EpochW) []*ref.KeyPackage {
		c := w.newRefClient()
		if !f(w, e, c) {
			return nil
		}
		return []*ref.KeyPackage{c.kp}
	}}
}

var kpCases = []kpCase{
	oneKP("wrong suite", func(w *World, e *EpochW, c *RefClient) bool {
		var o ref.Suite
		switch w.cfg.Suite {
		case 1:
			o = 3
		case 3:
			o = 1
		default:
			o = map[ref.Suite]ref.Suite{2: 7, 7: 2}[w.cfg.Suite]
			c.sig = o.GenSig()
			c.init, c.enc = o.GenHPKE(), o.GenHPKE()
			c.kp.InitKey, c.kp.Leaf.EncKey, c.kp.Leaf.SigKey = c.init.Pub, c.enc.Pub, c.sig.Pub
		}
		c.kp.CS = o
		c.kp.Leaf.Caps[1] = []uint16{uint16(o), uint16(w.cfg.Suite)}
		w.signKP(c)
		return true
	}),
	oneKP("wrong version", func(w *World, e *EpochW, c *RefClient) bool {
		c.kp.Version = []uint16{0, 2, 0x0A0A}[w.r.IntN(3)]
		w.signKP(c)
		return true
	}),
	oneKP("bad signature", func(w *World, e *EpochW, c *RefClient) bool {
		switch w.r.IntN(3) {
		case 0:
			c.kp.Sig = nil
		case 1:
			c.kp.SignKP(w.newSig().Priv)
		default:
			c.kp.Sig = flipBit(w.r, c.kp.Sig[:len(c.kp.Sig)/2])
		}
		return true
	}),
	oneKP("bad leaf signature", func(w *World, e *EpochW, c *RefClient) bool {
		switch w.r.IntN(3) {
		case 0:
			c.kp.Leaf.Sig = nil
		case 1:
			c.kp.Leaf.SignLeaf(c.kp.CS, nil, 0, w.newSig().Priv)
		default:
			c.kp.Leaf.Sig = flipBit(w.r, c.kp.Leaf.Sig[:len(c.kp.Leaf.Sig)/2])
		}
		c.kp.SignKP(c.sig.Priv)
		return true
	}),
	oneKP("wrong leaf source", func(w *World, e *EpochW, c *RefClient) bool {
		c.kp.Leaf.Source = []uint8{ref.SourceUpdate, ref.SourceCommit}[w.r.IntN(2)]
		c.kp.Leaf.SignLeaf(c.kp.CS, e.Ctx.GroupID, 0, c.sig.Priv)
		c.kp.SignKP(c.sig.Priv)
		return true
	}),
	oneKP("init key is leaf key", func(w *World, e *EpochW, c *RefClient) bool {
		c.kp.InitKey = c.kp.Leaf.EncKey
		w.signKP(c)
		return true
	}),
	oneKP("unsupported credential", func(w *World, e *EpochW, c *RefClient) bool {
		c.kp.Leaf.Cred = ref.Credential{Type: ref.CredX509, Certs: [][]byte{{1, 2}}}
		c.kp.Leaf.Caps[4] = w.claimX509(len(e.Tree.Members()) + 1)
		w.signKP(c)
		return true
	}),
	oneKP("credentials in use not supported", func(w *World, e *EpochW, c *RefClient) bool {
		c.kp.Leaf.Caps[4] = w.noBasic()
		w.signKP(c)
		return true
	}),
	oneKP("unlisted extension", func(w *World, e *EpochW, c *RefClient) bool {
		w.unlisted(&c.kp.Leaf)
		w.signKP(c)
		return true
	}),
	oneKP("malformed init key", func(w *World, e *EpochW, c *RefClient) bool {
		c.kp.InitKey = badKey(w, c.kp.InitKey)
		w.signKP(c)
		return true
	}),
	oneKP("malformed leaf key", func(w *World, e *EpochW, c *RefClient) bool {
		c.kp.Leaf.EncKey = badKey(w, c.kp.Leaf.EncKey)
		w.signKP(c)
		return true
	}),
	oneKP("malformed signature key", func(w *World, e *EpochW, c *RefClient) bool {
		c.kp.Leaf.SigKey = badKey(w, c.kp.Leaf.SigKey)
		w.signKP(c)
		return true
	}),
	oneKP("leaf key already in the group", func(w *World, e *EpochW, c *RefClient) bool {
		c.kp.Leaf.EncKey = e.Tree.Leaf(pick(w.r, e.Tree.Members())).EncKey
		w.signKP(c)
		return true
	}),
	{name: "leaf key is a parent's key", invite: true, make: func(w *World, e *EpochW) []*ref.KeyPackage {
		var idx []int
		for i, n := range e.Tree {
			if n != nil && n.Parent != nil {
				idx = append(idx, i)
			}
		}
		if len(idx) == 0 {
			return nil
		}
		c := w.newRefClient()
		c.kp.Leaf.EncKey = e.Tree.EncKey(pick(w.r, idx))
		w.signKP(c)
		return []*ref.KeyPackage{c.kp}
	}},
	oneKP("signature key already in the group", func(w *World, e *EpochW, c *RefClient) bool {
		refs := w.refLeaves(e)
		if len(refs) == 0 {
			return false
		}
		c.sig.Pub = e.Tree.Leaf(pick(w.r, refs)).SigKey
		c.sig.Priv = w.keys[string(c.sig.Pub)]
		c.kp.Leaf.SigKey = c.sig.Pub
		w.signKP(c)
		return true
	}),
	{name: "current member", make: func(w *World, e *EpochW) []*ref.KeyPackage {
		for _, n := range e.g.nodes {
			if n.ep != nil && n.leaf < e.Tree.Leaves() && e.Tree.Leaf(n.leaf) != nil && bytes.Equal(e.Tree.Leaf(n.leaf).SigKey, n.refKP.Leaf.SigKey) && w.r.P(60) {
				return []*ref.KeyPackage{n.refKP}
			}
		}
		return nil
	}},
	{name: "same package twice", make: func(w *World, e *EpochW) []*ref.KeyPackage {
		c := w.newRefClient().kp
		return []*ref.KeyPackage{c, c}
	}},
	{name: "same leaf key twice", make: func(w *World, e *EpochW) []*ref.KeyPackage {
		a, b := w.newRefClient(), w.newRefClient()
		b.kp.Leaf.EncKey = a.kp.Leaf.EncKey
		w.signKP(b)
		return []*ref.KeyPackage{a.kp, b.kp}
	}},
	{name: "same signature key twice", make: func(w *World, e *EpochW) []*ref.KeyPackage {
		a, b := w.newRefClient(), w.newRefClient()
		b.sig = a.sig
		b.kp.Leaf.SigKey = a.sig.Pub
		w.signKP(b)
		return []*ref.KeyPackage{a.kp, b.kp}
	}},
}

// sameKey gives a leaf one of the keys of another.
func (w *World) sameKey(l, o *ref.LeafNode) {
	if w.r.P(50) {
		l.SigKey = o.SigKey
	} else {
		l.EncKey = o.EncKey
	}
}

func badKey(w *World, k []byte) []byte {
	switch w.r.IntN(6) {
	case 0:
		return []byte{}
	case 1:
		return k[:len(k)-1]
	case 2:
		return append(bytes.Clone(k), 0)
	case 3, 4:
		if w.cfg.Suite == 1 || w.cfg.Suite == 3 {
			return make([]byte, 200)
		}
		// not a point of the curve
		k = bytes.Clone(k)
		switch w.r.IntN(4) {
		case 0:
			k[0] ^= 1 << w.r.IntN(8)
		case 1:
			k[len(k)-1] ^= 1
		case 2:
			return append([]byte{4}, make([]byte, len(k)-1)...)
		default:
			for i := range k[1:] {
				k[1+i] = 0xff
			}
		}
		return k
	default:
		b := w.r.Bytes(1 + w.r.IntN(len(k)+8))
		if len(b) == len(k) {
			b = b[1:]
		}
		return b
	}
}

// unlisted gives a leaf extensions of which it does not list one.
func (w *World) unlisted(l *ref.LeafNode) {
	l.Exts = w.leafExts(&l.Caps)
	if w.r.P(30) {
		l.Caps[2] = append(slices.Clone(l.Caps[2]), 0x5A5A, 0x6A6A)
		l.Exts = append(slices.Clone(l.Exts), ref.Extension{Type: 0x5A5A, Data: []byte{1}}, ref.Extension{Type: 0x6A6A})
	}
	x := ref.Extension{Type: pick(w.r, []uint16{0x3A3A, 0x4A4A, 0xFA00, 0xFFFF}), Data: w.r.Bytes(w.r.IntN(3))}
	l.Exts = slices.Insert(slices.Clone(l.Exts), w.r.IntN(len(l.Exts)+1), x)
}

// claimX509 lists both credential types, the unused one as often as there are
// members.
func (w *World) claimX509(members int) []uint16 {
	out := []uint16{1}
	if w.r.P(50) {
		members = 1
	}
	for ; members > 0; members-- {
		out = append(out, 2)
	}
	if w.r.P(50) {
		slices.Reverse(out)
	}
	return out
}

// noBasic lists credential types without the one in use.
func (w *World) noBasic() []uint16 {
	return pick(w.r, [][]uint16{{2}, {2, 2}, {}, {0x0A0A, 2}, {2, 2, 2, 2, 2, 2, 2, 2}, {0x0101, 0x0100}})
}

// stepBadKP tries to get an unacceptable client into a group, through an
// invitation or through a member's commit.
func (w *World) stepBadKP() bool {
	n := w.liveNode(nil)
	if n == nil {
		return false
	}
	e := n.ep
	k := pick(w.r, kpCases)
	kps := k.make(w, e)
	if kps == nil {
		return false
	}
	refs := w.refLeaves(e)
	w.fault("bad key package: " + k.name)
	w.inFault = k.name
	if w.r.P(50) || len(refs) == 0 || k.invite {
		good := []*ref.KeyPackage{w.newRefClient().kp}
		if w.r.P(15) {
			for i := w.r.IntN(24); i > 0; i-- {
				good = append(good, w.newRefClient().kp)
			}
		}
		w.mustNotInvite(n, msgsOf(kps), good, w.tags(n, "C10"), "invite: "+k.name)
		return true
	}
	li := pick(w.r, refs)
	spec := ref.CommitSpec{Sender: li, SigPriv: w.sigPriv(e, li), Path: w.r.P(40), Wire: ref.WirePrivate, AAD: w.aad()}
	if w.r.P(w.cfg.Public) {
		spec.Wire = ref.WirePublic
	}
	for w.r.P(30) {
		kps = slices.Insert(kps, w.r.IntN(len(kps)+1), w.newRefClient().kp)
	}
	for _, kp := range kps {
		p := &ref.Proposal{Type: ref.PropAdd, KP: kp}
		por := ref.PropOrRef{Prop: p}
		sender := li
		if w.r.P(40) {
			// as a proposal of its own, which the node may refuse already
			sender = pick(w.r, refs)
			m := w.refProposal(e, sender, p)
			e.msgs = slices.DeleteFunc(e.msgs, func(o *Msg) bool { return o == m })
			w.process(n, m.raw, w.tags(n, "C10"))
			por = ref.PropOrRef{Ref: m.ref}
		}
		spec.Props = append(spec.Props, por)
		spec.Resolved = append(spec.Resolved, ref.Resolved{Prop: p, Sender: sender})
	}
	if spec.Wire == ref.WirePrivate {
		spec.Priv = w.privOpts(e, li, true)
	}
	res := e.Commit(spec)
	w.mustReject(n, res.Msg, w.tags(n, "C08", "C10"), "commit: "+k.name, spec.Path, spec.Wire)
	return true
}
