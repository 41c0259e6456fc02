package world

import (
	"bytes"
	"encoding/binary"
	"slices"

	mls "github.com/emersion/go-mls"

	"verif/sim/ref"
)

// hugeLen is a length prefix that claims a gigabyte.
var hugeLen = []byte{0xbf, 0xff, 0xff, 0xff}

// claim puts an enormous length prefix somewhere.
func (w *World) claim(b []byte, at int) []byte {
	b = bytes.Clone(b)
	if at < 0 {
		at = w.r.IntN(max(1, len(b)-4))
	}
	p := bytes.Clone(hugeLen)
	if w.r.P(30) {
		binary.BigEndian.PutUint32(p, 0x80000000|uint32(1)<<(18+w.r.IntN(12)))
	}
	if at > len(b) {
		return append(b, p...)
	}
	return append(append(b[:at:at], p...), b[min(len(b), at+1+w.r.IntN(3)):]...)
}

// stepCost sends things that claim to be large.
func (w *World) stepCost() bool {
	n := w.liveNode(func(n *Node) bool { return len(w.refLeaves(n.ep)) > 0 })
	if n == nil {
		return false
	}
	e := n.ep
	li := pick(w.r, w.refLeaves(e))
	mine := w.sigPriv(e, li)
	tags := w.tags(n, "C17")
	content := ref.Content{
		GroupID: e.Ctx.GroupID, Epoch: e.Ctx.Epoch, Sender: ref.Sender{Type: ref.SenderMember, Index: li},
		Type: ref.ContentApp, App: w.payload(),
	}
	handshake := w.r.P(40)
	if handshake {
		content.Type, content.App = ref.ContentProposal, nil
		content.Prop = &ref.Proposal{Type: ref.PropUpdate, Leaf: w.updateLeaf(e, li)}
		if w.r.P(50) {
			content.Prop = &ref.Proposal{Type: ref.PropAdd, KP: w.newRefClient().kp}
		}
	}
	opts := ref.PrivateOpts{Gen: w.freshGen(e, li, handshake), Guard: [4]byte(w.r.Bytes(4))}
	what := ""
	k := w.r.IntN(10)
	if w.r.P(12) {
		k = 10 + w.r.IntN(4)
	}
	if w.r.P(1) {
		k = 14
	}
	if w.r.IntN(800) == 0 {
		k = 15
	}
	switch k {
	case 0: // raw bytes
		what = "length in raw bytes"
		src := [][]byte{n.kpRaw, n.welcome}
		for _, m := range e.msgs {
			src = append(src, m.raw)
		}
		b := pick(w.r, src)
		if b == nil {
			return false
		}
		at := -1
		if w.r.P(40) {
			at = []int{4, 6, 13, 14, 15, 4 + 1 + len(e.Ctx.GroupID) + 8 + 1}[w.r.IntN(6)]
		}
		w.fault("cost: " + what)
		w.inFault = what
		w.feed(n, w.claim(b, at))
		return true
	case 1, 2: // inside encrypted content
		what = "length in encrypted content"
		a := e.Sign(content, ref.WirePrivate, mine)
		opts.MutatePlain = func(b []byte) []byte { return w.claim(b, []int{-1, 0, 2}[w.r.IntN(3)]) }
		w.fault("cost: " + what)
		w.inFault = what
		w.mustReject(n, e.EncodePrivate(a, opts), tags, what)
	case 3, 4: // generations
		what = "far generation"
		g := []uint32{^uint32(0), 1 << 31, 1<<31 - 1, 1 << 24, 1 << 28, 3_000_000_000, 1 << 21}[w.r.IntN(7)]
		if w.r.P(40) {
			g = 1<<(14+w.r.IntN(18)) + uint32(w.r.IntN(1000))
		}
		opts.ClaimGen = &g
		a := e.Sign(content, ref.WirePrivate, mine)
		w.fault("cost: " + what)
		w.inFault = what
		w.mustReject(n, e.EncodePrivate(a, opts), tags, what, bucket(int(g)))
	case 5: // long lists
		what = "long proposal list"
		spec := ref.CommitSpec{Sender: li, SigPriv: mine, Path: w.r.P(50), Wire: ref.WirePrivate, Priv: w.privOpts(e, li, true)}
		many := 200 + w.r.IntN(2000)
		var p ref.PropOrRef
		switch w.r.IntN(4) {
		case 0:
			p.Ref = w.r.Bytes(e.CS.Nh())
		case 1:
			p.Prop = &ref.Proposal{Type: ref.PropRemove, Removed: pick(w.r, e.Tree.Members())}
		case 2:
			p.Prop = &ref.Proposal{Type: ref.PropRemove, Removed: w.r.U32()}
		default:
			p.Prop = &ref.Proposal{Type: ref.PropAdd, KP: w.newRefClient().kp}
			many = 20 + w.r.IntN(200)
		}
		for ; many > 0; many-- {
			spec.Props = append(spec.Props, p)
		}
		w.fault("cost: " + what)
		w.inFault = what
		w.mustReject(n, e.Commit(spec).Msg, tags, what)
	case 6: // long paths
		what = "long path"
		spec := ref.CommitSpec{Sender: li, SigPriv: mine, Path: true, Wire: ref.WirePrivate, Priv: w.privOpts(e, li, true)}
		many := 200 + w.r.IntN(2000)
		nodes := w.r.P(50)
		spec.Mut.Path = func(u *ref.UpdatePath) {
			if len(u.Nodes) == 0 {
				return
			}
			x := u.Nodes[len(u.Nodes)-1]
			for i := 0; i < many; i++ {
				if nodes {
					u.Nodes = append(u.Nodes, x)
				} else {
					x.Cts = append(x.Cts, x.Cts[0])
				}
			}
			u.Nodes[len(u.Nodes)-1] = x
		}
		w.fault("cost: " + what)
		w.inFault = what
		w.mustReject(n, e.Commit(spec).Msg, tags, what, nodes)
	case 7: // lengths inside a welcome
		c := w.dishonestWelcome(nil)
		if c == nil {
			return false
		}
		c.commit()
		what = "length in welcome"
		if w.r.P(50) {
			c.o.RawInfo = func(b []byte) []byte { return w.claim(b, []int{-1, 4}[w.r.IntN(2)]) }
		} else {
			c.o.RawSecret = func(i int, b []byte) []byte { return w.claim(b, []int{-1, 0, len(b) - 1}[w.r.IntN(3)]) }
		}
		w.costlyWelcome(c, what, false)
	case 8: // a length inside a tree
		c := w.dishonestWelcome(nil)
		if c == nil {
			return false
		}
		c.commit()
		what = "length in tree"
		c.o.Tree = w.claim(c.tree.Encode(), []int{-1, 0}[w.r.IntN(2)])
		w.costlyWelcome(c, what, false)
	case 10: // many entries in a welcome
		c := w.dishonestWelcome(nil)
		if c == nil {
			return false
		}
		c.commit()
		what = "many entries in welcome"
		many := 1000 + w.r.IntN(20000)
		c.o.Welcome = func(x *ref.Welcome) {
			all := make([]ref.WelcomeSecret, many, many+len(x.Secrets))
			for i := range all {
				all[i] = x.Secrets[0]
				all[i].Ref = binary.BigEndian.AppendUint32(make([]byte, e.CS.Nh()-4), uint32(i))
			}
			x.Secrets = append(all, x.Secrets...)
		}
		w.costlyWelcome(c, what, true)
	case 11: // many unmerged leaves
		c := w.dishonestWelcome(nil)
		if c == nil {
			return false
		}
		c.spec.Path = true
		c.commit()
		what = "many unmerged leaves"
		t := c.tree.Clone()
		var parents []int
		for i, x := range t {
			if x != nil && x.Parent != nil {
				parents = append(parents, i)
			}
		}
		if len(parents) == 0 {
			return false
		}
		i := pick(w.r, parents)
		p := *t[i].Parent
		members := t.Members()
		p.Unmerged = make([]uint32, 1000+w.r.IntN(40000))
		kind := w.r.IntN(4)
		for j := range p.Unmerged {
			switch kind {
			case 0:
				p.Unmerged[j] = uint32(j)
			case 1:
				p.Unmerged[j] = members[0]
			case 2:
				p.Unmerged[j] = pick(w.r, members)
			default:
				p.Unmerged[j] = w.r.U32()
			}
		}
		t[i] = &ref.Node{Parent: &p}
		c.o.Tree = t.Encode()
		w.costlyWelcome(c, what, false)
	case 12: // a long key package
		if n.rebuilt {
			return false
		}
		what = "long key package"
		x := w.newRefClient()
		l := &x.kp.Leaf
		many := 1000 + w.r.IntN(20000)
		huge := w.r.P(4)
		switch i := w.r.IntN(len(l.Caps) + 2); {
		case i < len(l.Caps):
			if huge {
				// every type there is, over and over
				many = 1<<20 + w.r.IntN(1<<20)
			}
			l.Caps[i] = manyTypes(many, l.Caps[i])
		case i == len(l.Caps):
			l.Caps[2] = manyTypes(many/8, l.Caps[2])
			for j := 0; j < many/8; j++ {
				l.Exts = append(l.Exts, ref.Extension{Type: 0x8000 + uint16(j)})
			}
		default:
			l.Cred.Identity = w.r.Bytes(4 * many)
		}
		w.signKP(x)
		w.fault("cost: " + what)
		w.inFault = what
		if m := w.invite(n, []*ref.KeyPackage{x.kp}, []*Node{nil}); m != nil {
			w.lose(m)
		}
	case 13: // a long message
		what = "long message"
		w.fault("cost: " + what)
		w.inFault = what
		w.big = 1<<16 + w.r.IntN(1<<20)
		m := w.refApp(e, li)
		w.big = 0
		w.deliver(n, m)
		w.sutApp(n, w.r.Bytes(1<<16+w.r.IntN(1<<18)))
	case 14: // a full tree
		c := w.dishonestWelcome(nil)
		if c == nil || w.cfg.Suite != 1 && w.cfg.Suite != 3 {
			return false
		}
		what = "full tree"
		leaves := uint32(256) << w.r.IntN(6)
		if w.r.P(60) {
			// keys above the inviter, which the others are not merged into
			t := c.base.Tree.Clone()
			for t.Leaves() < leaves {
				t = append(t, make(ref.Tree, len(t)+1)...)
			}
			for s := uint32(1); s < leaves; s *= 2 {
				x := c.li/s*s ^ s
				if t.Leaf(x) == nil {
					t[2*x] = &ref.Node{Leaf: w.crowd(1)[0]}
				}
			}
			c.base = c.base.With(t, nil)
			c.spec.Path = true
		}
		c.commit()
		for _, l := range w.crowd(int(leaves) - len(c.tree.Members())) {
			c.tree, _ = c.tree.Add(l)
		}
		w.perByte = denseAlloc
		group, size := w.costlyWelcome(c, what, true)
		if group != nil {
			w.busyCrowd(c, group, size)
		}
		w.perByte = 0
	case 15: // many proposals, and many references
		if w.cfg.Suite != 1 && w.cfg.Suite != 3 {
			return false
		}
		what = "many references"
		sign := func(p *ref.Proposal) ([]byte, []byte) {
			c := content
			c.Type, c.App, c.Prop = ref.ContentProposal, nil, p
			a := e.Sign(c, ref.WirePublic, mine)
			return e.EncodePublic(a), a.ProposalRef(e.CS)
		}
		first, _ := sign(&ref.Proposal{Type: ref.PropRemove, Removed: li + 1})
		last, id := sign(&ref.Proposal{Type: ref.PropRemove, Removed: pick(w.r, e.Tree.Members())})
		if len(first) > 1000 {
			return false
		}
		many := 4000 + w.r.IntN(4000)
		w.fault("cost: " + what)
		w.inFault = what
		var err error
		w.call(n, "UnmarshalAndProcessMessage", many*len(first), tags, func() {
			for i := 0; i < many && err == nil; i++ {
				_, err = n.group.UnmarshalAndProcessMessage(first)
			}
		})
		w.log("%s receives a proposal %d times: %v", n.name, many, err)
		_, err = w.process(n, last, tags)
		w.log("%s receives another one: %v", n.name, err)
		spec := ref.CommitSpec{Sender: li, SigPriv: mine, Wire: ref.WirePrivate, Priv: w.privOpts(e, li, true)}
		spec.Props = slices.Repeat([]ref.PropOrRef{{Ref: id}}, 200000+w.r.IntN(200000))
		w.mustReject(n, e.Commit(spec).Msg, tags, what, bucket(many))
	default: // a sparse tree
		c := w.dishonestWelcome(nil)
		if c == nil {
			return false
		}
		c.commit()
		what = "sparse tree"
		t := c.tree.Clone()
		for width := 1<<(8+w.r.IntN(5)) - 1; len(t) < width; {
			t = append(t, make(ref.Tree, len(t)+1)...)
		}
		x := w.newRefClient()
		t[len(t)-1] = &ref.Node{Leaf: &x.kp.Leaf}
		for i, p := range t {
			// the last leaf is below the root, if there is one
			if p != nil && p.Parent != nil && i == len(t)/2 {
				return false
			}
		}
		c.tree = t
		w.costlyWelcome(c, what, true)
	}
	return true
}

// costlyWelcome lets a client try a welcome that is invalid or only large.
func (w *World) costlyWelcome(c *welCtx, what string, valid bool) (*mls.Group, int) {
	tags := w.tags(c.v, "C17")
	w.fault("cost: " + what)
	w.inFault = what
	raw := c.msg()
	group, err := w.tryJoin(c.v, raw, tags)
	w.log("%s tries a welcome of %d bytes (%s): %v", c.v.name, len(raw), what, err)
	w.judge(c.v, tags, "welcome: "+what, "bounded", bucket(len(raw)))
	if err == nil && !valid {
		w.fail("accept-invalid", append(tags, "C09"), "%s joins from an invalid welcome (%s)", c.v.name, what)
	}
	return group, len(raw)
}

// busyCrowd lets a new member of a large group do everything once. The size of
// the tree is what the cost is measured by.
func (w *World) busyCrowd(c *welCtx, group *mls.Group, size int) {
	v := c.v
	tags := w.tags(v, "C17")
	var err error
	w.call(v, "CreateApplicationMessage", size, tags, func() { _, err = group.CreateApplicationMessage([]byte("crowd")) })
	w.log("%s sends: %v", v.name, err)
	kp, done, err := w.keyPackage(v, w.newRefClient().kp.Msg(), tags)
	if err == nil {
		w.call(v, "CreateWelcome", size, tags, func() { _, _, err = group.CreateWelcome([]mls.KeyPackage{*kp}) })
		w.log("%s invites: %v", v.name, err)
	}
	done()
	e := c.res.Next.With(c.tree, c.ctx)
	spec := ref.CommitSpec{Sender: c.li, SigPriv: c.o.SigPriv, Path: true, Wire: ref.WirePrivate, Priv: ref.PrivateOpts{Gen: 1}}
	raw := e.Commit(spec).Msg
	w.call(v, "UnmarshalAndProcessMessage", len(raw)+size, tags, func() { _, err = group.UnmarshalAndProcessMessage(raw) })
	w.log("%s processes a commit of %d bytes: %v", v.name, len(raw), err)
}

// crowd makes leaves that nobody is behind.
func (w *World) crowd(n int) []*ref.LeafNode {
	out := make([]*ref.LeafNode, max(n, 0))
	t := w.newRefClient().kp.Leaf
	t.Cred.Identity = w.r.Bytes(16)
	t.Exts = nil
	for i := range out {
		l := t
		k := w.cfg.Suite.GenSig()
		l.SigKey, l.EncKey = k.Pub, w.r.Bytes(32)
		l.SignLeaf(w.cfg.Suite, nil, 0, k.Priv)
		out[i] = &l
	}
	return out
}

// manyTypes adds private extension types.
func manyTypes(n int, before []uint16) []uint16 {
	out := before[:len(before):len(before)]
	for j := 0; j < n; j++ {
		out = append(out, 0x8000+uint16(j))
	}
	return out
}
