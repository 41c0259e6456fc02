package world

import (
	"bytes"
	"runtime"
	"slices"

	"verif/sim/ref"
)

// welCtx is a welcome under construction by a dishonest inviter.
type welCtx struct {
	w    *World
	v    *Node // the invited client
	li   uint32
	leaf uint32     // where the client lands
	base *ref.Epoch // the epoch before the commit, as the inviter pretends
	spec ref.CommitSpec
	res  *ref.CommitResult
	tree ref.Tree
	ctx  func(c *ref.GroupContext)
	o    ref.WelcomeOpts
}

// welCase is one way to build an invalid welcome.
type welCase struct {
	name string
	// pre changes the commit the welcome is for
	pre func(c *welCtx) bool
	// build changes the welcome
	build func(c *welCtx) bool
	// past changes an earlier commit, so that the damage is in the tree already
	past func(c *welCtx, s *ref.CommitSpec) bool
}

func (c *welCtx) parents() []int {
	var out []int
	for i, n := range c.tree {
		if n != nil && n.Parent != nil {
			out = append(out, i)
		}
	}
	return out
}

// other is a member that is neither the inviter nor the client.
func (c *welCtx) other() (uint32, bool) {
	m := slices.DeleteFunc(c.tree.Members(), func(x uint32) bool { return x == c.li || x == c.leaf })
	if len(m) == 0 {
		return 0, false
	}
	return pick(c.w.r, m), true
}

func treeCase(name string, f func(c *welCtx, t ref.Tree) ref.Tree) welCase {
	return welCase{name: name, build: func(c *welCtx) bool {
		t := f(c, c.tree.Clone())
		if t == nil {
			return false
		}
		c.tree = t
		return true
	}}
}

func parentCase(name string, f func(c *welCtx, t ref.Tree, i int, p *ref.Parent) bool) welCase {
	return treeCase(name, func(c *welCtx, t ref.Tree) ref.Tree {
		ps := c.parents()
		if len(ps) == 0 {
			return nil
		}
		i := pick(c.w.r, ps)
		p := *t[i].Parent
		p.Unmerged = slices.Clone(p.Unmerged)
		if !f(c, t, i, &p) {
			return nil
		}
		t[i] = &ref.Node{Parent: &p}
		return t
	})
}

// extraLeaf adds a client whose leaf has been spoiled before signing.
func extraLeaf(name string, f func(c *welCtx, x *RefClient) bool) welCase {
	return treeCase(name, func(c *welCtx, t ref.Tree) ref.Tree {
		x := c.w.newRefClient()
		if !f(c, x) {
			return nil
		}
		x.kp.Leaf.SignLeaf(c.w.cfg.Suite, nil, 0, x.sig.Priv)
		t, _ = t.Add(&x.kp.Leaf)
		return t
	})
}

// pastCase spoils a commit with a path that was made before the one the welcome
// is for. Its path and the tree without it are given.
func pastCase(name string, f func(c *welCtx, s *ref.CommitSpec, path []int, t ref.Tree) bool) welCase {
	return welCase{name: name, past: func(c *welCtx, s *ref.CommitSpec) bool {
		s.Path = true
		t, _ := ref.ApplyProposals(c.base.Tree, s.Resolved)
		t = t.Clone()
		for _, p := range t.DirectPath(int(2 * s.Sender)) {
			t[p] = nil
		}
		path, _ := t.FilteredPath(s.Sender)
		return f(c, s, path, t)
	}}
}

// insiders lists the members of a tree whose keys the reference has.
func (w *World) insiders(t ref.Tree) []uint32 {
	var out []uint32
	for _, li := range t.Members() {
		if w.keys[string(t.Leaf(li).SigKey)] != nil {
			out = append(out, li)
		}
	}
	return out
}

// earlier makes one commit before the one the welcome is for.
func (c *welCtx) earlier(spoil func(c *welCtx, s *ref.CommitSpec) bool) bool {
	w := c.w
	li := pick(w.r, w.insiders(c.base.Tree))
	s := ref.CommitSpec{Sender: li, SigPriv: w.keys[string(c.base.Tree.Leaf(li).SigKey)], Wire: ref.WirePrivate}
	do := func(p *ref.Proposal) {
		s.Props = append(s.Props, ref.PropOrRef{Prop: p})
		s.Resolved = append(s.Resolved, ref.Resolved{Prop: p, Sender: li})
	}
	if m := c.base.Tree.Members(); len(m) > 2 && w.r.P(25) {
		if x := pick(w.r, m); x != li {
			do(&ref.Proposal{Type: ref.PropRemove, Removed: x})
		}
	}
	if w.r.P(60) {
		for i := w.r.IntN(3); i >= 0; i-- {
			do(&ref.Proposal{Type: ref.PropAdd, KP: w.newRefClient().kp})
		}
	}
	s.Path = needsPath(&s) || w.r.P(50)
	if spoil != nil && !spoil(c, &s) {
		return false
	}
	c.base = c.base.Commit(s).Next
	return len(w.insiders(c.base.Tree)) > 0
}

// history makes up what happened between the newest epoch and the welcome.
func (c *welCtx) history(k *welCase) bool {
	w := c.w
	n := 0
	if w.r.P(60) {
		n = 1 + w.r.IntN(3)
	}
	at := -1
	if k != nil && k.past != nil {
		n = 1 + w.r.IntN(4)
		at = w.r.IntN(n)
	}
	for i := 0; i < n; i++ {
		var spoil func(*welCtx, *ref.CommitSpec) bool
		if i == at {
			spoil = k.past
		}
		if !c.earlier(spoil) {
			return false
		}
	}
	return true
}

func rawTree(name string, f func(c *welCtx) []byte) welCase {
	return welCase{name: name, build: func(c *welCtx) bool {
		c.o.Tree = f(c)
		return c.o.Tree != nil
	}}
}

func cutOrExtend(r Rng, b []byte) []byte {
	if len(b) > 0 && r.P(60) {
		return b[:r.IntN(len(b))]
	}
	return append(bytes.Clone(b), r.Bytes(1+r.IntN(4))...)
}

var welCases = []welCase{
	pastCase("past: path key twice", func(c *welCtx, s *ref.CommitSpec, path []int, t ref.Tree) bool {
		if len(path) == 0 {
			return false
		}
		key := c.w.cfg.Suite.GenHPKE().Pub
		i, j := c.w.r.IntN(len(path)), c.w.r.IntN(len(path))
		if i == j {
			s.Leaf = func(l *ref.LeafNode) { l.EncKey = key }
		}
		s.Mut.NodeKey = func(k int) []byte {
			if k == i || k == j {
				return key
			}
			return nil
		}
		return true
	}),
	pastCase("past: path key in use", func(c *welCtx, s *ref.CommitSpec, path []int, t ref.Tree) bool {
		var used []int
		for i, n := range t {
			if n != nil && i != int(2*s.Sender) {
				used = append(used, i)
			}
		}
		if len(path) == 0 || len(used) == 0 {
			return false
		}
		key := t.EncKey(pick(c.w.r, used))
		if c.w.r.P(40) {
			s.Leaf = func(l *ref.LeafNode) { l.EncKey = key }
			return true
		}
		i := c.w.r.IntN(len(path))
		s.Mut.NodeKey = func(k int) []byte {
			if k == i {
				return key
			}
			return nil
		}
		return true
	}),
	pastCase("past: malformed path key", func(c *welCtx, s *ref.CommitSpec, path []int, t ref.Tree) bool {
		if len(path) == 0 {
			return false
		}
		i := c.w.r.IntN(len(path))
		key := badKey(c.w, c.w.cfg.Suite.GenHPKE().Pub)
		s.Mut.NodeKey = func(k int) []byte {
			if k == i {
				return key
			}
			return nil
		}
		return true
	}),
	pastCase("past: wrong parent hash", func(c *welCtx, s *ref.CommitSpec, path []int, t ref.Tree) bool {
		k := c.w.r.IntN(4)
		s.Mut.ParentHash = func(h []byte) []byte {
			switch {
			case len(h) == 0:
				return c.w.r.Bytes(c.w.cfg.Suite.Nh())
			case k == 0:
				return nil
			case k == 1:
				return h[:len(h)-1]
			case k == 2:
				return append(bytes.Clone(h), 0)
			}
			return flipBit(c.w.r, h)
		}
		return true
	}),
	pastCase("past: wrong leaf signature", func(c *welCtx, s *ref.CommitSpec, path []int, t ref.Tree) bool {
		switch c.w.r.IntN(4) {
		case 0:
			s.Mut.LeafSigner = c.w.newSig().Priv
		case 1:
			s.Mut.LeafGroup = append(bytes.Clone(c.v.g.id), 'x')
		case 2:
			x := s.Sender + 1
			s.Mut.LeafIndex = &x
		default:
			s.Mut.AfterLeaf = func(l *ref.LeafNode) { l.Cred.Identity = []byte("mallory") }
		}
		return true
	}),
	pastCase("past: leaf with unlisted extension", func(c *welCtx, s *ref.CommitSpec, path []int, t ref.Tree) bool {
		s.Leaf = c.w.unlisted
		return true
	}),
	pastCase("past: leaf without support for credentials", func(c *welCtx, s *ref.CommitSpec, path []int, t ref.Tree) bool {
		s.Leaf = func(l *ref.LeafNode) { l.Caps[4] = c.w.noBasic() }
		return true
	}),
	pastCase("past: leaf with unsupported credential", func(c *welCtx, s *ref.CommitSpec, path []int, t ref.Tree) bool {
		s.Leaf = func(l *ref.LeafNode) {
			l.Cred = ref.Credential{Type: ref.CredX509, Certs: [][]byte{{1, 2, 3}}}
			l.Caps[4] = c.w.claimX509(len(t.Members()))
		}
		return true
	}),
	pastCase("past: unmerged leaves wrong", func(c *welCtx, s *ref.CommitSpec, path []int, t ref.Tree) bool {
		s.Path = needsPath(s)
		r := c.w.r.Uint64()
		s.Mut.Tree = func(t ref.Tree) ref.Tree {
			r := newRng(r)
			t = t.Clone()
			var ps []int
			for i, n := range t {
				if n != nil && n.Parent != nil {
					ps = append(ps, i)
				}
			}
			if len(ps) == 0 {
				return t
			}
			i := pick(r, ps)
			p := *t[i].Parent
			p.Unmerged = slices.Clone(p.Unmerged)
			if len(p.Unmerged) > 0 && r.P(50) {
				k := r.IntN(len(p.Unmerged))
				p.Unmerged = slices.Delete(p.Unmerged, k, k+1)
			} else {
				x := uint32(r.IntN(int(t.Leaves())))
				if !slices.Contains(p.Unmerged, x) {
					p.Unmerged = append(p.Unmerged, x)
					slices.Sort(p.Unmerged)
				}
			}
			t[i] = &ref.Node{Parent: &p}
			return t
		}
		return true
	}),
	pastCase("past: node not blanked", func(c *welCtx, s *ref.CommitSpec, path []int, t ref.Tree) bool {
		old := c.base.Tree
		r := c.w.r.Uint64()
		s.Mut.Tree = func(t ref.Tree) ref.Tree {
			r := newRng(r)
			t = t.Clone()
			for i := 1; i < len(t) && i < len(old); i += 2 {
				if t[i] == nil && old[i] != nil && r.P(60) {
					t[i] = old[i]
				}
			}
			return t
		}
		return true
	}),
	pastCase("past: node blanked", func(c *welCtx, s *ref.CommitSpec, path []int, t ref.Tree) bool {
		r := c.w.r.Uint64()
		s.Mut.Tree = func(t ref.Tree) ref.Tree {
			r := newRng(r)
			t = t.Clone()
			for i := 1; i < len(t); i += 2 {
				if t[i] != nil && r.P(40) {
					t[i] = nil
				}
			}
			return t
		}
		return true
	}),
	pastCase("past: nodes exchanged", func(c *welCtx, s *ref.CommitSpec, path []int, t ref.Tree) bool {
		r := c.w.r.Uint64()
		s.Path = needsPath(s)
		s.Mut.Tree = func(t ref.Tree) ref.Tree {
			r := newRng(r)
			t = t.Clone()
			if len(t) < 5 {
				return t
			}
			i, j := 1+2*r.IntN(len(t)/2), 1+2*r.IntN(len(t)/2)
			t[i], t[j] = t[j], t[i]
			return t
		}
		return true
	}),
	{name: "damaged signature", build: func(c *welCtx) bool {
		k := c.w.r.IntN(3)
		c.o.AfterSign = func(g *ref.GroupInfo) {
			switch k {
			case 0:
				g.Sig = nil
			case 1:
				g.Sig = g.Sig[:len(g.Sig)-1]
			default:
				g.Sig = flipBit(c.w.r, g.Sig)
			}
		}
		return true
	}},
	{name: "signed by other key", build: func(c *welCtx) bool {
		c.o.SigPriv = c.w.newSig().Priv
		return true
	}},
	{name: "other signer", build: func(c *welCtx) bool {
		nl := c.tree.Leaves()
		idx := []uint32{c.leaf, nl, nl + 1, 2 * nl, 1 << 30, 1 << 31, 1<<31 + c.li, ^uint32(0), 1<<31 - 1, 1<<31 + c.li}
		for x := uint32(0); x < nl; x++ {
			if x != c.li {
				idx = append(idx, x)
			}
		}
		c.o.Signer = pick(c.w.r, idx)
		return true
	}},
	{name: "changed after signing", build: func(c *welCtx) bool {
		k := c.w.r.IntN(4)
		c.o.AfterSign = func(g *ref.GroupInfo) {
			switch k {
			case 0:
				g.Ctx.Epoch++
			case 1:
				g.Exts = append(g.Exts, ref.Extension{Type: 0x1A1A})
			case 2:
				g.Tag = flipBit(c.w.r, g.Tag)
			default:
				g.Ctx.GroupID = append(bytes.Clone(g.Ctx.GroupID), 1)
			}
		}
		return true
	}},
	{name: "wrong confirmation tag", build: func(c *welCtx) bool {
		k := c.w.r.IntN(5)
		c.o.Info = func(g *ref.GroupInfo) {
			switch k {
			case 0:
				g.Tag = nil
			case 1:
				g.Tag = g.Tag[:len(g.Tag)-1]
			case 2:
				g.Tag = append(bytes.Clone(g.Tag), 0)
			case 3:
				g.Tag = make([]byte, len(g.Tag))
			default:
				g.Tag = flipBit(c.w.r, g.Tag)
			}
		}
		return true
	}},
	{name: "context does not match the tag", build: func(c *welCtx) bool {
		k := c.w.r.IntN(4)
		c.o.Info = func(g *ref.GroupInfo) {
			switch k {
			case 0:
				g.Ctx.Epoch--
			case 1:
				g.Ctx.GroupID = append(bytes.Clone(g.Ctx.GroupID), 'x')
			case 2:
				g.Ctx.Confirmed = flipBit(c.w.r, g.Ctx.Confirmed)
			default:
				g.Ctx.Exts = []ref.Extension{{Type: 0x2A2A}}
			}
		}
		return true
	}},
	{name: "context of other suite", build: func(c *welCtx) bool {
		o := []ref.Suite{0, 1, 2, 3, 5, 7, 0xffff}[c.w.r.IntN(7)]
		c.ctx = func(x *ref.GroupContext) { x.CS = o }
		return o != c.w.cfg.Suite
	}},
	{name: "context of other version", build: func(c *welCtx) bool {
		v := []uint16{0, 2, 0x0A0A}[c.w.r.IntN(3)]
		c.ctx = func(x *ref.GroupContext) { x.Version = v }
		return true
	}},
	{name: "wrong tree hash", build: func(c *welCtx) bool {
		k := c.w.r.IntN(3)
		c.ctx = func(x *ref.GroupContext) {
			switch k {
			case 0:
				x.TreeHash = nil
			case 1:
				x.TreeHash = x.TreeHash[:len(x.TreeHash)-1]
			default:
				x.TreeHash = flipBit(c.w.r, x.TreeHash)
			}
		}
		return true
	}},
	{name: "no tree", build: func(c *welCtx) bool {
		c.o.NoTree = true
		return true
	}},
	rawTree("empty tree", func(c *welCtx) []byte { return []byte{0} }),
	rawTree("tree of nothing", func(c *welCtx) []byte { return []byte{} }),
	rawTree("blank tree", func(c *welCtx) []byte { return make(ref.Tree, 7).EncodeN(1 + c.w.r.IntN(7)) }),
	rawTree("tree with trailing blanks", func(c *welCtx) []byte {
		t := c.tree.Clone()
		end := len(t)
		for end > 0 && t[end-1] == nil {
			end--
		}
		if end == len(t) {
			t = append(t, make(ref.Tree, len(t)+1)...)
		}
		return t.EncodeN(end + 1 + c.w.r.IntN(len(t)-end))
	}),
	rawTree("tree with trailing bytes", func(c *welCtx) []byte {
		return append(c.tree.Encode(), c.w.r.Bytes(1+c.w.r.IntN(3))...)
	}),
	rawTree("truncated tree", func(c *welCtx) []byte {
		b := c.tree.Encode()
		return b[:c.w.r.IntN(len(b))]
	}),
	rawTree("tree of another epoch", func(c *welCtx) []byte {
		e := c.w.groups[c.v.g.idx].chain
		return pick(c.w.r, e).Tree.Encode()
	}),
	rawTree("leaf at parent position", func(c *welCtx) []byte {
		t := c.tree.Clone()
		if len(t) < 3 {
			return nil
		}
		i := 1 + 2*c.w.r.IntN(len(t)/2)
		t[i] = t[2*c.li]
		return t.Encode()
	}),
	rawTree("parent at leaf position", func(c *welCtx) []byte {
		t := c.tree.Clone()
		i := 2 * c.w.r.IntN(int(t.Leaves()))
		p := &ref.Parent{EncKey: c.w.cfg.Suite.GenHPKE().Pub}
		if ps := c.parents(); len(ps) > 0 {
			p = t[pick(c.w.r, ps)].Parent
		}
		t[i] = &ref.Node{Parent: p}
		return t.Encode()
	}),
	rawTree("tree cut", func(c *welCtx) []byte {
		if len(c.tree) < 3 {
			return nil
		}
		return c.tree.EncodeN(1 + c.w.r.IntN(len(c.tree)-1))
	}),
	treeCase("tree doubled with blanks", func(c *welCtx, t ref.Tree) ref.Tree {
		t = append(t, make(ref.Tree, len(t)+1)...)
		c.o.Tree = t.EncodeN(len(t))
		return t
	}),
	treeCase("leaf altered", func(c *welCtx, t ref.Tree) ref.Tree {
		x, ok := c.other()
		if !ok {
			x = c.li
		}
		l := *t.Leaf(x)
		switch c.w.r.IntN(4) {
		case 0:
			l.Cred.Identity = []byte("mallory")
		case 1:
			l.EncKey = c.w.cfg.Suite.GenHPKE().Pub
		case 2:
			l.Sig = flipBit(c.w.r, l.Sig)
		default:
			l.Sig = nil
		}
		t[2*x] = &ref.Node{Leaf: &l}
		return t
	}),
	treeCase("stranger's leaf from another group", func(c *welCtx, t ref.Tree) ref.Tree {
		x := c.w.newRefClient()
		l := &x.kp.Leaf
		l.Source = ref.SourceUpdate
		l.SignLeaf(c.w.cfg.Suite, []byte("another group"), t.Leaves(), x.sig.Priv)
		t, _ = t.Add(l)
		return t
	}),
	treeCase("leaf signed for another position", func(c *welCtx, t ref.Tree) ref.Tree {
		x := c.w.newRefClient()
		l := &x.kp.Leaf
		l.Source = ref.SourceUpdate
		var li uint32
		t, li = t.Add(l)
		l.SignLeaf(c.w.cfg.Suite, c.v.g.id, li+1, x.sig.Priv)
		return t
	}),
	treeCase("client placed twice", func(c *welCtx, t ref.Tree) ref.Tree {
		t, _ = t.Add(t.Leaf(c.leaf))
		return t
	}),
	treeCase("member placed twice", func(c *welCtx, t ref.Tree) ref.Tree {
		x, ok := c.other()
		if !ok || t.Leaf(x).Source != ref.SourceKeyPackage {
			return nil
		}
		t, _ = t.Add(t.Leaf(x))
		return t
	}),
	treeCase("client not in the tree", func(c *welCtx, t ref.Tree) ref.Tree {
		t = t.Remove(c.leaf)
		if t.Leaf(c.li) == nil {
			return nil
		}
		return t
	}),
	treeCase("client's leaf altered", func(c *welCtx, t ref.Tree) ref.Tree {
		l := *t.Leaf(c.leaf)
		if c.w.r.P(50) {
			l.EncKey = c.w.cfg.Suite.GenHPKE().Pub
		} else {
			l.Cred.Identity = []byte("mallory")
		}
		t[2*c.leaf] = &ref.Node{Leaf: &l}
		return t
	}),
	treeCase("somebody else in the client's place", func(c *welCtx, t ref.Tree) ref.Tree {
		x := c.w.newRefClient()
		t[2*c.leaf] = &ref.Node{Leaf: &x.kp.Leaf}
		return t
	}),
	extraLeaf("leaf key twice", func(c *welCtx, x *RefClient) bool {
		x.kp.Leaf.EncKey = c.tree.Leaf(pick(c.w.r, c.tree.Members())).EncKey
		return true
	}),
	extraLeaf("signature key twice", func(c *welCtx, x *RefClient) bool {
		x.kp.Leaf.SigKey = c.tree.Leaf(c.li).SigKey
		x.sig.Priv = c.w.keys[string(x.kp.Leaf.SigKey)]
		return true
	}),
	extraLeaf("leaf key of a parent node", func(c *welCtx, x *RefClient) bool {
		ps := c.parents()
		if len(ps) == 0 {
			return false
		}
		x.kp.Leaf.EncKey = c.tree.EncKey(pick(c.w.r, ps))
		return true
	}),
	extraLeaf("unsupported credential", func(c *welCtx, x *RefClient) bool {
		x.kp.Leaf.Cred = ref.Credential{Type: ref.CredX509, Certs: [][]byte{{1}}}
		x.kp.Leaf.Caps[4] = c.w.claimX509(len(c.tree.Members()) + 1)
		return true
	}),
	extraLeaf("unlisted extension", func(c *welCtx, x *RefClient) bool {
		c.w.unlisted(&x.kp.Leaf)
		return true
	}),
	extraLeaf("credentials in use not supported", func(c *welCtx, x *RefClient) bool {
		x.kp.Leaf.Caps[4] = c.w.noBasic()
		return true
	}),
	extraLeaf("malformed leaf key", func(c *welCtx, x *RefClient) bool {
		x.kp.Leaf.EncKey = badKey(c.w, x.kp.Leaf.EncKey)
		return true
	}),
	parentCase("malformed parent key", func(c *welCtx, t ref.Tree, i int, p *ref.Parent) bool {
		p.EncKey = badKey(c.w, p.EncKey)
		return true
	}),
	parentCase("parent key of another node", func(c *welCtx, t ref.Tree, i int, p *ref.Parent) bool {
		if ps := c.parents(); len(ps) > 1 && c.w.r.P(50) {
			p.EncKey = t.EncKey(pick(c.w.r, ps))
		} else {
			p.EncKey = t.Leaf(pick(c.w.r, t.Members())).EncKey
		}
		return true
	}),
	parentCase("parent key changed", func(c *welCtx, t ref.Tree, i int, p *ref.Parent) bool {
		p.EncKey = c.w.cfg.Suite.GenHPKE().Pub
		return true
	}),
	parentCase("parent hash changed", func(c *welCtx, t ref.Tree, i int, p *ref.Parent) bool {
		if len(p.ParentHash) == 0 {
			p.ParentHash = make([]byte, c.w.cfg.Suite.Nh())
		} else if c.w.r.P(50) {
			p.ParentHash = nil
		} else {
			p.ParentHash = flipBit(c.w.r, p.ParentHash)
		}
		return true
	}),
	parentCase("unmerged leaf elsewhere", func(c *welCtx, t ref.Tree, i int, p *ref.Parent) bool {
		nl := t.Leaves()
		idx := []uint32{nl, nl + 1, 1 << 30, 1 << 31, ^uint32(0), 1<<31 - 1, 1<<31 + c.leaf}
		for x := uint32(0); x < nl; x++ {
			if !slices.Contains(p.Unmerged, x) {
				idx = append(idx, x)
			}
		}
		p.Unmerged = append(p.Unmerged, pick(c.w.r, idx))
		if c.w.r.P(70) {
			slices.Sort(p.Unmerged)
		}
		return true
	}),
	parentCase("unmerged leaf twice", func(c *welCtx, t ref.Tree, i int, p *ref.Parent) bool {
		if len(p.Unmerged) == 0 {
			return false
		}
		k := 1
		if c.w.r.P(10) {
			k = 2000
		}
		for ; k > 0; k-- {
			p.Unmerged = append(p.Unmerged, p.Unmerged[0])
		}
		slices.Sort(p.Unmerged)
		return true
	}),
	parentCase("unmerged leaves not sorted", func(c *welCtx, t ref.Tree, i int, p *ref.Parent) bool {
		slices.Reverse(p.Unmerged)
		return len(p.Unmerged) > 1
	}),
	parentCase("unmerged leaf forgotten", func(c *welCtx, t ref.Tree, i int, p *ref.Parent) bool {
		if len(p.Unmerged) == 0 {
			return false
		}
		k := c.w.r.IntN(len(p.Unmerged))
		p.Unmerged = slices.Delete(p.Unmerged, k, k+1)
		return true
	}),
	treeCase("parent invented", func(c *welCtx, t ref.Tree) ref.Tree {
		var idx []int
		for i := 1; i < len(t); i += 2 {
			if t[i] == nil {
				idx = append(idx, i)
			}
		}
		if len(idx) == 0 {
			return nil
		}
		p := &ref.Parent{EncKey: c.w.cfg.Suite.GenHPKE().Pub}
		if c.w.r.P(30) {
			p.ParentHash = c.w.r.Bytes(c.w.cfg.Suite.Nh())
		}
		t[pick(c.w.r, idx)] = &ref.Node{Parent: p}
		return t
	}),
	treeCase("parents exchanged", func(c *welCtx, t ref.Tree) ref.Tree {
		ps := c.parents()
		if len(ps) < 2 {
			return nil
		}
		i := c.w.r.IntN(len(ps) - 1)
		t[ps[i]], t[ps[i+1]] = t[ps[i+1]], t[ps[i]]
		return t
	}),
	treeCase("parent blanked", func(c *welCtx, t ref.Tree) ref.Tree {
		ps := c.parents()
		if len(ps) == 0 {
			return nil
		}
		t[pick(c.w.r, ps)] = nil
		return t
	}),
	treeCase("member blanked", func(c *welCtx, t ref.Tree) ref.Tree {
		x, ok := c.other()
		if !ok {
			return nil
		}
		t[2*x] = nil
		return t
	}),
	{name: "path with a duplicate key", pre: func(c *welCtx) bool {
		c.spec.Path = true
		t, _ := ref.ApplyProposals(c.base.Tree, nil)
		key := t.Leaf(pick(c.w.r, t.Members())).EncKey
		i := c.w.r.IntN(2)
		c.spec.Mut.NodeKey = func(j int) []byte {
			if i == j {
				return key
			}
			return nil
		}
		return true
	}},
	{name: "committer's leaf invalid", pre: func(c *welCtx) bool {
		c.spec.Path = true
		switch c.w.r.IntN(4) {
		case 0:
			c.spec.Mut.LeafSigner = c.w.newSig().Priv
		case 1:
			c.spec.Mut.LeafGroup = []byte("another group")
		case 2:
			x := c.li + 1
			c.spec.Mut.LeafIndex = &x
		default:
			c.spec.Mut.AfterLeaf = func(l *ref.LeafNode) { l.Cred.Identity = []byte("mallory") }
		}
		return true
	}},
	{name: "committer's parent hash invalid", pre: func(c *welCtx) bool {
		c.spec.Path = true
		k := c.w.r.IntN(3)
		c.spec.Mut.ParentHash = func(h []byte) []byte {
			switch {
			case k == 0 || len(h) == 0:
				return nil
			case k == 1:
				return h[:len(h)-1]
			default:
				return flipBit(c.w.r, h)
			}
		}
		return true
	}},
	{name: "wrong path secret", pre: func(c *welCtx) bool {
		c.spec.Path = true
		return true
	}, build: func(c *welCtx) bool {
		k := c.w.r.IntN(5)
		c.o.Secrets = func(i int, g *ref.GroupSecrets) {
			switch k {
			case 0:
				g.PathSecret = []byte{}
			case 1:
				g.PathSecret = flipBit(c.w.r, g.PathSecret)
			case 2:
				g.PathSecret = append(bytes.Clone(g.PathSecret), 0)
			case 3:
				// one step too far
				g.PathSecret = c.w.cfg.Suite.DeriveSecret(g.PathSecret, "path")
			default:
				g.PathSecret = c.w.r.Bytes(c.w.cfg.Suite.Nh())
			}
		}
		return true
	}},
	{name: "path secret without path", pre: func(c *welCtx) bool {
		c.spec.Path = false
		return true
	}, build: func(c *welCtx) bool {
		s := c.w.r.Bytes(c.w.cfg.Suite.Nh())
		c.o.Secrets = func(i int, g *ref.GroupSecrets) { g.PathSecret = s }
		return true
	}},
	{name: "path key above the client changed", pre: func(c *welCtx) bool {
		c.spec.Path = true
		key := c.w.cfg.Suite.GenHPKE().Pub
		i := c.w.r.IntN(4)
		c.spec.Mut.NodeKey = func(j int) []byte {
			if i == j {
				return key
			}
			return nil
		}
		return true
	}},
	{name: "unknown PSK", build: func(c *welCtx) bool {
		p := ref.PSKID{Type: 1, ID: []byte("psk"), Nonce: make([]byte, c.w.cfg.Suite.Nh())}
		if c.w.r.P(30) {
			p = ref.PSKID{Type: 2, Usage: uint8(1 + c.w.r.IntN(3)), GroupID: c.v.g.id, Epoch: 1, Nonce: make([]byte, c.w.cfg.Suite.Nh())}
		}
		c.o.Secrets = func(i int, g *ref.GroupSecrets) { g.PSKs = []ref.PSKID{p} }
		return true
	}},
	{name: "wrong joiner secret", build: func(c *welCtx) bool {
		k := c.w.r.IntN(3)
		c.o.Secrets = func(i int, g *ref.GroupSecrets) {
			switch k {
			case 0:
				g.Joiner = nil
			case 1:
				g.Joiner = g.Joiner[:len(g.Joiner)-1]
			default:
				g.Joiner = flipBit(c.w.r, g.Joiner)
			}
		}
		return true
	}},
	{name: "group secrets cut or extended", build: func(c *welCtx) bool {
		c.o.RawSecret = func(i int, b []byte) []byte { return cutOrExtend(c.w.r, b) }
		return true
	}},
	{name: "group info cut or extended", build: func(c *welCtx) bool {
		c.o.RawInfo = func(b []byte) []byte { return cutOrExtend(c.w.r, b) }
		return true
	}},
	{name: "group info with damaged bytes", build: func(c *welCtx) bool {
		c.o.RawInfo = func(b []byte) []byte { b, _ = c.w.mangle(b, b); return b }
		return true
	}},
	{name: "group secrets with damaged bytes", build: func(c *welCtx) bool {
		c.o.RawSecret = func(i int, b []byte) []byte { b, _ = c.w.mangle(b, b); return b }
		return true
	}},
}

// outsider picks or makes a SUT client that is in no group yet.
func (w *World) outsider(g *GroupW) *Node {
	var c []*Node
	for _, n := range w.nodes {
		if n.g == g && n.ep == nil && !n.creator {
			c = append(c, n)
		}
	}
	if len(c) > 0 && w.r.P(80) {
		return pick(w.r, c)
	}
	return w.client(g)
}

// dishonestWelcome prepares a welcome by a reference member for a SUT client.
// The group may have a made up history, which the case k takes part in.
func (w *World) dishonestWelcome(k *welCase) *welCtx {
	g := w.group()
	e := g.head
	if len(w.refLeaves(e)) == 0 {
		return nil
	}
	v := w.outsider(g)
	now := uint64(w.clock(v).Unix())
	if l := v.refKP.Leaf; now <= l.NotBefore || now >= l.NotAfter {
		return nil
	}
	if must, _ := w.joinTime(v, e); !must {
		return nil
	}
	c := &welCtx{w: w, v: v, base: e.Epoch}
	if !c.history(k) {
		return nil
	}
	c.li = pick(w.r, w.insiders(c.base.Tree))
	c.spec = ref.CommitSpec{Sender: c.li, SigPriv: w.keys[string(c.base.Tree.Leaf(c.li).SigKey)], Path: w.r.P(50), Wire: ref.WirePrivate}
	kps := []*ref.KeyPackage{v.refKP}
	for i := w.r.IntN(3); i > 0; i-- {
		kps = append(kps, w.newRefClient().kp)
	}
	if m := c.base.Tree.Members(); len(m) > 2 && w.r.P(20) {
		if x := pick(w.r, m); x != c.li {
			p := &ref.Proposal{Type: ref.PropRemove, Removed: x}
			c.spec.Props = append(c.spec.Props, ref.PropOrRef{Prop: p})
			c.spec.Resolved = append(c.spec.Resolved, ref.Resolved{Prop: p, Sender: c.li})
			c.spec.Path = true
		}
	}
	w.r.Shuffle(len(kps), func(i, j int) { kps[i], kps[j] = kps[j], kps[i] })
	for _, kp := range kps {
		p := &ref.Proposal{Type: ref.PropAdd, KP: kp}
		c.spec.Props = append(c.spec.Props, ref.PropOrRef{Prop: p})
		c.spec.Resolved = append(c.spec.Resolved, ref.Resolved{Prop: p, Sender: c.li})
	}
	c.o = ref.WelcomeOpts{PathSecret: true, Signer: c.li}
	return c
}

// commit makes the commit the welcome is for.
func (c *welCtx) commit() {
	e := c.base
	c.spec.Priv = ref.PrivateOpts{Gen: 1}
	c.res = e.Commit(c.spec)
	c.tree = c.res.Next.Tree
	for _, a := range c.res.Added {
		if bytes.Equal(a.KP.InitKey, c.v.refKP.InitKey) {
			c.leaf = a.Leaf
		}
	}
	c.o.SigPriv = c.spec.SigPriv
}

func (c *welCtx) msg() []byte {
	r := *c.res
	r.Next = c.res.Next.With(c.tree, c.ctx)
	return r.Welcome(c.o).Msg()
}

// possible reports whether f can be done. The reference model is not made for
// everything dishonest members may have done to a tree.
func (w *World) possible(f func() bool) (ok bool) {
	defer func() {
		switch p := recover().(type) {
		case nil:
		case runtime.Error:
			w.log("not possible: %v", p)
			ok = false
		default:
			panic(p)
		}
	}()
	return f()
}

// stepBadWelcome lets a dishonest member invite a client into a group that
// does not exist like that.
func (w *World) stepBadWelcome() bool {
	k := pick(w.r, welCases)
	var c *welCtx
	var raw []byte
	var err error
	if !w.possible(func() bool {
		if c = w.dishonestWelcome(&k); c == nil || k.pre != nil && !k.pre(c) {
			return false
		}
		c.commit()
		if k.build != nil && !k.build(c) {
			return false
		}
		raw = c.msg()
		_, err = ref.Join(raw, c.v.refKP, c.v.priv[0])
		return true
	}) {
		return false
	}
	if err == nil {
		// the damage has been repaired, or there is none
		return w.goodWelcome(c, raw)
	}
	tags := w.tags(c.v, "C09")
	w.fault("bad welcome: " + k.name)
	w.inFault = k.name
	v := c.v
	group, got := w.tryJoin(v, raw, tags)
	w.log("%s tries an invalid welcome (%s; reference: %v): %v", v.name, k.name, err, got)
	w.judge(v, tags, "bad welcome: "+k.name, "reject", c.leaf, c.li, len(c.tree), len(c.parents()))
	if got == nil {
		_ = group
		w.fail("accept-invalid", tags, "%s joins from an invalid welcome (%s; reference: %v)", v.name, k.name, err)
	}
	return true
}

// goodWelcome lets a client try a valid welcome and forgets the result.
func (w *World) goodWelcome(c *welCtx, raw []byte) bool {
	v := c.v
	tags := w.tags(v, "C02")
	group, err := w.tryJoin(v, raw, tags)
	w.log("%s tries a welcome into a made up group: %v", v.name, err)
	w.judge(v, tags, "join into a made up group", "accept", c.leaf, c.li, len(c.tree), len(c.parents()))
	if err != nil {
		w.fail("reject-valid", tags, "%s cannot join at leaf %d from leaf %d: %v", v.name, c.leaf, c.li, err)
	}
	e := w.newEpoch(v.g, c.res.Next.With(c.tree, c.ctx), nil, true)
	w.peek(v, group, e, c.leaf, tags, "joining")
	return true
}
