package world

import (
	"bytes"
	"fmt"
	"slices"
	"time"

	mls "github.com/emersion/go-mls"

	"verif/sim/ref"
)

// RefClient is a client of the reference implementation that is not in a group
// yet.
type RefClient struct {
	kp   *ref.KeyPackage
	init ref.KeyPair
	enc  ref.KeyPair
	sig  ref.KeyPair
}

func (w *World) name(prefix string) string {
	w.names++
	return fmt.Sprintf("%s%d", prefix, w.names)
}

// identity makes a new identity, sometimes of a special length. Several
// clients may have the same: nothing in the protocol forbids it.
func (w *World) identity(prefix string) []byte {
	if len(w.ids) > 0 && w.r.P(15) {
		return pick(w.r, w.ids)
	}
	id := []byte(w.name(prefix))
	defer func() { w.ids = append(w.ids, id) }()
	if w.r.P(10) {
		n := w.edge()
		for len(id) < n {
			id = append(id, '.')
		}
		id = id[:n]
	}
	return id
}

func (w *World) newSig() ref.KeyPair {
	k := w.cfg.Suite.GenSig()
	w.keys[string(k.Pub)] = k.Priv
	return k
}

var grease = []uint16{0x0A0A, 0x1A1A, 0x2A2A, 0xFAFA}

// randCaps makes honest capabilities.
func (w *World) randCaps() ref.Caps {
	c := ref.Caps{{1}, {uint16(w.cfg.Suite)}, {2}, {1, 2, 3}, {1}}
	if w.r.P(30) {
		c[0] = append(c[0], pick(w.r, grease))
		c[1] = append([]uint16{pick(w.r, grease)}, c[1]...)
		c[2] = append(c[2], 1, 0x0A0A)
		c[3] = append(c[3], 4, 5, 6, 7, pick(w.r, grease))
		c[4] = append([]uint16{2}, c[4]...)
	}
	if w.r.P(10) {
		// a long list
		i := w.r.IntN(len(c))
		for n := 20 + w.r.IntN(30); n > 0; n-- {
			c[i] = append(c[i], 0xF000+uint16(w.r.IntN(0x800)))
		}
	}
	if w.r.P(4) {
		// the same twice
		i := w.r.IntN(len(c))
		c[i] = append(c[i], pick(w.r, c[i]))
	}
	if w.r.P(30) {
		for i := range c {
			w.r.Shuffle(len(c[i]), func(a, b int) { c[i][a], c[i][b] = c[i][b], c[i][a] })
		}
	}
	return c
}

// leafExts makes extensions for a leaf and lists them in its capabilities.
func (w *World) leafExts(c *ref.Caps) []ref.Extension {
	var out []ref.Extension
	types := []uint16{1, 0x0A0A, 0x1A1A, 0xF801, 0xF802}
	w.r.Shuffle(len(types), func(i, j int) { types[i], types[j] = types[j], types[i] })
	if !w.r.P(20) {
		return nil
	}
	c[2] = slices.Clone(c[2])
	for _, t := range types[:1+w.r.IntN(3)] {
		n := w.r.IntN(80)
		if w.r.P(10) {
			n = w.edge()
		}
		out = append(out, ref.Extension{Type: t, Data: w.r.Bytes(n)})
		if !slices.Contains(c[2], t) {
			c[2] = slices.Insert(c[2], w.r.IntN(len(c[2])+1), t)
		}
	}
	return out
}

// contextExts makes extensions of the group context that every client
// supports.
func (w *World) contextExts() []ref.Extension {
	var out []ref.Extension
	if w.r.P(15) {
		// required capabilities: what everybody has
		var b ref.W
		for _, l := range [][]uint16{nil, {1, 2, 3}, {1}} {
			n := w.r.IntN(len(l) + 1)
			b.Sub(func(b *ref.W) {
				for _, x := range l[:n] {
					b.U16(x)
				}
			})
		}
		out = append(out, ref.Extension{Type: ref.ExtRequiredCapabilities, Data: b.B})
	}
	if w.r.P(15) {
		// external senders: nobody at all
		out = append(out, ref.Extension{Type: 5, Data: []byte{0}})
	}
	w.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// startEpochs are numbers for the first epoch of groups that existed long
// before.
var startEpochs = []uint64{1, 62, 254, 255, 65534, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<62 + 5, 1<<63 - 2, 1 << 63}

// newRefClient makes a reference client with an honest key package.
func (w *World) newRefClient() *RefClient {
	cs := w.cfg.Suite
	c := &RefClient{init: cs.GenHPKE(), enc: cs.GenHPKE(), sig: w.newSig()}
	w.inits[string(c.init.Pub)] = c.init.Priv
	now := uint64(base.Add(w.now).Unix())
	c.kp = &ref.KeyPackage{Version: ref.Version10, CS: cs, InitKey: c.init.Pub}
	c.kp.Leaf = ref.LeafNode{
		EncKey: c.enc.Pub, SigKey: c.sig.Pub,
		Cred:      ref.Credential{Type: ref.CredBasic, Identity: w.identity("ref")},
		Caps:      w.randCaps(),
		Source:    ref.SourceKeyPackage,
		NotBefore: now - uint64(3600+w.r.IntN(86400)),
		NotAfter:  now + 20*86400 + uint64(w.r.IntN(40*86400)),
	}
	c.kp.Leaf.Exts = w.leafExts(&c.kp.Leaf.Caps)
	if w.r.P(20) {
		c.kp.Exts = []ref.Extension{{Type: 0x1A1A, Data: w.r.Bytes(w.r.IntN(5))}}
		if w.r.P(30) {
			c.kp.Exts = append(c.kp.Exts, ref.Extension{Type: 0xF003, Data: w.r.Bytes(w.edge())})
		}
	}
	w.signKP(c)
	return c
}

func (w *World) signKP(c *RefClient) {
	c.kp.Leaf.SignLeaf(c.kp.CS, nil, 0, c.sig.Priv)
	c.kp.SignKP(c.sig.Priv)
}

// newNode makes a SUT client. It is in no group yet.
func (w *World) newNode() *Node {
	n := &Node{name: w.name("sut")}
	identity := []byte(n.name)
	if w.r.P(30) {
		identity = w.identity("sut")
	} else {
		w.ids = append(w.ids, identity)
	}
	id, done := w.lend(identity)
	tags := w.tags(n, "C02", "C10", "C15")
	var err error
	w.call(n, "GenerateKeyPairPackage", len(id), tags, func() {
		n.kp, err = mls.GenerateKeyPairPackage(mls.CipherSuite(w.cfg.Suite), mls.NewBasicCredential(id))
		if err == nil {
			n.kpRaw = w.take(n.kp.Public.Bytes())
		}
	})
	done()
	if err != nil {
		w.fail("reject-valid", append(tags, "C01", "C03"), "%s cannot create a key package: %v", n.name, err)
	}
	n.priv = [3][]byte{bytes.Clone(n.kp.Private.InitKey), bytes.Clone(n.kp.Private.EncryptionKey), bytes.Clone(n.kp.Private.SignatureKey)}
	w.record("client", n.name, n.kpRaw)

	kp, err := ref.ParseKeyPackageMsg(n.kpRaw)
	if err == nil {
		err = kp.Verify(w.cfg.Suite)
	}
	w.judge(n, tags, "created key package", "valid")
	if err != nil {
		w.fail("bad-key-package", tags, "%s created an invalid key package: %v", n.name, err)
	}
	if !bytes.Equal(kp.Leaf.Cred.Identity, identity) {
		w.fail("bad-key-package", tags, "%s: wrong identity in key package", n.name)
	}
	for i, k := range [][]byte{kp.InitKey, kp.Leaf.EncKey} {
		if pub, err := w.cfg.Suite.HPKEPub(n.priv[i]); err != nil || !bytes.Equal(pub, k) {
			w.fail("bad-key-package", tags, "%s: private key %d does not match the key package", n.name, i)
		}
	}
	now := w.clock(n).Unix()
	if uint64(now) < kp.Leaf.NotBefore || uint64(now) >= kp.Leaf.NotAfter {
		w.fail("bad-key-package", append(tags, "C14"), "%s: key package is not valid at the time of its creation", n.name)
	}
	var again []byte
	w.call(n, "KeyPackage.Bytes", len(n.kpRaw), tags, func() { again = n.kp.Public.Bytes() })
	if !bytes.Equal(again, n.kpRaw) {
		w.fail("unstable", append(tags, "C18"), "%s: key package encodes differently the second time", n.name)
	}
	n.refKP = kp
	w.nodes = append(w.nodes, n)
	return n
}

// storedKP rebuilds the key pair package from storage.
func (w *World) storedKP(n *Node) *mls.KeyPairPackage {
	raw, done := w.lend(n.kpRaw)
	var pub *mls.KeyPackage
	var err error
	w.call(n, "UnmarshalKeyPackage", len(raw), w.tags(n, "C15"), func() { pub, err = mls.UnmarshalKeyPackage(raw) })
	done()
	if err != nil {
		w.fail("reject-valid", w.tags(n, "C15", "C10"), "%s cannot decode its own key package: %v", n.name, err)
	}
	return &mls.KeyPairPackage{Public: *pub, Private: mls.PrivateKeyPackage{
		InitKey: bytes.Clone(n.priv[0]), EncryptionKey: bytes.Clone(n.priv[1]), SignatureKey: bytes.Clone(n.priv[2]),
	}}
}

// borrowKP is the key pair package to be used for one call. done invalidates
// it if the run scribbles.
func (w *World) borrowKP(n *Node) (kp *mls.KeyPairPackage, done func()) {
	if !w.cfg.Scrib {
		return n.kp, func() {}
	}
	kp = w.storedKP(n)
	return kp, func() {
		scribble(kp.Private.InitKey)
		scribble(kp.Private.EncryptionKey)
		scribble(kp.Private.SignatureKey)
		kp.Public = mls.KeyPackage{}
	}
}

func (w *World) newEpoch(g *GroupW, e *ref.Epoch, prev *EpochW, fork bool) *EpochW {
	return &EpochW{Epoch: e, g: g, prev: prev, fork: fork, gens: map[genKey]uint32{}, leapt: map[genKey]bool{}, used: map[usedKey]string{}}
}

func (g *GroupW) advance(e *EpochW, won *Msg) {
	if g.head != nil {
		g.head.won = won
		g.head.next = e
	}
	g.head = e
	g.chain = append(g.chain, e)
}

func (w *World) setup() {
	w.moved = w.cfg.Later > 0
	for i := 0; i < w.cfg.NGroup; i++ {
		g := &GroupW{idx: i, id: w.r.Bytes(w.r.IntN(33))}
		if w.r.P(10) {
			g.id = w.r.Bytes(w.edge())
		}
		if i > 0 && w.cfg.SameID {
			g.id = w.groups[0].id
		}
		w.groups = append(w.groups, g)
		if w.cfg.SutNew {
			w.setupSut(g)
		} else {
			w.setupRef(g)
		}
	}
	if w.cfg.Skew {
		w.moved = true
		for _, n := range w.nodes {
			n.off = time.Duration(w.r.Int64N(int64(6*time.Hour))) - 3*time.Hour
			n.moved = true
		}
	}
}

// client returns a SUT client for a group. Runs that share key packages use
// the clients of the other group.
func (w *World) client(g *GroupW) *Node {
	if w.cfg.Share && g.idx > 0 {
		for _, o := range w.groups[0].nodes {
			if o.g != g && !w.hasClient(g, o) && !g.knows(o.refKP) && w.r.P(80) {
				return w.double(o, g)
			}
		}
	}
	n := w.newNode()
	n.g = g
	return n
}

func (w *World) hasClient(g *GroupW, o *Node) bool {
	for _, n := range w.nodes {
		if n.g == g && bytes.Equal(n.kpRaw, o.kpRaw) {
			return true
		}
	}
	return false
}

// knows tells whether a client was ever a member.
func (g *GroupW) knows(kp *ref.KeyPackage) bool {
	for _, e := range g.chain {
		for _, li := range e.Tree.Members() {
			if bytes.Equal(e.Tree.Leaf(li).SigKey, kp.Leaf.SigKey) {
				return true
			}
		}
	}
	return false
}

// setupRef lets a reference member create the group and add everybody in one
// or more commits.
func (w *World) setupRef(g *GroupW) {
	c := w.newRefClient()
	w.keys[string(c.sig.Pub)] = c.sig.Priv
	var first uint64
	if w.r.P(15) {
		first = pick(w.r, startEpochs)
	}
	g.advance(w.newEpoch(g, ref.NewGroup(w.cfg.Suite, g.id, first, &c.kp.Leaf, w.contextExts()), nil, false), nil)
	refs, suts := w.cfg.NRef-1, w.cfg.NSut
	for refs > 0 || suts > 0 {
		var kps []*ref.KeyPackage
		var nodes []*Node
		k := 1 + w.r.IntN(refs+suts)
		for i := 0; i < k; i++ {
			if w.r.IntN(refs+suts) < refs {
				kps = append(kps, w.newRefClient().kp)
				nodes = append(nodes, nil)
				refs--
			} else {
				n := w.client(g)
				kps = append(kps, n.refKP)
				nodes = append(nodes, n)
				suts--
			}
		}
		w.refAdd(g, kps, nodes, w.r.P(40))
		if w.r.P(50) {
			w.joinAll(g)
		}
	}
	w.joinAll(g)
}

// refAdd makes a reference member add clients to the group and win.
func (w *World) refAdd(g *GroupW, kps []*ref.KeyPackage, nodes []*Node, path bool) {
	e := g.head
	li := pick(w.r, w.refLeaves(e))
	var spec ref.CommitSpec
	spec.Sender = li
	spec.Path = path
	for _, kp := range kps {
		p := &ref.Proposal{Type: ref.PropAdd, KP: kp}
		spec.Props = append(spec.Props, ref.PropOrRef{Prop: p})
		spec.Resolved = append(spec.Resolved, ref.Resolved{Prop: p, Sender: li})
	}
	m := w.refCommit(e, spec, nodes)
	w.win(m)
}

// setupSut lets a SUT node create the group. The reference learns the secrets
// from the first welcome.
func (w *World) setupSut(g *GroupW) {
	n := w.client(g)
	n.creator = true
	id, done := w.lend(g.id)
	kp, done2 := w.borrowKP(n)
	var err error
	w.call(n, "CreateGroup", len(id), w.tags(n, "C01"), func() { n.group, err = mls.CreateGroup(mls.GroupID(id), kp) })
	done()
	done2()
	if err != nil || n.group == nil {
		w.fail("reject-valid", w.tags(n, "C01", "C03"), "%s cannot create a group: %v", n.name, err)
	}
	n.cons, n.pend = map[int]bool{}, map[string]bool{}
	g.nodes = append(g.nodes, n)

	// discarded invitations before the one that counts
	for i := w.r.IntN(3); i > 0; i-- {
		w.invite0(g, n, []*ref.KeyPackage{w.newRefClient().kp})
		n.created = true
	}
	var kps []*ref.KeyPackage
	var nodes []*Node
	refs := make([]*RefClient, max(1, w.cfg.NRef))
	for i := range refs {
		refs[i] = w.newRefClient()
		kps = append(kps, refs[i].kp)
		nodes = append(nodes, nil)
	}
	for i := 1; i < w.cfg.NSut; i++ {
		c := w.client(g)
		kps = append(kps, c.refKP)
		nodes = append(nodes, c)
	}
	w.r.Shuffle(len(kps), func(i, j int) {
		kps[i], kps[j] = kps[j], kps[i]
		nodes[i], nodes[j] = nodes[j], nodes[i]
	})
	welcome, raw := w.invite0(g, n, kps)
	n.created = true

	tags := w.tags(n, "C02", "C03")
	var j *ref.Joined
	for _, c := range refs {
		jj, err := ref.Join(welcome, c.kp, c.init.Priv)
		w.judge(n, tags, "first welcome", "valid", len(kps))
		if err != nil {
			w.fail("bad-welcome", tags, "welcome created by %s is invalid: %v", n.name, err)
		}
		if j != nil {
			if err := jj.Epoch.Same(j.Epoch); err != nil {
				w.fail("bad-welcome", tags, "welcome created by %s gives different states: %v", n.name, err)
			}
		}
		j = jj
	}
	if j.Epoch.Ctx.Epoch != 1 || !bytes.Equal(j.Epoch.Ctx.GroupID, g.id) || j.Info.Signer != 0 || len(j.Epoch.Tree.Members()) != len(kps)+1 {
		w.fail("bad-welcome", append(tags, "C18"), "first welcome of %s has a wrong group context", n.name)
	}
	e := w.newEpoch(g, j.Epoch, nil, false)
	g.advance(e, nil)
	for i, kp := range kps {
		if c := nodes[i]; c != nil {
			w.placeNode(g, c, e, welcome, kp)
		}
	}
	// the creator processes its own commit
	if w.r.P(50) {
		w.bounce(n)
	}
	_, err = w.process(n, raw, tags)
	w.judge(n, tags, "own first commit", "accept")
	if err != nil {
		w.fail("reject-valid", tags, "%s rejects its own first commit: %v", n.name, err)
	}
	n.ep = e
	n.leaf = 0
	w.joinAll(g)
}

// bounce gives a node something to reject.
func (w *World) bounce(n *Node) {
	if _, err := w.process(n, w.r.Bytes(20), w.tags(n, "C05")); err == nil {
		w.fail("accept-invalid", w.tags(n, "C05"), "%s accepts garbage", n.name)
	}
	w.fault("garbage message")
	n.failed = true
}

func (w *World) placeNode(g *GroupW, c *Node, e *EpochW, welcome []byte, kp *ref.KeyPackage) {
	c.g = g
	c.welcome = welcome
	c.ep = e
	c.leaf = leafOf(e, kp)
	g.nodes = append(g.nodes, c)
}

func leafOf(e *EpochW, kp *ref.KeyPackage) uint32 {
	for _, li := range e.Tree.Members() {
		if bytes.Equal(e.Tree.Leaf(li).SigKey, kp.Leaf.SigKey) {
			return li
		}
	}
	panic(&harnessError{"client is not in the tree"})
}

// joinAll lets every invited client join.
func (w *World) joinAll(g *GroupW) {
	for _, n := range g.nodes {
		if n.group == nil && !n.gone {
			w.join(n)
		}
	}
}

// refLeaves lists the leaves of an epoch held by reference members.
func (w *World) refLeaves(e *EpochW) []uint32 {
	var out []uint32
	for _, li := range e.Tree.Members() {
		if w.keys[string(e.Tree.Leaf(li).SigKey)] != nil {
			out = append(out, li)
		}
	}
	return out
}

// sutLeaves lists the other leaves.
func (w *World) sutLeaves(e *EpochW) []uint32 {
	var out []uint32
	for _, li := range e.Tree.Members() {
		if w.keys[string(e.Tree.Leaf(li).SigKey)] == nil {
			out = append(out, li)
		}
	}
	return out
}

func (w *World) sigPriv(e *EpochW, li uint32) []byte {
	k := w.keys[string(e.Tree.Leaf(li).SigKey)]
	if k == nil {
		w.bug("leaf %d is not a reference member", li)
	}
	return k
}
