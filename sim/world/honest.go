package world

import (
	"bytes"
	"slices"

	mls "github.com/emersion/go-mls"

	"verif/sim/ref"
)

func (w *World) newMsg(m *Msg) *Msg {
	w.msgs++
	m.id = w.msgs
	return m
}

// publish remembers the bytes of a genuine message.
func (w *World) publish(raw []byte) { w.genuine[string(raw)] = true }

// edges are lengths around which encodings change.
var edges = []int{0, 1, 62, 63, 64, 65, 127, 128, 255, 256, 257, 300, 1000}

// bigEdges are rarely used because they are slow.
var bigEdges = []int{16382, 16383, 16384, 16385, 16500, 20000, 65535, 65536, 70000}

// edge draws a length that is special in some way.
func (w *World) edge() int {
	if w.r.P(6) {
		return pick(w.r, bigEdges)
	}
	return pick(w.r, edges)
}

func (w *World) payload() []byte {
	if w.big > 0 {
		return w.r.Bytes(w.big)
	}
	switch w.r.IntN(12) {
	case 0:
		return []byte{}
	case 1:
		if w.r.IntN(200) == 0 {
			return w.r.Bytes(1<<20 + w.r.IntN(1<<21))
		}
		return w.r.Bytes(1000 + w.r.IntN(4000))
	case 2, 3:
		return w.r.Bytes(w.edge())
	default:
		return w.r.Bytes(1 + w.r.IntN(60))
	}
}

func (w *World) aad() []byte {
	switch k := w.r.IntN(100); {
	case k < 30:
		return w.r.Bytes(w.r.IntN(20))
	case k < 34:
		return w.r.Bytes(w.edge())
	}
	return nil
}

// privOpts chooses generation, padding and reuse guard for a message of a
// reference member.
func (w *World) privOpts(e *EpochW, li uint32, handshake bool) ref.PrivateOpts {
	k := genKey{li, handshake}
	gen := e.gens[k]
	if w.cfg.Gap > 0 && gen < 400 && w.r.P(30) {
		gen += uint32(w.r.IntN(int(w.cfg.Gap)))
	}
	e.gens[k] = gen + 1
	o := ref.PrivateOpts{Gen: gen, Guard: [4]byte(w.r.Bytes(4))}
	if w.cfg.Pad {
		o.Pad = w.r.IntN(40)
		switch w.r.IntN(20) {
		case 0, 1:
			o.Pad = w.r.IntN(2000)
		case 2:
			o.Pad = w.edge()
		}
	}
	return o
}

func (w *World) refApp(e *EpochW, li uint32) *Msg {
	m := w.newMsg(&Msg{ep: e, kind: kindApp, sender: li, payload: w.payload()})
	c := ref.Content{
		GroupID: e.Ctx.GroupID, Epoch: e.Ctx.Epoch, Sender: ref.Sender{Type: ref.SenderMember, Index: li},
		AAD: w.aad(), Type: ref.ContentApp, App: m.payload,
	}
	m.raw = e.EncodePrivate(e.Sign(c, ref.WirePrivate, w.sigPriv(e, li)), w.privOpts(e, li, false))
	w.publish(m.raw)
	e.msgs = append(e.msgs, m)
	return m
}

// refProposal sends a proposal as a message.
func (w *World) refProposal(e *EpochW, li uint32, p *ref.Proposal) *Msg {
	m := w.newMsg(&Msg{ep: e, kind: kindProp, sender: li, prop: p, public: w.r.P(w.cfg.Public)})
	c := ref.Content{
		GroupID: e.Ctx.GroupID, Epoch: e.Ctx.Epoch, Sender: ref.Sender{Type: ref.SenderMember, Index: li},
		AAD: w.aad(), Type: ref.ContentProposal, Prop: p,
	}
	wire := uint16(ref.WirePrivate)
	if m.public {
		wire = ref.WirePublic
	}
	a := e.Sign(c, wire, w.sigPriv(e, li))
	m.ref = a.ProposalRef(e.CS)
	if m.public {
		m.raw = e.EncodePublic(a)
	} else {
		m.raw = e.EncodePrivate(a, w.privOpts(e, li, true))
	}
	w.publish(m.raw)
	e.msgs = append(e.msgs, m)
	return m
}

// updateLeaf makes an honest leaf for an update proposal.
func (w *World) updateLeaf(e *EpochW, li uint32) *ref.LeafNode {
	l := *e.Tree.Leaf(li)
	l.Source = ref.SourceUpdate
	l.ParentHash = nil
	l.EncKey = e.CS.GenHPKE().Pub
	priv := w.sigPriv(e, li)
	if w.r.P(30) {
		k := w.newSig()
		l.SigKey, priv = k.Pub, k.Priv
	}
	w.vary(&l)
	l.SignLeaf(e.CS, e.Ctx.GroupID, li, priv)
	return &l
}

// vary changes those parts of a leaf that a member may change freely.
func (w *World) vary(l *ref.LeafNode) {
	if w.r.P(15) {
		l.Cred.Identity = w.identity("ref")
	}
	if w.r.P(15) {
		l.Caps = w.randCaps()
		l.Exts = w.leafExts(&l.Caps)
	}
}

// refCommit lets a reference member commit. The result is a candidate until it
// wins.
func (w *World) refCommit(e *EpochW, spec ref.CommitSpec, nodes []*Node) *Msg {
	m := w.newMsg(&Msg{ep: e, kind: kindCommit, sender: spec.Sender, public: w.r.P(w.cfg.Public), nodes: nodes})
	spec.SigPriv = w.sigPriv(e, spec.Sender)
	spec.AAD = w.aad()
	spec.Wire = ref.WirePrivate
	if m.public {
		spec.Wire = ref.WirePublic
	} else {
		spec.Priv = w.privOpts(e, spec.Sender, true)
	}
	if spec.Path && spec.Leaf == nil {
		fresh := w.r.P(25)
		if fresh {
			k := w.newSig()
			spec.Leaf = func(l *ref.LeafNode) { l.SigKey = k.Pub; w.vary(l) }
			spec.Mut.LeafSigner = k.Priv
		} else if w.r.P(25) {
			spec.Leaf = w.vary
		}
	}
	for _, p := range spec.Props {
		if p.Ref != nil {
			m.refs = append(m.refs, string(p.Ref))
		}
	}
	m.res = e.Commit(spec)
	m.raw = m.res.Msg
	w.publish(m.raw)
	m.next = w.newEpoch(e.g, m.res.Next, e, true)
	if len(m.res.Added) > 0 {
		for _, a := range m.res.Added {
			m.kps = append(m.kps, a.KP)
		}
		o := ref.WelcomeOpts{Signer: spec.Sender, SigPriv: w.sigPriv(m.next, spec.Sender), PathSecret: true}
		o.FirstExts, o.ExtraExts = w.infoExts(), w.infoExts()
		m.welcome = m.res.Welcome(o).Msg()
	}
	return m
}

// infoExts are extensions of a group info that nobody has to understand.
func (w *World) infoExts() []ref.Extension {
	if !w.r.P(15) {
		return nil
	}
	var out []ref.Extension
	for i := w.r.IntN(3); i >= 0; i-- {
		x := ref.Extension{Type: pick(w.r, []uint16{0x0A0A, 0x1A1A, 0x2A2A, 0xFAFA, 0xF001, 4}), Data: w.r.Bytes(w.r.IntN(10))}
		if x.Type == 4 {
			// the key that external commits would be encrypted to
			x.Data = append([]byte{32}, w.r.Bytes(32)...)
		} else if w.r.P(10) {
			x.Data = w.r.Bytes(w.edge())
		}
		out = append(out, x)
	}
	return out
}

// win makes a candidate the commit that ends its epoch.
func (w *World) win(m *Msg) {
	e := m.ep
	m.next.fork = false
	e.msgs = append(e.msgs, m)
	e.g.advance(m.next, m)
	w.log("commit %v wins, epoch %d: %s", m, m.next.Ctx.Epoch, m.next.shapeString())
	for i, n := range m.nodes {
		if n != nil {
			w.placeNode(e.g, n, m.next, m.welcome, m.kps[i])
		}
	}
}

// lose discards a candidate.
func (w *World) lose(m *Msg) {
	m.ep.lost = append(m.ep.lost, m)
	m.ep.g.forks = append(m.ep.g.forks, m.next)
	w.fault("commit lost to a competitor")
	w.log("commit %v is discarded", m)
}

// join lets an invited client process its welcome.
func (w *World) join(n *Node) {
	e := n.ep
	must, never := w.joinTime(n, e)
	tags := w.tags(n, "C02")
	group, err := w.tryJoin(n, n.welcome, tags)
	w.log("%s joins at leaf %d, epoch %d: %v", n.name, n.leaf, e.Ctx.Epoch, err)
	switch {
	case never:
		tags = append(tags, "C14")
		w.judge(n, tags, "join with an expired key package", "reject")
		if err == nil {
			w.fail("accept-invalid", tags, "%s joins with a key package that is not valid at its time", n.name)
		}
	case must:
		w.judge(n, tags, "join", "accept", n.leaf)
		if err != nil {
			w.fail("reject-valid", tags, "%s cannot join: %v", n.name, err)
		}
	}
	if err != nil {
		n.gone = true // the client gives up
		return
	}
	n.group = group
	n.cons, n.pend, n.old = map[int]bool{}, map[string]bool{}, nil
	n.log, n.past, n.joinEp = nil, nil, e
	n.rebuilt = false
	if w.r.P(w.cfg.Probe) {
		w.lightProbe(n)
	}
}

// joinTime tells whether lifetimes allow (must) or forbid (never) joining.
func (w *World) joinTime(n *Node, e *EpochW) (must, never bool) {
	now := uint64(w.clock(n).Unix())
	must = true
	for _, li := range e.Tree.Members() {
		l := e.Tree.Leaf(li)
		if l.Source != ref.SourceKeyPackage {
			continue
		}
		if now <= l.NotBefore || now >= l.NotAfter {
			// the clock has a fraction: being in the same second as
			// notBefore is fine
			if now == l.NotBefore {
				continue
			}
			must = false
			if li == n.leaf && now >= l.NotAfter {
				never = true
			}
		}
	}
	return must, never
}

// tryJoin decodes a welcome and joins with the node's key package.
func (w *World) tryJoin(n *Node, raw []byte, tags []string) (*mls.Group, error) {
	b, done := w.lend(raw)
	var wel *mls.Welcome
	var err error
	shared := w.cfg.Share && w.decoded[string(raw)] != nil
	if shared {
		wel = w.decoded[string(raw)]
	} else {
		w.call(n, "UnmarshalWelcome", len(raw), tags, func() { wel, err = mls.UnmarshalWelcome(b) })
		done()
		if err != nil {
			w.record("join", n.name, raw, "undecodable")
			return nil, err
		}
		w.keepWelcome(raw, wel)
	}
	kp, done2 := w.borrowKP(n)
	var group *mls.Group
	w.call(n, "GroupFromWelcome", len(raw), tags, func() { group, err = mls.GroupFromWelcome(wel, kp) })
	done2()
	w.record("join", n.name, raw, err != nil)
	if shared {
		w.sameWelcome(n, wel, raw, tags)
	}
	if err == nil && group == nil {
		w.fail("nil-group", tags, "%s joined without a group", n.name)
	}
	return group, err
}

// keepWelcome keeps a decoded or created welcome for later, if objects are
// shared.
func (w *World) keepWelcome(raw []byte, wel *mls.Welcome) {
	if !w.cfg.Share {
		return
	}
	if w.decoded == nil {
		w.decoded = map[string]*mls.Welcome{}
	}
	w.decoded[string(raw)] = wel
}

// sameWelcome checks that using a welcome has not changed it.
func (w *World) sameWelcome(n *Node, wel *mls.Welcome, raw []byte, tags []string) {
	var out []byte
	w.call(n, "Welcome.Bytes", len(raw), tags, func() { out = w.take(wel.Bytes()) })
	w.judge(n, tags, "welcome used again", "same", bucket(len(raw)))
	if !bytes.Equal(out, raw) {
		w.fail("unstable", tags, "%s: welcome encodes differently the second time", n.name)
	}
}

// keyPackage decodes a key package. If objects are shared, the same one is used
// each time.
func (w *World) keyPackage(n *Node, raw []byte, tags []string) (kp *mls.KeyPackage, done func(), err error) {
	if kp := w.kps[string(raw)]; kp != nil {
		return kp, func() {}, nil
	}
	b, done := w.lend(raw)
	w.call(n, "UnmarshalKeyPackage", len(raw), tags, func() { kp, err = mls.UnmarshalKeyPackage(b) })
	if err == nil && w.cfg.Share {
		if w.kps == nil {
			w.kps = map[string]*mls.KeyPackage{}
		}
		w.kps[string(raw)] = kp
	}
	return kp, done, err
}

// createWelcome asks a node to invite clients. The error is the library's.
func (w *World) createWelcome(n *Node, kps [][]byte, tags []string) (welcome, commit []byte, err error) {
	var in int
	var wel *mls.Welcome
	objs := make([]mls.KeyPackage, len(kps))
	var dones []func()
	for i, raw := range kps {
		in += len(raw)
		kp, done, err := w.keyPackage(n, raw, tags)
		dones = append(dones, done)
		if err != nil {
			w.record("undecodable key package", raw)
			return nil, nil, err
		}
		objs[i] = *kp
	}
	if w.cfg.Scrib {
		for _, d := range dones {
			d()
		}
	}
	w.call(n, "CreateWelcome", in, tags, func() { wel, commit, err = n.group.CreateWelcome(objs) })
	if w.cfg.Scrib {
		for i := range objs {
			objs[i] = mls.KeyPackage{}
		}
	}
	if err == nil {
		w.call(n, "Welcome.Bytes", in, tags, func() { welcome = w.take(wel.Bytes()) })
		commit = w.take(commit)
		var refs [][]byte
		w.call(n, "Welcome.NewMembers", in, tags, func() {
			for _, r := range wel.NewMembers() {
				refs = append(refs, w.take(r))
			}
		})
		if len(refs) != len(kps) {
			w.fail("bad-welcome", tags, "%s: welcome names %d clients instead of %d", n.name, len(refs), len(kps))
		}
		w.sameWelcome(n, wel, welcome, tags)
		w.keepWelcome(welcome, wel)
	}
	if w.cfg.Share {
		for _, raw := range kps {
			var out []byte
			w.call(n, "KeyPackage.Bytes", len(raw), tags, func() { out = w.take(w.kps[string(raw)].Bytes()) })
			if !bytes.Equal(out, raw) {
				w.fail("unstable", tags, "%s: key package encodes differently after an invitation", n.name)
			}
		}
	}
	w.record("invite", n.name, err != nil, welcome, commit)
	return welcome, commit, err
}

// invite0 invites clients to a group whose secrets the reference does not know
// yet.
func (w *World) invite0(g *GroupW, n *Node, kps []*ref.KeyPackage) (welcome, commit []byte) {
	tags := w.tags(n, "C03", "C10")
	welcome, commit, err := w.createWelcome(n, msgsOf(kps), tags)
	w.judge(n, tags, "first invitation", "accept", len(kps))
	if err != nil {
		w.fail("reject-valid", tags, "%s cannot invite: %v", n.name, err)
	}
	return welcome, commit
}

func msgsOf(kps []*ref.KeyPackage) [][]byte {
	out := make([][]byte, len(kps))
	for i, kp := range kps {
		out[i] = kp.Msg()
	}
	return out
}

// inviteTime tells whether the key packages must (or must not) be acceptable
// at the node's time.
func (w *World) inviteTime(n *Node, kps []*ref.KeyPackage) (must, never bool) {
	now := uint64(w.clock(n).Unix())
	must = true
	for _, kp := range kps {
		if now < kp.Leaf.NotBefore || now >= kp.Leaf.NotAfter {
			must, never = false, true
		}
	}
	return must, never
}

// invite makes a node create an invitation and checks everything about it.
// It returns nil if the library refuses for a legitimate reason.
func (w *World) invite(n *Node, kps []*ref.KeyPackage, nodes []*Node) *Msg {
	must, never := w.inviteTime(n, kps)
	tags := w.tags(n, "C01", "C03", "C10", "C12")
	welcome, raw, err := w.createWelcome(n, msgsOf(kps), tags)
	w.log("%s invites %d clients: %v", n.name, len(kps), err)
	switch {
	case never:
		tags = append(tags, "C14")
		w.judge(n, tags, "invite outside lifetime", "reject")
		if err == nil {
			w.fail("accept-invalid", tags, "%s invites a client whose key package is not valid at its time", n.name)
		}
	case must:
		w.judge(n, tags, "invite", "accept", len(kps))
		if err != nil {
			w.fail("reject-valid", tags, "%s cannot invite: %v", n.name, err)
		}
	}
	if err != nil {
		n.failed = true
		return nil
	}
	n.created = true
	return w.checkInvite(n, welcome, raw, kps, nodes, tags)
}

func (w *World) checkInvite(n *Node, welcome, raw []byte, kps []*ref.KeyPackage, nodes []*Node, tags []string) *Msg {
	e := n.ep
	res, o, err := e.ApplyAddCommit(raw)
	if err != nil {
		w.fail("state-diverged", tags, "invitation created by %s at leaf %d of epoch %d is invalid: %v", n.name, n.leaf, e.Ctx.Epoch, err)
	}
	if res.Sender != n.leaf || len(res.Added) != len(kps) || len(o.Content.AAD) != 0 {
		w.fail("state-diverged", tags, "invitation created by %s has a wrong sender or list", n.name)
	}
	for i, a := range res.Added {
		if !bytes.Equal(a.KP.Msg(), kps[i].Msg()) {
			w.fail("state-diverged", tags, "invitation created by %s adds another key package", n.name)
		}
	}
	w.checkGen(n, true, o.Gen, "invitation")
	// every invited client must reach the same state; the reference clients
	// can check that here
	wel, err := ref.ParseWelcomeMsg(welcome)
	if err != nil {
		w.fail("bad-welcome", tags, "welcome created by %s cannot be decoded: %v", n.name, err)
	}
	if len(wel.Secrets) != len(kps) {
		w.fail("bad-welcome", tags, "welcome created by %s has %d entries for %d clients", n.name, len(wel.Secrets), len(kps))
	}
	for i, kp := range kps {
		priv := w.initKey(kp, nodes[i])
		if priv == nil {
			continue
		}
		j, err := ref.Join(welcome, kp, priv)
		if err != nil {
			w.fail("bad-welcome", tags, "welcome created by %s is invalid for client %d: %v", n.name, i, err)
		}
		if err := j.Epoch.Same(res.Next); err != nil {
			w.fail("bad-welcome", tags, "welcome created by %s leads elsewhere than its commit: %v", n.name, err)
		}
		if j.Info.Signer != n.leaf || j.PathSecret != nil {
			w.fail("bad-welcome", tags, "welcome created by %s has a wrong signer or path secret", n.name)
		}
	}
	w.publish(raw)
	m := w.newMsg(&Msg{ep: e, kind: kindCommit, sender: n.leaf, from: n, raw: raw, res: res, welcome: welcome, kps: kps, nodes: nodes})
	m.next = w.newEpoch(e.g, res.Next, e, true)
	return m
}

// initKey is the private init key of a client, if the world knows it.
func (w *World) initKey(kp *ref.KeyPackage, n *Node) []byte {
	if n != nil {
		return n.priv[0]
	}
	return w.inits[string(kp.InitKey)]
}

// checkGen checks that the node has not used this message key before.
func (w *World) checkGen(n *Node, handshake bool, gen uint32, what string) {
	k := usedKey{genKey{n.leaf, handshake}, gen}
	tags := w.tags(n, "C12")
	w.judge(n, tags, "message key of "+what, "fresh", min(len(n.ep.used), 8))
	if prev, ok := n.ep.used[k]; ok {
		w.fail("key-reuse", tags, "%s used generation %d of leaf %d in epoch %d for %s and before for %s", n.name, gen, n.leaf, n.ep.Ctx.Epoch, what, prev)
	}
	n.ep.used[k] = what
	if n.genEp != n.ep {
		n.genEp, n.gens = n.ep, map[bool]uint32{}
	}
	if n.failed && !n.crashed {
		tags := w.tags(n, "C04")
		w.judge(n, tags, "position of "+what+" after a failure", "next", min(gen, 8))
		if gen != n.gens[handshake] {
			w.fail("trace", tags, "%s, after a failure, uses generation %d for %s instead of %d", n.name, gen, what, n.gens[handshake])
		}
	}
	n.gens[handshake] = gen + 1
}

// sutApp makes a node create an application message.
func (w *World) sutApp(n *Node, payload []byte) *Msg {
	m := w.makeApp(n, payload)
	if !n.rebuilt {
		n.ep.msgs = append(n.ep.msgs, m)
	}
	return m
}

func (w *World) makeApp(n *Node, payload []byte) *Msg {
	tags := w.tags(n, "C01", "C03", "C12")
	b, done := w.lend(payload)
	var raw []byte
	var err error
	w.call(n, "CreateApplicationMessage", len(payload), tags, func() { raw, err = n.group.CreateApplicationMessage(b) })
	done()
	raw = w.take(raw)
	w.record("app", n.name, err != nil, raw)
	if err != nil {
		w.fail("reject-valid", tags, "%s cannot create an application message: %v", n.name, err)
	}
	n.created = true
	e := n.ep
	o, err := e.Open(raw)
	w.judge(n, tags, "created application message", "valid", bucket(len(payload)))
	if err != nil {
		w.fail("state-diverged", tags, "application message created by %s at leaf %d of epoch %d is invalid: %v", n.name, n.leaf, e.Ctx.Epoch, err)
	}
	if o.Content.Type != ref.ContentApp || o.Content.Sender.Index != n.leaf || !bytes.Equal(o.Content.App, payload) || len(o.Content.AAD) != 0 {
		w.fail("wrong-data", tags, "application message created by %s has wrong content", n.name)
	}
	w.checkGen(n, false, o.Gen, "application data")
	w.publish(raw)
	return w.newMsg(&Msg{ep: e, kind: kindApp, sender: n.leaf, from: n, raw: raw, payload: payload})
}

// lightProbe checks the node's epoch state through one application message.
func (w *World) lightProbe(n *Node) {
	w.sutApp(n, w.r.Bytes(3))
}

// deepProbe checks the node's whole public state through an invitation that is
// then discarded.
func (w *World) deepProbe(n *Node) {
	m := w.invite(n, []*ref.KeyPackage{w.newRefClient().kp}, []*Node{nil})
	if m != nil {
		m.ep.lost = append(m.ep.lost, m)
		m.ep.g.forks = append(m.ep.g.forks, m.next)
	}
}

type expectation int

const (
	accept expectation = iota
	reject
	either
	skip
)

// expect predicts what a node does with a genuine message.
func (w *World) expect(n *Node, m *Msg) (expectation, []string, string) {
	if m.ep != n.ep && bytes.Equal(m.ep.Ctx.Bytes(), n.ep.Ctx.Bytes()) {
		// somebody committed the same thing twice, with a deterministic
		// signature: the discarded commit leads to the same epoch
		return skip, nil, "same epoch"
	}
	if n.gone {
		if m.ep != n.ep {
			return reject, w.tags(n, "C06"), "removed"
		}
		return either, w.tags(n), "removed"
	}
	if m.ep != n.ep {
		base := []string{"C06"}
		why := "other epoch"
		switch {
		case m.ep.g != n.g:
			why = "other group"
		case m.ep.fork:
			why = "fork"
		case m.ep.Ctx.Epoch > n.ep.Ctx.Epoch:
			why = "future epoch"
		}
		if !m.public && why == "other epoch" {
			base = append(base, "C13")
		}
		return reject, w.tags(n, base...), why
	}
	if !m.public && n.cons[m.id] {
		return reject, w.tags(n, "C13"), "repeated"
	}
	if n.old[m.id] {
		return either, w.tags(n), "forgotten"
	}
	switch m.kind {
	case kindApp:
		if m.from == n {
			return either, w.tags(n), "own message"
		}
		base := []string{"C01", "C13"}
		if m.from != nil {
			base = append(base, "C12")
		}
		return accept, w.tags(n, base...), "new"
	case kindProp:
		if m.public && n.pend[string(m.ref)] {
			return either, w.tags(n, "C11"), "repeated"
		}
		return accept, w.tags(n, append([]string{"C01", "C11", "C13"}, m.tags...)...), "new"
	}
	// commit
	if m != n.ep.won {
		return skip, nil, ""
	}
	base := []string{"C01"}
	if !m.public {
		base = append(base, "C13")
	}
	if len(m.kps) > 0 {
		base = append(base, "C10")
	}
	if m.from != nil {
		base = append(base, "C03")
	}
	if len(m.refs) > 0 {
		base = append(base, "C11")
		for _, r := range m.refs {
			if !n.pend[r] {
				return reject, w.tags(n, "C11", "C08"), "missing proposals"
			}
		}
	}
	if m.next.Tree.Leaf(n.leaf) == nil || !bytes.Equal(m.next.Tree.Leaf(n.leaf).SigKey, n.refKP.Leaf.SigKey) {
		return either, w.tags(n), "own removal"
	}
	why := "new"
	if m.from == n {
		why = "own commit"
	}
	return accept, w.tags(n, append(base, m.tags...)...), why
}

// deliver gives a genuine message to a node and checks the result.
func (w *World) deliver(n *Node, m *Msg) bool {
	if n.group == nil {
		return false
	}
	exp, tags, why := w.expect(n, m)
	if exp == skip {
		return false
	}
	data, err := w.process(n, m.raw, tags)
	w.log("%s (leaf %d, epoch %d) receives %v, %s: %v", n.name, n.leaf, n.ep.Ctx.Epoch, m, why, err)
	outcome := "accept"
	if err != nil {
		outcome = "reject"
	}
	w.judge(n, tags, "deliver "+m.kind+" "+why, outcome, m.public, m.sender, len(m.refs))
	switch exp {
	case reject:
		w.fault("delivered " + why)
		if err == nil {
			w.fail("accept-invalid", tags, "%s at leaf %d of epoch %d accepts %v (%s)", n.name, n.leaf, n.ep.Ctx.Epoch, m, why)
		}
		n.failed = true
		return true
	case accept:
		if err != nil {
			w.fail("reject-valid", tags, "%s at leaf %d of epoch %d rejects %v (%s): %v", n.name, n.leaf, n.ep.Ctx.Epoch, m, why, err)
		}
	}
	if err != nil {
		if why == "own removal" {
			n.gone = true
			w.fault("member removed")
		}
		n.failed = true
		return true
	}
	w.accepted(n, m, data, tags, why)
	return true
}

// accepted updates the model after a node accepted a genuine message.
func (w *World) accepted(n *Node, m *Msg, data []byte, tags []string, why string) {
	want := m.payload
	if !bytes.Equal(data, want) {
		w.fail("wrong-data", tags, "%s gets %d bytes (%s...) from %v instead of %d (%s...)", n.name, len(data), short(data), m, len(want), short(want))
	}
	if !m.public {
		n.cons[m.id] = true
	}
	switch m.kind {
	case kindProp:
		n.pend[string(m.ref)] = true
		n.log = append(n.log, m)
	case kindCommit:
		if why == "own removal" {
			n.gone = true
			w.fault("member removed")
			return
		}
		n.log = append(n.log, m)
		for _, p := range n.ep.msgs {
			if p.kind == kindProp && n.pend[string(p.ref)] {
				n.past = append(n.past, p)
			}
		}
		n.ep = m.next
		n.cons, n.pend, n.old = map[int]bool{}, map[string]bool{}, nil
		n.rebuilt = false
		if w.r.P(w.cfg.Probe) {
			w.lightProbe(n)
		}
	}
}

// catchUp brings a node to the head of its group, fetching handshakes from the
// delivery service.
func (w *World) catchUp(n *Node, max int) {
	for n.live() && n.ep.won != nil && max > 0 {
		max--
		e := n.ep
		m := e.won
		for _, r := range m.refs {
			if n.pend[r] {
				continue
			}
			i := slices.IndexFunc(e.msgs, func(p *Msg) bool { return p.kind == kindProp && string(p.ref) == r })
			if i < 0 {
				w.bug("proposal of %v not found", m)
			}
			w.deliver(n, e.msgs[i])
		}
		w.deliver(n, m)
		if n.ep == e && !n.gone {
			w.bug("%s is stuck", n.name)
		}
	}
}

// finish is the fault-free phase at the end of every run.
func (w *World) finish() {
	for _, g := range w.groups {
		for _, n := range g.nodes {
			if n.group == nil && !n.gone {
				w.join(n)
			}
		}
	}
	for round := 0; round < 2; round++ {
		for _, g := range w.groups {
			for _, n := range g.nodes {
				if n.group != nil {
					w.catchUp(n, 1<<20)
				}
			}
			w.exchange(g)
		}
		if round == 0 {
			for _, g := range w.groups {
				w.finalCommit(g)
			}
		}
	}
	if w.cfg.Final {
		for _, n := range w.nodes {
			if n.live() {
				w.deepProbe(n)
			}
		}
	}
}

// exchange lets everybody in the newest epoch talk to everybody.
func (w *World) exchange(g *GroupW) {
	e := g.head
	var msgs []*Msg
	for _, li := range w.refLeaves(e) {
		if len(msgs) < 4 {
			msgs = append(msgs, w.refApp(e, li))
		}
	}
	for _, n := range g.nodes {
		if n.live() && n.ep == e && !n.rebuilt {
			msgs = append(msgs, w.sutApp(n, w.payload()))
		}
	}
	for _, n := range g.nodes {
		if n.live() && n.ep == e {
			for _, m := range msgs {
				w.deliver(n, m)
			}
		}
	}
}

// finalCommit ends the epoch with an honest path commit, which needs the
// private tree state of every member.
func (w *World) finalCommit(g *GroupW) {
	e := g.head
	refs := w.refLeaves(e)
	if len(refs) == 0 {
		return
	}
	w.win(w.refCommit(e, ref.CommitSpec{Sender: pick(w.r, refs), Path: true}, nil))
}
