package ref

import (
	"bytes"
	"crypto/rand"
	"errors"
	"fmt"
	"slices"
)

// Resolved is a proposal together with its sender.
type Resolved struct {
	Prop   *Proposal
	Sender uint32
}

// CommitSpec describes a commit to be made by a reference member.
type CommitSpec struct {
	Sender  uint32
	SigPriv []byte

	Props    []PropOrRef
	Resolved []Resolved // one for each entry of Props

	Path bool
	Wire uint16
	AAD  []byte
	Priv PrivateOpts

	// Leaf customises the new leaf of the path. A fresh encryption key is
	// already set.
	Leaf func(l *LeafNode)

	PSKSecret []byte
	CtxExts   []Extension // new group context extensions, if not nil

	Mut Mutators
}

// Mutators let a dishonest member deviate. Everything computed after the
// point of deviation is consistent with it: signatures, hashes and tags come
// out right for the altered content.
type Mutators struct {
	Tree       func(t Tree) Tree                // after the proposals have been applied
	LeafSigner []byte                           // other key to sign the path leaf with
	LeafGroup  []byte                           // other group ID in the signed leaf
	LeafIndex  *uint32                          // other leaf index in the signed leaf
	AfterLeaf  func(l *LeafNode)                // after signing the leaf
	NodeKey    func(i int) []byte               // public key for path node i, nil for the right one
	ParentHash func(h []byte) []byte            // the leaf's parent hash
	Context    func(c *GroupContext)            // context used to encrypt path secrets
	Cts        func(i int, c []HPKECt) []HPKECt // ciphertexts of path node i
	PathSecret func(i int, s []byte) []byte     // path secret i as encrypted
	Path       func(u *UpdatePath)              // before framing
	Commit     func(c *CommitBody)              // before framing
	Content    func(c *Content)                 // before signing
	SignKey    []byte
	SignCtx    *GroupContext
	Sig        func(s []byte) []byte
	Tag        func(t []byte) []byte
	MTag       func(t []byte) []byte
	IncludeNew bool // also encrypt path secrets to leaves added by this commit
}

// CommitResult is a commit with its consequences.
type CommitResult struct {
	Msg   []byte
	Auth  *Auth
	Next  *Epoch
	Added []Added
	// PathSecrets maps the nodes of the filtered direct path to their secrets.
	PathSecrets map[int][]byte
	Sender      uint32
}

type Added struct {
	Leaf uint32
	KP   *KeyPackage
}

// ApplyProposals applies a valid proposal list to the tree.
func ApplyProposals(t Tree, props []Resolved) (Tree, []Added) {
	for _, p := range props {
		if p.Prop.Type == PropUpdate {
			t = t.Update(p.Sender, p.Prop.Leaf)
		}
	}
	for _, p := range props {
		if p.Prop.Type == PropRemove && t.Leaf(p.Prop.Removed) != nil {
			t = t.Remove(p.Prop.Removed)
		}
	}
	var added []Added
	for _, p := range props {
		if p.Prop.Type == PropAdd {
			var li uint32
			t, li = t.Add(&p.Prop.KP.Leaf)
			added = append(added, Added{li, p.Prop.KP})
		}
	}
	return t, added
}

// Commit builds a commit by a reference member.
func (e *Epoch) Commit(s CommitSpec) *CommitResult {
	cs := e.CS
	m := &s.Mut
	tree, added := ApplyProposals(e.Tree, s.Resolved)
	if m.Tree != nil {
		tree = m.Tree(tree)
	}
	res := &CommitResult{Added: added, Sender: s.Sender}
	ctx := e.Ctx
	ctx.Epoch++
	if s.CtxExts != nil {
		ctx.Exts = s.CtxExts
	}
	body := &CommitBody{Props: s.Props}
	commitSecret := make([]byte, cs.Nh())

	if s.Path {
		x := int(2 * s.Sender)
		tree = tree.Clone()
		for _, p := range tree.DirectPath(x) {
			tree[p] = nil
		}
		path, copath := tree.FilteredPath(s.Sender)
		secrets := make([][]byte, len(path)+1)
		secrets[0] = make([]byte, cs.Nh())
		rand.Read(secrets[0])
		for i := 1; i < len(secrets); i++ {
			secrets[i] = cs.DeriveSecret(secrets[i-1], "path")
		}
		commitSecret = secrets[len(path)]
		res.PathSecrets = map[int][]byte{}
		keys := make([][]byte, len(path))
		for i, p := range path {
			keys[i] = cs.DeriveHPKE(cs.DeriveSecret(secrets[i], "node")).Pub
			if m.NodeKey != nil {
				if k := m.NodeKey(i); k != nil {
					keys[i] = k
				}
			}
			res.PathSecrets[p] = secrets[i]
		}
		// parent hashes from the root down
		var ph []byte
		for i := len(path) - 1; i >= 0; i-- {
			n := &Parent{EncKey: keys[i], ParentHash: ph}
			tree[path[i]] = &Node{Parent: n}
			ph = n.hashParent(cs, tree.hash(cs, copath[i], nil))
		}
		if m.ParentHash != nil {
			ph = m.ParentHash(ph)
		}
		var leaf LeafNode
		if old := tree.Leaf(s.Sender); old != nil {
			leaf = *old
		}
		leaf.Source = SourceCommit
		leaf.EncKey = cs.GenHPKE().Pub
		leaf.ParentHash = ph
		if s.Leaf != nil {
			s.Leaf(&leaf)
		}
		lg, li, lk := e.Ctx.GroupID, s.Sender, s.SigPriv
		if m.LeafGroup != nil {
			lg = m.LeafGroup
		}
		if m.LeafIndex != nil {
			li = *m.LeafIndex
		}
		if m.LeafSigner != nil {
			lk = m.LeafSigner
		}
		leaf.SignLeaf(cs, lg, li, lk)
		if m.AfterLeaf != nil {
			m.AfterLeaf(&leaf)
		}
		tree[x] = &Node{Leaf: &leaf}

		up := &UpdatePath{Leaf: leaf}
		pctx := ctx
		pctx.TreeHash = tree.RootHash(cs)
		if m.Context != nil {
			m.Context(&pctx)
		}
		rawCtx := pctx.Bytes()
		for i := range path {
			n := PathNode{EncKey: keys[i]}
			secret := secrets[i]
			if m.PathSecret != nil {
				secret = m.PathSecret(i, secret)
			}
			for _, y := range tree.Resolution(copath[i]) {
				if y%2 == 0 && !m.IncludeNew && slices.ContainsFunc(added, func(a Added) bool { return int(2*a.Leaf) == y }) {
					continue
				}
				ct, err := cs.EncryptWithLabel(tree.encKey(y), "UpdatePathNode", rawCtx, secret)
				if err != nil {
					// an unusable key got into the tree; only dishonest commits do this
					ct = HPKECt{Kem: []byte{1}, Ct: []byte{2}}
				}
				n.Cts = append(n.Cts, ct)
			}
			if m.Cts != nil {
				n.Cts = m.Cts(i, n.Cts)
			}
			up.Nodes = append(up.Nodes, n)
		}
		if m.Path != nil {
			m.Path(up)
		}
		body.Path = up
	}
	if m.Commit != nil {
		m.Commit(body)
	}

	ctx.TreeHash = tree.RootHash(cs)
	wire := s.Wire
	if wire == 0 {
		wire = WirePrivate
	}
	c := Content{
		GroupID: e.Ctx.GroupID, Epoch: e.Ctx.Epoch, Sender: Sender{SenderMember, s.Sender},
		AAD: s.AAD, Type: ContentCommit, Commit: body,
	}
	if m.Content != nil {
		m.Content(&c)
	}
	key := s.SigPriv
	if m.SignKey != nil {
		key = m.SignKey
	}
	signer := *e
	if m.SignCtx != nil {
		signer.Ctx = *m.SignCtx
	}
	a := signer.Sign(c, wire, key)
	if m.Sig != nil {
		a.Sig = m.Sig(a.Sig)
	}
	next := e.follow(ctx, tree, a, commitSecret, s.PSKSecret)
	a.Tag = next.Tag
	if m.Tag != nil {
		a.Tag = m.Tag(clone(a.Tag))
	}
	if wire == WirePublic {
		p := &Public{Auth: *a, MTag: e.membershipTag(a)}
		if m.MTag != nil {
			p.MTag = m.MTag(clone(p.MTag))
		}
		res.Msg = p.Msg()
	} else {
		res.Msg = e.EncodePrivate(a, s.Priv)
	}
	res.Auth = a
	res.Next = next
	return res
}

func (t Tree) encKey(x int) []byte {
	if x >= len(t) || t[x] == nil {
		// a dishonest member lists a blank or missing leaf as unmerged
		return nil
	}
	if t[x].Leaf != nil {
		return t[x].Leaf.EncKey
	}
	return t[x].Parent.EncKey
}

// EncKey returns the public key of a non-blank node.
func (t Tree) EncKey(x int) []byte { return t.encKey(x) }

// follow computes the next epoch. ctx has its epoch, tree hash and extensions
// set.
func (e *Epoch) follow(ctx GroupContext, tree Tree, a *Auth, commitSecret, psk []byte) *Epoch {
	cs := e.CS
	var w W
	w.U16(a.Wire)
	a.Content.write(&w)
	w.Vec(a.Sig)
	ctx.Confirmed = cs.Hash(e.Interim, w.B)
	joiner := cs.ExpandWithLabel(cs.Extract(e.Init, commitSecret), "joiner", ctx.Bytes(), cs.Nh())
	next := &Epoch{CS: cs, Ctx: ctx, Tree: tree}
	next.schedule(joiner, psk)
	return next
}

// WelcomeOpts tune the welcome made for a commit.
type WelcomeOpts struct {
	Signer     uint32
	SigPriv    []byte
	NoTree     bool
	ExtraExts  []Extension // after the ratchet tree
	FirstExts  []Extension // before it
	PathSecret bool        // include path secrets (mandatory for honest path commits)

	// Dishonest variations.
	Tree      []byte // raw ratchet tree extension
	Info      func(g *GroupInfo)
	AfterSign func(g *GroupInfo)
	RawInfo   func(b []byte) []byte
	Secrets   func(i int, g *GroupSecrets)
	RawSecret func(i int, b []byte) []byte
	Welcome   func(w *Welcome)
}

// Welcome builds the welcome for the members added by a commit.
func (c *CommitResult) Welcome(o WelcomeOpts) *Welcome {
	return c.Next.WelcomeFor(c.Added, o, func(a Added) []byte {
		if !o.PathSecret || c.PathSecrets == nil {
			return nil
		}
		// the lowest node of the filtered path above both leaves
		return c.PathSecrets[commonAncestor(a.Leaf, c.Sender)]
	})
}

// WelcomeFor builds a welcome to this epoch for the given members.
func (e *Epoch) WelcomeFor(added []Added, o WelcomeOpts, pathSecret func(a Added) []byte) *Welcome {
	cs := e.CS
	g := &GroupInfo{Ctx: e.Ctx, Tag: clone(e.Tag), Signer: o.Signer}
	g.Exts = append(g.Exts, o.FirstExts...)
	if !o.NoTree {
		raw := o.Tree
		if raw == nil {
			raw = e.Tree.Encode()
		}
		g.Exts = append(g.Exts, Extension{ExtRatchetTree, raw})
	}
	g.Exts = append(g.Exts, o.ExtraExts...)
	if o.Info != nil {
		o.Info(g)
	}
	g.Sig = cs.Sign(o.SigPriv, "GroupInfoTBS", g.tbs())
	if o.AfterSign != nil {
		o.AfterSign(g)
	}
	raw := g.Bytes()
	if o.RawInfo != nil {
		raw = o.RawInfo(raw)
	}
	key, nonce := welcomeKeys(cs, e.Joiner, e.PSKSecret)
	w := &Welcome{CS: cs, EncInfo: cs.AEAD(key).Seal(nil, nonce, raw, nil)}
	for i, a := range added {
		gs := &GroupSecrets{Joiner: e.Joiner}
		if pathSecret != nil {
			gs.PathSecret = pathSecret(a)
		}
		if o.Secrets != nil {
			o.Secrets(i, gs)
		}
		b := gs.Bytes()
		if o.RawSecret != nil {
			b = o.RawSecret(i, b)
		}
		ct, err := cs.EncryptWithLabel(a.KP.InitKey, "Welcome", w.EncInfo, b)
		if err != nil {
			panic(err)
		}
		w.Secrets = append(w.Secrets, WelcomeSecret{a.KP.Ref(), ct})
	}
	if o.Welcome != nil {
		o.Welcome(w)
	}
	return w
}

// Joined is what a client learns from a welcome.
type Joined struct {
	Epoch      *Epoch
	Info       *GroupInfo
	PathSecret []byte
	Leaf       uint32
}

// Join strictly processes a welcome on behalf of a client. Times are not
// checked.
func Join(raw []byte, kp *KeyPackage, initPriv []byte) (*Joined, error) {
	w, err := ParseWelcomeMsg(raw)
	if err != nil {
		return nil, err
	}
	cs := kp.CS
	if w.CS != cs {
		return nil, errors.New("ref: welcome suite")
	}
	var sec *WelcomeSecret
	for i := range w.Secrets {
		if bytes.Equal(w.Secrets[i].Ref, kp.Ref()) {
			sec = &w.Secrets[i]
			break
		}
	}
	if sec == nil {
		return nil, errors.New("ref: no secrets for this key package")
	}
	pt, err := cs.DecryptWithLabel(initPriv, "Welcome", w.EncInfo, sec.Ct)
	if err != nil {
		return nil, fmt.Errorf("ref: group secrets: %v", err)
	}
	gs, err := parseGroupSecrets(pt)
	if err != nil {
		return nil, err
	}
	if len(gs.PSKs) != 0 {
		return nil, errors.New("ref: PSKs in welcome")
	}
	key, nonce := welcomeKeys(cs, gs.Joiner, nil)
	info, err := cs.AEAD(key).Open(nil, nonce, w.EncInfo, nil)
	if err != nil {
		return nil, fmt.Errorf("ref: group info: %v", err)
	}
	g := new(GroupInfo)
	r := &R{B: info}
	g.read(r)
	if err := r.Done(); err != nil {
		return nil, err
	}
	if g.Ctx.Version != Version10 || g.Ctx.CS != cs {
		return nil, errors.New("ref: group context version or suite")
	}
	var rawTree []byte
	for _, x := range g.Exts {
		if x.Type == ExtRatchetTree {
			rawTree = x.Data
		}
	}
	if rawTree == nil {
		return nil, errors.New("ref: no ratchet tree")
	}
	tree, err := ParseTree(rawTree)
	if err != nil {
		return nil, err
	}
	signer := tree.Leaf(g.Signer)
	if signer == nil || !cs.Verify(signer.SigKey, "GroupInfoTBS", g.tbs(), g.Sig) {
		return nil, errors.New("ref: group info signature")
	}
	if err := tree.Validate(&g.Ctx); err != nil {
		return nil, err
	}
	e := &Epoch{CS: cs, Ctx: g.Ctx, Tree: tree}
	e.schedule(gs.Joiner, nil)
	if !bytes.Equal(e.Tag, g.Tag) {
		return nil, errors.New("ref: confirmation tag")
	}
	j := &Joined{Epoch: e, Info: g, PathSecret: gs.PathSecret}
	found := false
	for _, li := range tree.Members() {
		if bytes.Equal(tree.Leaf(li).Bytes(), kp.Leaf.Bytes()) {
			j.Leaf, found = li, true
		}
	}
	if !found {
		return nil, errors.New("ref: own leaf is not in the tree")
	}
	if gs.PathSecret != nil {
		x := tree.CommonAncestor(j.Leaf, g.Signer)
		s := gs.PathSecret
		if x < 0 || tree[x] == nil {
			return nil, errors.New("ref: path secret without a node")
		}
		if len(s) != cs.Nh() {
			return nil, errors.New("ref: path secret length")
		}
		for {
			if tree[x] != nil {
				if !bytes.Equal(cs.DeriveHPKE(cs.DeriveSecret(s, "node")).Pub, tree[x].Parent.EncKey) {
					return nil, fmt.Errorf("ref: path secret does not match node %d", x)
				}
				s = cs.DeriveSecret(s, "path")
			}
			p, ok := tree.parentOf(x)
			if !ok {
				break
			}
			x = p
		}
	}
	return j, nil
}

// ApplyAddCommit strictly processes a commit that only adds members inline and
// has no path, which is the only kind the library under test can create.
func (e *Epoch) ApplyAddCommit(raw []byte) (*CommitResult, *Opened, error) {
	o, err := e.Open(raw)
	if err != nil {
		return nil, nil, err
	}
	if o.Content.Type != ContentCommit {
		return nil, nil, errors.New("ref: not a commit")
	}
	c := o.Content.Commit
	if c.Path != nil {
		return nil, nil, errors.New("ref: unexpected update path")
	}
	if len(c.Props) == 0 {
		return nil, nil, errors.New("ref: empty commit without path")
	}
	var props []Resolved
	sigs, encs := e.Tree.keys()
	for _, p := range c.Props {
		if p.Prop == nil || p.Prop.Type != PropAdd {
			return nil, nil, errors.New("ref: unexpected proposal")
		}
		kp := p.Prop.KP
		if err := kp.Verify(e.CS); err != nil {
			return nil, nil, err
		}
		if sigs[string(kp.Leaf.SigKey)] || encs[string(kp.Leaf.EncKey)] {
			return nil, nil, errors.New("ref: added keys are already in the group")
		}
		sigs[string(kp.Leaf.SigKey)] = true
		encs[string(kp.Leaf.EncKey)] = true
		props = append(props, Resolved{p.Prop, o.Content.Sender.Index})
	}
	tree, added := ApplyProposals(e.Tree, props)
	ctx := e.Ctx
	ctx.Epoch++
	ctx.TreeHash = tree.RootHash(e.CS)
	next := e.follow(ctx, tree, &o.Auth, make([]byte, e.CS.Nh()), nil)
	if !bytes.Equal(next.Tag, o.Tag) {
		return nil, nil, errors.New("ref: confirmation tag")
	}
	return &CommitResult{Msg: raw, Auth: &o.Auth, Next: next, Added: added, Sender: o.Content.Sender.Index}, o, nil
}

func (t Tree) keys() (sig, enc map[string]bool) {
	sig, enc = map[string]bool{}, map[string]bool{}
	for _, n := range t {
		if n == nil {
			continue
		}
		if n.Leaf != nil {
			sig[string(n.Leaf.SigKey)] = true
			enc[string(n.Leaf.EncKey)] = true
		} else {
			enc[string(n.Parent.EncKey)] = true
		}
	}
	return
}

// Same reports whether two epochs are the same state.
func (e *Epoch) Same(o *Epoch) error {
	switch {
	case !bytes.Equal(e.Ctx.Bytes(), o.Ctx.Bytes()):
		return errors.New("ref: group contexts differ")
	case !bytes.Equal(e.Secret, o.Secret):
		return errors.New("ref: epoch secrets differ")
	case !bytes.Equal(e.Tag, o.Tag):
		return errors.New("ref: confirmation tags differ")
	case !bytes.Equal(e.Tree.Encode(), o.Tree.Encode()):
		return errors.New("ref: trees differ")
	}
	return nil
}

// With returns a copy of the epoch with another tree or context, consistently
// recomputed from the same joiner secret: tree hash, secrets and tag fit.
// Changes made to the context by mod, the tree hash included, are kept.
func (e *Epoch) With(tree Tree, mod func(c *GroupContext)) *Epoch {
	n := &Epoch{CS: e.CS, Ctx: e.Ctx, Tree: tree}
	n.Ctx.TreeHash = tree.RootHash(e.CS)
	if mod != nil {
		mod(&n.Ctx)
	}
	n.schedule(e.Joiner, e.PSKSecret)
	return n
}
