package demo

import (
	"bytes"
	"fmt"
	"slices"
	"testing"
	"time"

	mls "github.com/emersion/go-mls"

	"demo/ref"
)

// sut is a client of the library.
type sut struct {
	name string
	kp   *mls.KeyPairPackage
	ref  *ref.KeyPackage
	g    *mls.Group
	leaf uint32
}

// world is a group whose other members follow RFC 9420.
type world struct {
	t    *testing.T
	cs   ref.Suite
	e    *ref.Epoch
	keys map[string][]byte
	suts []*sut
	gens map[string]uint32
	n    int
}

func newWorld(t *testing.T, cs ref.Suite) *world {
	w := &world{t: t, cs: cs, keys: map[string][]byte{}, gens: map[string]uint32{}}
	w.e = ref.NewGroup(cs, []byte("group"), 0, &w.refKP().Leaf, nil)
	return w
}

func (w *world) newKey() ref.KeyPair {
	k := w.cs.GenSig()
	w.keys[string(k.Pub)] = k.Priv
	return k
}

// refKP makes the key package of a reference client.
func (w *world) refKP() *ref.KeyPackage {
	w.n++
	k := w.newKey()
	now := uint64(time.Now().Unix())
	kp := &ref.KeyPackage{Version: ref.Version10, CS: w.cs, InitKey: w.cs.GenHPKE().Pub}
	kp.Leaf = ref.LeafNode{
		EncKey: w.cs.GenHPKE().Pub, SigKey: k.Pub,
		Cred:   ref.Credential{Type: ref.CredBasic, Identity: fmt.Appendf(nil, "ref%d", w.n)},
		Caps:   ref.Caps{{1}, {uint16(w.cs)}, {2}, {1, 2, 3}, {1}},
		Source: ref.SourceKeyPackage, NotBefore: now - 3600, NotAfter: now + 86400,
	}
	w.signKP(kp)
	return kp
}

func (w *world) signKP(kp *ref.KeyPackage) {
	priv := w.keys[string(kp.Leaf.SigKey)]
	kp.Leaf.SignLeaf(kp.CS, nil, 0, priv)
	kp.SignKP(priv)
}

func (w *world) sut() *sut {
	w.n++
	s := &sut{name: fmt.Sprintf("sut%d", w.n)}
	var err error
	s.kp, err = mls.GenerateKeyPairPackage(mls.CipherSuite(w.cs), mls.NewBasicCredential([]byte(s.name)))
	w.must(err)
	s.ref, err = ref.ParseKeyPackageMsg(s.kp.Public.Bytes())
	w.must(err)
	return s
}

func (w *world) must(err error) {
	w.t.Helper()
	if err != nil {
		w.t.Fatal(err)
	}
}

func (w *world) priv(li uint32) []byte { return w.keys[string(w.e.Tree.LeafKey(li))] }

func (w *world) gen(li uint32, handshake bool) uint32 {
	k := fmt.Sprint(w.e.Ctx.Epoch, li, handshake)
	w.gens[k]++
	return w.gens[k] - 1
}

// spec is the beginning of a commit of a reference member.
func (w *world) spec(li uint32, path bool) ref.CommitSpec {
	return ref.CommitSpec{Sender: li, SigPriv: w.priv(li), Path: path, Wire: ref.WirePublic}
}

func inline(s *ref.CommitSpec, p *ref.Proposal) {
	s.Props = append(s.Props, ref.PropOrRef{Prop: p})
	s.Resolved = append(s.Resolved, ref.Resolved{Prop: p, Sender: s.Sender})
}

func byRef(s *ref.CommitSpec, r []byte, p *ref.Proposal, from uint32) {
	s.Props = append(s.Props, ref.PropOrRef{Ref: r})
	s.Resolved = append(s.Resolved, ref.Resolved{Prop: p, Sender: from})
}

// deliver gives a commit to all clients of the library and moves on.
func (w *world) deliver(res *ref.CommitResult) {
	w.t.Helper()
	for _, s := range w.suts {
		if w.e.Tree.Leaf(s.leaf) == nil || res.Next.Tree.Leaf(s.leaf) == nil {
			continue
		}
		if _, err := s.g.UnmarshalAndProcessMessage(res.Msg); err != nil {
			w.t.Fatalf("%s at leaf %d rejects a valid commit of epoch %d: %v", s.name, s.leaf, w.e.Ctx.Epoch, err)
		}
	}
	w.e = res.Next
}

// add lets a reference member add clients, and the library's clients join.
func (w *world) add(li uint32, path bool, who ...any) {
	w.t.Helper()
	s := w.spec(li, path)
	for _, x := range who {
		switch x := x.(type) {
		case *ref.KeyPackage:
			inline(&s, &ref.Proposal{Type: ref.PropAdd, KP: x})
		case *sut:
			inline(&s, &ref.Proposal{Type: ref.PropAdd, KP: x.ref})
		}
	}
	res := w.e.Commit(s)
	w.deliver(res)
	raw := res.Welcome(ref.WelcomeOpts{Signer: li, SigPriv: w.priv(li), PathSecret: true}).Msg()
	for _, x := range who {
		x, ok := x.(*sut)
		if !ok {
			continue
		}
		i := slices.IndexFunc(res.Added, func(a ref.Added) bool { return bytes.Equal(a.KP.InitKey, x.ref.InitKey) })
		x.leaf = res.Added[i].Leaf
		x.join(w, raw)
		w.suts = append(w.suts, x)
	}
}

func (s *sut) join(w *world, raw []byte) {
	w.t.Helper()
	wel, err := mls.UnmarshalWelcome(raw)
	w.must(err)
	s.g, err = mls.GroupFromWelcome(wel, s.kp)
	if err != nil {
		w.t.Fatalf("%s cannot join at leaf %d: %v", s.name, s.leaf, err)
	}
}

func (w *world) content(li uint32) ref.Content {
	return ref.Content{GroupID: w.e.Ctx.GroupID, Epoch: w.e.Ctx.Epoch, Sender: ref.Sender{Type: ref.SenderMember, Index: li}}
}

// app makes an application message of a reference member.
func (w *world) app(li uint32, data []byte) []byte {
	c := w.content(li)
	c.Type, c.App = ref.ContentApp, data
	return w.e.EncodePrivate(w.e.Sign(c, ref.WirePrivate, w.priv(li)), ref.PrivateOpts{Gen: w.gen(li, false)})
}

// propose makes a public proposal message.
func (w *world) propose(li uint32, p *ref.Proposal) (raw, r []byte) {
	c := w.content(li)
	c.Type, c.Prop = ref.ContentProposal, p
	a := w.e.Sign(c, ref.WirePublic, w.priv(li))
	return w.e.EncodePublic(a), a.ProposalRef(w.cs)
}

func (w *world) updateLeaf(li uint32) *ref.LeafNode {
	l := *w.e.Tree.Leaf(li)
	l.Source, l.ParentHash = ref.SourceUpdate, nil
	l.EncKey = w.cs.GenHPKE().Pub
	l.SignLeaf(w.cs, w.e.Ctx.GroupID, li, w.priv(li))
	return &l
}

// check lets everybody talk to everybody.
func (w *world) check() {
	w.t.Helper()
	for _, li := range w.e.Tree.Members() {
		if w.priv(li) == nil {
			continue
		}
		raw := w.app(li, []byte("hello"))
		for _, s := range w.suts {
			if w.e.Tree.Leaf(s.leaf) == nil {
				continue
			}
			if got, err := s.g.UnmarshalAndProcessMessage(raw); err != nil || string(got) != "hello" {
				w.t.Fatalf("%s cannot read leaf %d in epoch %d: %v", s.name, li, w.e.Ctx.Epoch, err)
			}
		}
	}
	for _, s := range w.suts {
		if w.e.Tree.Leaf(s.leaf) == nil {
			continue
		}
		raw, err := s.g.CreateApplicationMessage([]byte("hi"))
		w.must(err)
		o, err := w.e.Open(raw)
		if err != nil || string(o.Content.App) != "hi" {
			w.t.Fatalf("%s sends invalid data in epoch %d: %v", s.name, w.e.Ctx.Epoch, err)
		}
		for _, x := range w.suts {
			if x == s || w.e.Tree.Leaf(x.leaf) == nil {
				continue
			}
			if got, err := x.g.UnmarshalAndProcessMessage(raw); err != nil || string(got) != "hi" {
				w.t.Fatalf("%s cannot read %s in epoch %d: %v", x.name, s.name, w.e.Ctx.Epoch, err)
			}
		}
	}
}

// rejects fails the test if a client accepts a message.
func (w *world) rejects(s *sut, raw []byte, what string) {
	w.t.Helper()
	if _, err := s.g.UnmarshalAndProcessMessage(raw); err == nil {
		w.t.Fatalf("%s accepts %s", s.name, what)
	}
}
