package ref

import (
	"bytes"
	"crypto/hmac"
	"crypto/rand"
	"errors"
	"fmt"
)

// Epoch is the complete, omniscient state of a group in one epoch. It is
// immutable apart from a cache.
type Epoch struct {
	CS      Suite
	Ctx     GroupContext
	Tree    Tree
	Interim []byte
	Tag     []byte // confirmation tag of this epoch

	Joiner     []byte
	PSKSecret  []byte
	Secret     []byte
	Init       []byte
	SenderData []byte
	Encryption []byte
	Membership []byte
	Confirm    []byte

	ratchets map[ratchetID][][]byte
}

type ratchetID struct {
	leaf      uint32
	handshake bool
}

// Interim transcript hash.
func interim(cs Suite, confirmed, tag []byte) []byte {
	var w W
	w.Vec(tag)
	return cs.Hash(confirmed, w.B)
}

// schedule fills in the secrets of an epoch whose Ctx and Tree are set.
func (e *Epoch) schedule(joiner, psk []byte) {
	cs := e.CS
	if psk == nil {
		psk = make([]byte, cs.Nh())
	}
	e.Joiner, e.PSKSecret = joiner, psk
	e.fromEpochSecret(cs.ExpandWithLabel(cs.Extract(joiner, psk), "epoch", e.Ctx.Bytes(), cs.Nh()))
}

func (e *Epoch) fromEpochSecret(secret []byte) {
	cs := e.CS
	e.Secret = secret
	e.Init = cs.DeriveSecret(secret, "init")
	e.SenderData = cs.DeriveSecret(secret, "sender data")
	e.Encryption = cs.DeriveSecret(secret, "encryption")
	e.Membership = cs.DeriveSecret(secret, "membership")
	e.Confirm = cs.DeriveSecret(secret, "confirm")
	e.Tag = cs.MAC(e.Confirm, e.Ctx.Confirmed)
	e.Interim = interim(cs, e.Ctx.Confirmed, e.Tag)
	e.ratchets = map[ratchetID][][]byte{}
}

func welcomeKeys(cs Suite, joiner, psk []byte) (key, nonce []byte) {
	if psk == nil {
		psk = make([]byte, cs.Nh())
	}
	s := cs.DeriveSecret(cs.Extract(joiner, psk), "welcome")
	return cs.ExpandWithLabel(s, "key", nil, cs.d().nk), cs.ExpandWithLabel(s, "nonce", nil, nonceSize)
}

// NewGroup makes the epoch 0 of a group with one member.
func NewGroup(cs Suite, groupID []byte, epoch uint64, leaf *LeafNode, exts []Extension) *Epoch {
	e := &Epoch{CS: cs, Tree: Tree{&Node{Leaf: leaf}}}
	e.Ctx = GroupContext{
		Version: Version10, CS: cs, GroupID: clone(groupID), Epoch: epoch,
		TreeHash: e.Tree.RootHash(cs), Confirmed: []byte{}, Exts: exts,
	}
	secret := make([]byte, cs.Nh())
	rand.Read(secret)
	e.fromEpochSecret(secret)
	return e
}

func (e *Epoch) leafSecret(li uint32) []byte {
	x := root(len(e.Tree))
	s := e.Encryption
	for x != int(2*li) {
		if int(2*li) < x {
			s = e.CS.ExpandWithLabel(s, "tree", []byte("left"), e.CS.Nh())
			x = left(x)
		} else {
			s = e.CS.ExpandWithLabel(s, "tree", []byte("right"), e.CS.Nh())
			x = right(x)
		}
	}
	return s
}

func (e *Epoch) messageKey(li uint32, handshake bool, gen uint32) (key, nonce []byte) {
	id := ratchetID{li, handshake}
	r := e.ratchets[id]
	if r == nil {
		label := "application"
		if handshake {
			label = "handshake"
		}
		r = [][]byte{e.CS.ExpandWithLabel(e.leafSecret(li), label, nil, e.CS.Nh())}
	}
	for uint32(len(r)) <= gen {
		g := uint32(len(r) - 1)
		r = append(r, e.CS.deriveTreeSecret(r[g], "secret", g, e.CS.Nh()))
	}
	e.ratchets[id] = r
	return e.CS.deriveTreeSecret(r[gen], "key", gen, e.CS.d().nk), e.CS.deriveTreeSecret(r[gen], "nonce", gen, nonceSize)
}

// Sign frames content: it signs it for this epoch. Commits still lack a tag.
func (e *Epoch) Sign(c Content, wire uint16, priv []byte) *Auth {
	a := &Auth{Wire: wire, Content: c}
	a.Sig = e.CS.Sign(priv, "FramedContentTBS", a.tbs(&e.Ctx))
	return a
}

// VerifySig checks the signature of framed content against a public key.
func (e *Epoch) VerifySig(a *Auth, pub []byte) bool {
	return e.CS.Verify(pub, "FramedContentTBS", a.tbs(&e.Ctx), a.Sig)
}

func (e *Epoch) membershipTag(a *Auth) []byte {
	w := W{B: a.tbs(&e.Ctx)}
	a.writeAuth(&w)
	return e.CS.MAC(e.Membership, w.B)
}

// EncodePublic wraps signed content as a PublicMessage.
func (e *Epoch) EncodePublic(a *Auth) []byte {
	return (&Public{Auth: *a, MTag: e.membershipTag(a)}).Msg()
}

// PrivateOpts tune EncodePrivate. The zero value is an honest message of
// generation 0 without padding.
type PrivateOpts struct {
	Gen   uint32
	Pad   int
	Guard [4]byte

	// Dishonest variations.
	ClaimLeaf    *uint32 // leaf index in the sender data
	ClaimGen     *uint32 // generation in the sender data
	RatchetLeaf  *uint32 // whose ratchet to encrypt with
	PadByte      byte
	MutatePlain  func([]byte) []byte
	MutateSender func([]byte) []byte
	Type         uint8 // outer content type, if not the content's own
}

// EncodePrivate wraps signed content as a PrivateMessage.
func (e *Epoch) EncodePrivate(a *Auth, o PrivateOpts) []byte {
	cs := e.CS
	li := a.Content.Sender.Index
	ratchet := li
	if o.RatchetLeaf != nil {
		ratchet = *o.RatchetLeaf
	}
	typ := a.Content.Type
	if o.Type != 0 {
		typ = o.Type
	}
	key, nonce := e.messageKey(ratchet, typ != ContentApp, o.Gen)
	nonce = clone(nonce)
	for i := range o.Guard {
		nonce[i] ^= o.Guard[i]
	}

	var pt W
	a.Content.writeBody(&pt)
	a.writeAuth(&pt)
	pad := make([]byte, o.Pad)
	for i := range pad {
		pad[i] = o.PadByte
	}
	pt.Raw(pad)
	if o.MutatePlain != nil {
		pt.B = o.MutatePlain(pt.B)
	}

	p := &Private{GroupID: a.Content.GroupID, Epoch: a.Content.Epoch, Type: typ, AAD: a.Content.AAD}
	p.Ct = cs.AEAD(key).Seal(nil, nonce, pt.B, p.contentAAD())

	var sd W
	if o.ClaimLeaf != nil {
		li = *o.ClaimLeaf
	}
	gen := o.Gen
	if o.ClaimGen != nil {
		gen = *o.ClaimGen
	}
	sd.U32(li)
	sd.U32(gen)
	sd.Raw(o.Guard[:])
	if o.MutateSender != nil {
		sd.B = o.MutateSender(sd.B)
	}
	sk, sn := e.senderDataKeys(p.Ct)
	p.EncSender = cs.AEAD(sk).Seal(nil, sn, sd.B, p.senderAAD())
	return p.Msg()
}

func (p *Private) contentAAD() []byte {
	var w W
	w.Vec(p.GroupID)
	w.U64(p.Epoch)
	w.U8(p.Type)
	w.Vec(p.AAD)
	return w.B
}

func (p *Private) senderAAD() []byte {
	var w W
	w.Vec(p.GroupID)
	w.U64(p.Epoch)
	w.U8(p.Type)
	return w.B
}

func (e *Epoch) senderDataKeys(ct []byte) (key, nonce []byte) {
	cs := e.CS
	sample := ct
	if len(sample) > cs.Nh() {
		sample = sample[:cs.Nh()]
	}
	return cs.ExpandWithLabel(e.SenderData, "key", sample, cs.d().nk), cs.ExpandWithLabel(e.SenderData, "nonce", sample, nonceSize)
}

// Opened is a verified message of an epoch.
type Opened struct {
	Auth
	Gen uint32 // private messages
	Pad int
}

// maxOpenGen bounds the ratchet in Open.
const maxOpenGen = 1 << 17

// Peek returns the sender and generation of a private message.
func (e *Epoch) Peek(raw []byte) (li, gen uint32, err error) {
	p, err := ParsePrivateMsg(raw)
	if err != nil {
		return 0, 0, err
	}
	sk, sn := e.senderDataKeys(p.Ct)
	sd, err := e.CS.AEAD(sk).Open(nil, sn, p.EncSender, p.senderAAD())
	if err != nil {
		return 0, 0, fmt.Errorf("ref: sender data: %v", err)
	}
	r := &R{B: sd}
	return r.U32(), r.U32(), nil
}

// Open strictly decodes and verifies a public or private message: framing,
// tags, padding and signature. Commits are not applied and their confirmation
// tag is not checked.
func (e *Epoch) Open(raw []byte) (*Opened, error) {
	if len(raw) >= 4 && raw[3] == WirePublic {
		p, err := ParsePublicMsg(raw)
		if err != nil {
			return nil, err
		}
		if err := e.checkAuth(&p.Auth); err != nil {
			return nil, err
		}
		if !hmac.Equal(p.MTag, e.membershipTag(&p.Auth)) {
			return nil, errors.New("ref: membership tag")
		}
		if p.Content.Type == ContentApp {
			return nil, errors.New("ref: public application message")
		}
		return &Opened{Auth: p.Auth}, nil
	}

	p, err := ParsePrivateMsg(raw)
	if err != nil {
		return nil, err
	}
	cs := e.CS
	sk, sn := e.senderDataKeys(p.Ct)
	sd, err := cs.AEAD(sk).Open(nil, sn, p.EncSender, p.senderAAD())
	if err != nil {
		return nil, fmt.Errorf("ref: sender data: %v", err)
	}
	r := &R{B: sd}
	li, gen := r.U32(), r.U32()
	guard := r.take(4)
	if err := r.Done(); err != nil {
		return nil, err
	}
	if e.Tree.Leaf(li) == nil {
		return nil, errors.New("ref: sender is not a member")
	}
	if gen > maxOpenGen {
		return nil, errors.New("ref: generation too large")
	}
	key, nonce := e.messageKey(li, p.Type != ContentApp, gen)
	nonce = clone(nonce)
	for i := range guard {
		nonce[i] ^= guard[i]
	}
	pt, err := cs.AEAD(key).Open(nil, nonce, p.Ct, p.contentAAD())
	if err != nil {
		return nil, fmt.Errorf("ref: content: %v", err)
	}
	o := &Opened{Gen: gen}
	o.Wire = WirePrivate
	o.Content = Content{GroupID: p.GroupID, Epoch: p.Epoch, Sender: Sender{SenderMember, li}, AAD: p.AAD, Type: p.Type}
	r = &R{B: pt}
	o.Content.readBody(r)
	o.readAuth(r)
	if r.Err != nil {
		return nil, r.Err
	}
	o.Pad = len(r.B)
	for _, b := range r.B {
		if b != 0 {
			return nil, errors.New("ref: non-zero padding")
		}
	}
	return o, e.checkAuth(&o.Auth)
}

func (e *Epoch) checkAuth(a *Auth) error {
	c := &a.Content
	if !bytes.Equal(c.GroupID, e.Ctx.GroupID) || c.Epoch != e.Ctx.Epoch {
		return errors.New("ref: group or epoch")
	}
	if c.Sender.Type != SenderMember {
		return errors.New("ref: sender type")
	}
	leaf := e.Tree.Leaf(c.Sender.Index)
	if leaf == nil {
		return errors.New("ref: sender is not a member")
	}
	if !e.VerifySig(a, leaf.SigKey) {
		return errors.New("ref: signature")
	}
	return nil
}
