package ref

import (
	"errors"
	"fmt"
)

// Protocol constants.
const (
	Version10 = 1

	WirePublic     = 1
	WirePrivate    = 2
	WireWelcome    = 3
	WireGroupInfo  = 4
	WireKeyPackage = 5

	ContentApp      = 1
	ContentProposal = 2
	ContentCommit   = 3

	SenderMember      = 1
	SenderExternal    = 2
	SenderNewProposal = 3
	SenderNewCommit   = 4

	SourceKeyPackage = 1
	SourceUpdate     = 2
	SourceCommit     = 3

	PropAdd          = 1
	PropUpdate       = 2
	PropRemove       = 3
	PropPSK          = 4
	PropReinit       = 5
	PropExternalInit = 6
	PropGCE          = 7

	ExtApplicationID        = 1
	ExtRatchetTree          = 2
	ExtRequiredCapabilities = 3

	CredBasic = 1
	CredX509  = 2
)

type Extension struct {
	Type uint16
	Data []byte
}

func writeExts(w *W, exts []Extension) {
	w.Sub(func(w *W) {
		for _, e := range exts {
			w.U16(e.Type)
			w.Vec(e.Data)
		}
	})
}

func readExts(r *R) []Extension {
	var out []Extension
	r.Sub(func(r *R) {
		out = append(out, Extension{r.U16(), r.Vec()})
	})
	return out
}

type Credential struct {
	Type     uint16
	Identity []byte
	Certs    [][]byte
}

func (c *Credential) write(w *W) {
	w.U16(c.Type)
	if c.Type == CredX509 {
		w.Sub(func(w *W) {
			for _, x := range c.Certs {
				w.Vec(x)
			}
		})
		return
	}
	w.Vec(c.Identity)
}

func (c *Credential) read(r *R) {
	c.Type = r.U16()
	switch c.Type {
	case CredBasic:
		c.Identity = r.Vec()
	case CredX509:
		r.Sub(func(r *R) { c.Certs = append(c.Certs, r.Vec()) })
	default:
		r.fail(fmt.Errorf("ref: credential type %d", c.Type))
	}
}

// Caps holds capabilities: versions, suites, extensions, proposals, credentials.
type Caps [5][]uint16

type LeafNode struct {
	EncKey, SigKey []byte
	Cred           Credential
	Caps           Caps
	Source         uint8
	NotBefore      uint64
	NotAfter       uint64
	ParentHash     []byte
	Exts           []Extension
	Sig            []byte
}

func (l *LeafNode) Clone() *LeafNode {
	c := *l
	return &c
}

func (l *LeafNode) writeBase(w *W) {
	w.Vec(l.EncKey)
	w.Vec(l.SigKey)
	l.Cred.write(w)
	for _, v := range l.Caps {
		w.Sub(func(w *W) {
			for _, x := range v {
				w.U16(x)
			}
		})
	}
	w.U8(l.Source)
	switch l.Source {
	case SourceKeyPackage:
		w.U64(l.NotBefore)
		w.U64(l.NotAfter)
	case SourceCommit:
		w.Vec(l.ParentHash)
	}
	writeExts(w, l.Exts)
}

func (l *LeafNode) write(w *W) {
	l.writeBase(w)
	w.Vec(l.Sig)
}

func (l *LeafNode) Bytes() []byte {
	var w W
	l.write(&w)
	return w.B
}

func (l *LeafNode) read(r *R) {
	l.EncKey = r.Vec()
	l.SigKey = r.Vec()
	l.Cred.read(r)
	for i := range l.Caps {
		r.Sub(func(r *R) { l.Caps[i] = append(l.Caps[i], r.U16()) })
	}
	l.Source = r.U8()
	switch l.Source {
	case SourceKeyPackage:
		l.NotBefore = r.U64()
		l.NotAfter = r.U64()
	case SourceUpdate:
	case SourceCommit:
		l.ParentHash = r.Vec()
	default:
		r.fail(fmt.Errorf("ref: leaf source %d", l.Source))
	}
	l.Exts = readExts(r)
	l.Sig = r.Vec()
}

func (l *LeafNode) tbs(groupID []byte, li uint32) []byte {
	var w W
	l.writeBase(&w)
	if l.Source == SourceUpdate || l.Source == SourceCommit {
		w.Vec(groupID)
		w.U32(li)
	}
	return w.B
}

func (l *LeafNode) SignLeaf(cs Suite, groupID []byte, li uint32, priv []byte) {
	l.Sig = cs.Sign(priv, "LeafNodeTBS", l.tbs(groupID, li))
}

func (l *LeafNode) VerifyLeafSig(cs Suite, groupID []byte, li uint32) bool {
	return cs.Verify(l.SigKey, "LeafNodeTBS", l.tbs(groupID, li), l.Sig)
}

type KeyPackage struct {
	Version uint16
	CS      Suite
	InitKey []byte
	Leaf    LeafNode
	Exts    []Extension
	Sig     []byte
}

func (k *KeyPackage) writeTBS(w *W) {
	w.U16(k.Version)
	w.U16(uint16(k.CS))
	w.Vec(k.InitKey)
	k.Leaf.write(w)
	writeExts(w, k.Exts)
}

func (k *KeyPackage) write(w *W) {
	k.writeTBS(w)
	w.Vec(k.Sig)
}

func (k *KeyPackage) read(r *R) {
	k.Version = r.U16()
	k.CS = Suite(r.U16())
	k.InitKey = r.Vec()
	k.Leaf.read(r)
	k.Exts = readExts(r)
	k.Sig = r.Vec()
}

func (k *KeyPackage) SignKP(priv []byte) {
	var w W
	k.writeTBS(&w)
	k.Sig = k.CS.Sign(priv, "KeyPackageTBS", w.B)
}

func (k *KeyPackage) Clone() *KeyPackage {
	c := *k
	return &c
}

func (k *KeyPackage) Ref() []byte {
	var w W
	k.write(&w)
	return k.CS.RefHash("MLS 1.0 KeyPackage Reference", w.B)
}

// Msg encodes the key package as an MLSMessage.
func (k *KeyPackage) Msg() []byte {
	var w W
	w.U16(Version10)
	w.U16(WireKeyPackage)
	k.write(&w)
	return w.B
}

// ParseKeyPackageMsg strictly decodes an MLSMessage holding a key package.
func ParseKeyPackageMsg(raw []byte) (*KeyPackage, error) {
	r := &R{B: raw}
	if r.U16() != Version10 || r.U16() != WireKeyPackage {
		return nil, errors.New("ref: not a key package message")
	}
	k := new(KeyPackage)
	k.read(r)
	return k, r.Done()
}

// Verify validates a key package as RFC 9420 section 10.1 asks of the members
// of a group, time excepted.
func (k *KeyPackage) Verify(cs Suite) error {
	if k.Version != Version10 || k.CS != cs {
		return errors.New("ref: key package version or suite")
	}
	if k.Leaf.Source != SourceKeyPackage {
		return errors.New("ref: key package leaf source")
	}
	if string(k.InitKey) == string(k.Leaf.EncKey) {
		return errors.New("ref: init key equals leaf key")
	}
	if !k.Leaf.VerifyLeafSig(cs, nil, 0) {
		return errors.New("ref: leaf signature")
	}
	var w W
	k.writeTBS(&w)
	if !cs.Verify(k.Leaf.SigKey, "KeyPackageTBS", w.B, k.Sig) {
		return errors.New("ref: key package signature")
	}
	return nil
}

type PSKID struct {
	Type    uint8 // 1 external, 2 resumption
	ID      []byte
	Usage   uint8
	GroupID []byte
	Epoch   uint64
	Nonce   []byte
}

func (p *PSKID) write(w *W) {
	w.U8(p.Type)
	if p.Type == 1 {
		w.Vec(p.ID)
	} else {
		w.U8(p.Usage)
		w.Vec(p.GroupID)
		w.U64(p.Epoch)
	}
	w.Vec(p.Nonce)
}

func (p *PSKID) read(r *R) {
	p.Type = r.U8()
	switch p.Type {
	case 1:
		p.ID = r.Vec()
	case 2:
		p.Usage = r.U8()
		p.GroupID = r.Vec()
		p.Epoch = r.U64()
	default:
		r.fail(errors.New("ref: psk type"))
	}
	p.Nonce = r.Vec()
}

type Proposal struct {
	Type    uint16
	KP      *KeyPackage // add
	Leaf    *LeafNode   // update
	Removed uint32      // remove
	PSK     *PSKID      // psk
	Raw     []byte      // body for the other types
}

func (p *Proposal) write(w *W) {
	w.U16(p.Type)
	switch p.Type {
	case PropAdd:
		p.KP.write(w)
	case PropUpdate:
		p.Leaf.write(w)
	case PropRemove:
		w.U32(p.Removed)
	case PropPSK:
		p.PSK.write(w)
	default:
		w.Raw(p.Raw)
	}
}

func (p *Proposal) read(r *R) {
	p.Type = r.U16()
	switch p.Type {
	case PropAdd:
		p.KP = new(KeyPackage)
		p.KP.read(r)
	case PropUpdate:
		p.Leaf = new(LeafNode)
		p.Leaf.read(r)
	case PropRemove:
		p.Removed = r.U32()
	case PropPSK:
		p.PSK = new(PSKID)
		p.PSK.read(r)
	default:
		r.fail(fmt.Errorf("ref: proposal type %d", p.Type))
	}
}

// ReinitBody builds the body of a reinit proposal.
func ReinitBody(groupID []byte, cs Suite) []byte {
	var w W
	w.Vec(groupID)
	w.U16(Version10)
	w.U16(uint16(cs))
	writeExts(&w, nil)
	return w.B
}

// ExternalInitBody builds the body of an external init proposal.
func ExternalInitBody(kem []byte) []byte {
	var w W
	w.Vec(kem)
	return w.B
}

// GCEBody builds the body of a group context extensions proposal.
func GCEBody(exts []Extension) []byte {
	var w W
	writeExts(&w, exts)
	return w.B
}

type PropOrRef struct {
	Prop *Proposal
	Ref  []byte
}

type PathNode struct {
	EncKey []byte
	Cts    []HPKECt
}

type UpdatePath struct {
	Leaf  LeafNode
	Nodes []PathNode
}

func (u *UpdatePath) write(w *W) {
	u.Leaf.write(w)
	w.Sub(func(w *W) {
		for _, n := range u.Nodes {
			w.Vec(n.EncKey)
			w.Sub(func(w *W) {
				for _, c := range n.Cts {
					w.Vec(c.Kem)
					w.Vec(c.Ct)
				}
			})
		}
	})
}

func (u *UpdatePath) read(r *R) {
	u.Leaf.read(r)
	r.Sub(func(r *R) {
		n := PathNode{EncKey: r.Vec()}
		r.Sub(func(r *R) { n.Cts = append(n.Cts, HPKECt{r.Vec(), r.Vec()}) })
		u.Nodes = append(u.Nodes, n)
	})
}

type CommitBody struct {
	Props []PropOrRef
	Path  *UpdatePath
}

func (c *CommitBody) write(w *W) {
	w.Sub(func(w *W) {
		for _, p := range c.Props {
			if p.Prop != nil {
				w.U8(1)
				p.Prop.write(w)
			} else {
				w.U8(2)
				w.Vec(p.Ref)
			}
		}
	})
	w.Bool(c.Path != nil)
	if c.Path != nil {
		c.Path.write(w)
	}
}

func (c *CommitBody) read(r *R) {
	r.Sub(func(r *R) {
		switch t := r.U8(); t {
		case 1:
			p := new(Proposal)
			p.read(r)
			c.Props = append(c.Props, PropOrRef{Prop: p})
		case 2:
			c.Props = append(c.Props, PropOrRef{Ref: r.Vec()})
		default:
			r.fail(fmt.Errorf("ref: proposal or ref type %d", t))
		}
	})
	if r.Bool() {
		c.Path = new(UpdatePath)
		c.Path.read(r)
	}
}

type GroupContext struct {
	Version   uint16
	CS        Suite
	GroupID   []byte
	Epoch     uint64
	TreeHash  []byte
	Confirmed []byte
	Exts      []Extension
}

func (g *GroupContext) write(w *W) {
	w.U16(g.Version)
	w.U16(uint16(g.CS))
	w.Vec(g.GroupID)
	w.U64(g.Epoch)
	w.Vec(g.TreeHash)
	w.Vec(g.Confirmed)
	writeExts(w, g.Exts)
}

func (g *GroupContext) Bytes() []byte {
	var w W
	g.write(&w)
	return w.B
}

func (g *GroupContext) read(r *R) {
	g.Version = r.U16()
	g.CS = Suite(r.U16())
	g.GroupID = r.Vec()
	g.Epoch = r.U64()
	g.TreeHash = r.Vec()
	g.Confirmed = r.Vec()
	g.Exts = readExts(r)
}

type Sender struct {
	Type  uint8
	Index uint32
}

// Content is a FramedContent.
type Content struct {
	GroupID []byte
	Epoch   uint64
	Sender  Sender
	AAD     []byte
	Type    uint8
	App     []byte
	Prop    *Proposal
	Commit  *CommitBody
}

func (c *Content) write(w *W) {
	w.Vec(c.GroupID)
	w.U64(c.Epoch)
	w.U8(c.Sender.Type)
	if c.Sender.Type == SenderMember || c.Sender.Type == SenderExternal {
		w.U32(c.Sender.Index)
	}
	w.Vec(c.AAD)
	w.U8(c.Type)
	c.writeBody(w)
}

func (c *Content) writeBody(w *W) {
	switch c.Type {
	case ContentApp:
		w.Vec(c.App)
	case ContentProposal:
		c.Prop.write(w)
	case ContentCommit:
		c.Commit.write(w)
	}
}

func (c *Content) readBody(r *R) {
	switch c.Type {
	case ContentApp:
		c.App = r.Vec()
	case ContentProposal:
		c.Prop = new(Proposal)
		c.Prop.read(r)
	case ContentCommit:
		c.Commit = new(CommitBody)
		c.Commit.read(r)
	default:
		r.fail(fmt.Errorf("ref: content type %d", c.Type))
	}
}

func (c *Content) read(r *R) {
	c.GroupID = r.Vec()
	c.Epoch = r.U64()
	c.Sender.Type = r.U8()
	switch c.Sender.Type {
	case SenderMember, SenderExternal:
		c.Sender.Index = r.U32()
	case SenderNewCommit, SenderNewProposal:
	default:
		r.fail(errors.New("ref: sender type"))
	}
	c.AAD = r.Vec()
	c.Type = r.U8()
	c.readBody(r)
}

// Auth is AuthenticatedContent without the wrapping message.
type Auth struct {
	Wire    uint16
	Content Content
	Sig     []byte
	Tag     []byte // commits only
}

func (a *Auth) writeAuth(w *W) {
	w.Vec(a.Sig)
	if a.Content.Type == ContentCommit {
		w.Vec(a.Tag)
	}
}

func (a *Auth) readAuth(r *R) {
	a.Sig = r.Vec()
	if a.Content.Type == ContentCommit {
		a.Tag = r.Vec()
	}
}

func (a *Auth) tbs(ctx *GroupContext) []byte {
	var w W
	w.U16(Version10)
	w.U16(a.Wire)
	a.Content.write(&w)
	if a.Content.Sender.Type == SenderMember || a.Content.Sender.Type == SenderNewCommit {
		ctx.write(&w)
	}
	return w.B
}

// ProposalRef computes the reference of a framed proposal.
func (a *Auth) ProposalRef(cs Suite) []byte {
	var w W
	w.U16(a.Wire)
	a.Content.write(&w)
	a.writeAuth(&w)
	return cs.RefHash("MLS 1.0 Proposal Reference", w.B)
}

// Private is a PrivateMessage.
type Private struct {
	GroupID   []byte
	Epoch     uint64
	Type      uint8
	AAD       []byte
	EncSender []byte
	Ct        []byte
}

func (p *Private) Msg() []byte {
	var w W
	w.U16(Version10)
	w.U16(WirePrivate)
	w.Vec(p.GroupID)
	w.U64(p.Epoch)
	w.U8(p.Type)
	w.Vec(p.AAD)
	w.Vec(p.EncSender)
	w.Vec(p.Ct)
	return w.B
}

// ParsePrivateMsg strictly decodes an MLSMessage holding a private message.
func ParsePrivateMsg(raw []byte) (*Private, error) {
	r := &R{B: raw}
	if r.U16() != Version10 || r.U16() != WirePrivate {
		return nil, errors.New("ref: not a private message")
	}
	p := &Private{GroupID: r.Vec(), Epoch: r.U64(), Type: r.U8(), AAD: r.Vec(), EncSender: r.Vec(), Ct: r.Vec()}
	return p, r.Done()
}

// Public is a PublicMessage.
type Public struct {
	Auth
	MTag []byte
}

func (p *Public) Msg() []byte {
	var w W
	w.U16(Version10)
	w.U16(WirePublic)
	p.Content.write(&w)
	p.writeAuth(&w)
	if p.Content.Sender.Type == SenderMember {
		w.Vec(p.MTag)
	}
	return w.B
}

// ParsePublicMsg strictly decodes an MLSMessage holding a public message.
func ParsePublicMsg(raw []byte) (*Public, error) {
	r := &R{B: raw}
	if r.U16() != Version10 || r.U16() != WirePublic {
		return nil, errors.New("ref: not a public message")
	}
	p := new(Public)
	p.Wire = WirePublic
	p.Content.read(r)
	p.readAuth(r)
	if p.Content.Sender.Type == SenderMember {
		p.MTag = r.Vec()
	}
	return p, r.Done()
}

type GroupInfo struct {
	Ctx    GroupContext
	Exts   []Extension
	Tag    []byte
	Signer uint32
	Sig    []byte
}

func (g *GroupInfo) tbs() []byte {
	var w W
	g.Ctx.write(&w)
	writeExts(&w, g.Exts)
	w.Vec(g.Tag)
	w.U32(g.Signer)
	return w.B
}

func (g *GroupInfo) Bytes() []byte {
	w := W{B: g.tbs()}
	w.Vec(g.Sig)
	return w.B
}

func (g *GroupInfo) read(r *R) {
	g.Ctx.read(r)
	g.Exts = readExts(r)
	g.Tag = r.Vec()
	g.Signer = r.U32()
	g.Sig = r.Vec()
}

type GroupSecrets struct {
	Joiner     []byte
	PathSecret []byte
	PSKs       []PSKID
}

func (g *GroupSecrets) Bytes() []byte {
	var w W
	w.Vec(g.Joiner)
	w.Bool(g.PathSecret != nil)
	if g.PathSecret != nil {
		w.Vec(g.PathSecret)
	}
	w.Sub(func(w *W) {
		for i := range g.PSKs {
			g.PSKs[i].write(w)
		}
	})
	return w.B
}

func parseGroupSecrets(raw []byte) (*GroupSecrets, error) {
	r := &R{B: raw}
	g := &GroupSecrets{Joiner: r.Vec()}
	if r.Bool() {
		g.PathSecret = r.Vec()
	}
	r.Sub(func(r *R) {
		var p PSKID
		p.read(r)
		g.PSKs = append(g.PSKs, p)
	})
	return g, r.Done()
}

type WelcomeSecret struct {
	Ref []byte
	Ct  HPKECt
}

type Welcome struct {
	CS      Suite
	Secrets []WelcomeSecret
	EncInfo []byte
}

func (x *Welcome) Msg() []byte {
	var w W
	w.U16(Version10)
	w.U16(WireWelcome)
	w.U16(uint16(x.CS))
	w.Sub(func(w *W) {
		for _, s := range x.Secrets {
			w.Vec(s.Ref)
			w.Vec(s.Ct.Kem)
			w.Vec(s.Ct.Ct)
		}
	})
	w.Vec(x.EncInfo)
	return w.B
}

// ParseWelcomeMsg strictly decodes an MLSMessage holding a welcome.
func ParseWelcomeMsg(raw []byte) (*Welcome, error) {
	r := &R{B: raw}
	if r.U16() != Version10 || r.U16() != WireWelcome {
		return nil, errors.New("ref: not a welcome message")
	}
	x := &Welcome{CS: Suite(r.U16())}
	r.Sub(func(r *R) {
		x.Secrets = append(x.Secrets, WelcomeSecret{r.Vec(), HPKECt{r.Vec(), r.Vec()}})
	})
	x.EncInfo = r.Vec()
	return x, r.Done()
}
