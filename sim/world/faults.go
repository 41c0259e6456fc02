package world

import (
	"bytes"
	"crypto/rand"
	"errors"
	"io"
	"runtime"
	"slices"

	mls "github.com/emersion/go-mls"

	"verif/sim/ref"
)

// failingReader is a random source that breaks down after a number of reads.
// Reads through crypto/rand.Read are exempt: the runtime does not let them
// fail.
type failingReader struct {
	r     io.Reader
	left  int
	fired bool
}

var errEntropy = errors.New("simulated failure of the random source")

func (f *failingReader) Read(b []byte) (int, error) {
	var pcs [16]uintptr
	frames := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs[:])])
	for {
		fr, more := frames.Next()
		if fr.Function == "crypto/rand.Read" {
			return f.r.Read(b)
		}
		if !more {
			break
		}
	}
	if f.left == 0 {
		f.fired = true
		return 0, errEntropy
	}
	f.left--
	return f.r.Read(b)
}

// stepEntropy lets the random source fail in the middle of an operation.
func (w *World) stepEntropy() bool {
	n := w.liveNode(func(n *Node) bool { return !n.rebuilt })
	if n == nil {
		return false
	}
	w.inFault = "entropy"
	tags := w.tags(n, "C04", "C03")
	kps := []*ref.KeyPackage{}
	for i := w.r.IntN(4); i >= 0; i-- {
		kps = append(kps, w.newRefClient().kp)
	}
	nodes := make([]*Node, len(kps))
	if must, _ := w.inviteTime(n, kps); !must {
		return false
	}
	payload := w.payload()
	f := &failingReader{r: rand.Reader, left: w.r.IntN(len(kps) + 2)}
	app := w.r.P(30)
	if app {
		f.left = w.r.IntN(2)
	}
	var welcome, raw []byte
	var err error
	rand.Reader = f
	func() {
		defer func() { rand.Reader = f.r }()
		if app {
			w.call(n, "CreateApplicationMessage", len(payload), tags, func() { raw, err = n.group.CreateApplicationMessage(payload) })
		} else {
			welcome, raw, err = w.createWelcome(n, msgsOf(kps), tags)
		}
	}()
	w.log("%s: operation with failing random source, fired %v: %v", n.name, f.fired, err)
	if f.fired {
		w.fault("random source failure")
	}
	w.judge(n, tags, "random source failure", "handled", f.fired, f.left, app)
	if err != nil {
		if !f.fired {
			w.fail("reject-valid", tags, "%s cannot create a message: %v", n.name, err)
		}
		n.failed = true
	} else if app {
		o, err := n.ep.Open(raw)
		if err != nil || !bytes.Equal(o.Content.App, payload) {
			w.fail("state-diverged", tags, "%s created an invalid application message while the random source failed: %v", n.name, err)
		}
		w.checkGen(n, false, o.Gen, "application data")
	} else {
		m := w.checkInvite(n, welcome, raw, kps, nodes, tags)
		m.ep.lost = append(m.ep.lost, m)
	}
	if w.r.P(50) {
		w.lightProbe(n)
	}
	if w.r.P(50) {
		w.deepProbe(n)
	}
	return true
}

// mangle alters bytes without regard to their meaning.
func (w *World) mangle(raw, other []byte) (out []byte, what string) {
	b := bytes.Clone(raw)
	if len(b) == 0 {
		return []byte{1}, "extended"
	}
	switch w.r.IntN(12) {
	case 0, 1, 2, 3:
		b[w.r.IntN(len(b))] ^= 1 << w.r.IntN(8)
		return b, "bit flipped"
	case 4:
		for i := 1 + w.r.IntN(5); i > 0; i-- {
			b[w.r.IntN(len(b))] ^= byte(1 + w.r.IntN(255))
		}
		return b, "bytes changed"
	case 5:
		return b[:w.r.IntN(len(b))], "truncated"
	case 6:
		return append(b, w.r.Bytes(1+w.r.IntN(20))...), "extended"
	case 7:
		i := w.r.IntN(len(b))
		return slices.Delete(b, i, min(len(b), i+1+w.r.IntN(8))), "bytes removed"
	case 8:
		return slices.Insert(b, w.r.IntN(len(b)+1), w.r.Bytes(1+w.r.IntN(8))...), "bytes inserted"
	case 9:
		i, n := w.r.IntN(len(b)), 1+w.r.IntN(24)
		for ; n > 0 && i < len(b); n, i = n-1, i+1 {
			b[i] = 0
		}
		return b, "bytes zeroed"
	case 10:
		i := w.r.IntN(len(b))
		j := min(i, len(other))
		return append(b[:i], other[j:]...), "spliced"
	default:
		// the first or last byte matters most often
		if w.r.P(50) {
			b[len(b)-1] ^= 1 << w.r.IntN(8)
		} else {
			b[w.r.IntN(min(len(b), 12))] ^= 1 << w.r.IntN(8)
		}
		return b, "edge bit flipped"
	}
}

// sloppily encodes an object with one length or presence byte in a form that
// means the same to a careless decoder.
func (w *World) sloppily(f func() []byte) (raw []byte, at int) {
	_, n := ref.Sloppily(ref.Sloppy{At: -1}, f)
	at = w.r.IntN(n)
	raw, _ = ref.Sloppily(ref.Sloppy{At: at, Kind: w.r.IntN(3)}, f)
	return raw, at
}

// sloppyMsg encodes a message again, sloppily.
func (w *World) sloppyMsg(raw []byte) []byte {
	if p, err := ref.ParsePrivateMsg(raw); err == nil {
		raw, _ = w.sloppily(p.Msg)
	} else if p, err := ref.ParsePublicMsg(raw); err == nil {
		raw, _ = w.sloppily(p.Msg)
	}
	return raw
}

// alterField changes one field of a message and keeps the rest.
func (w *World) alterField(raw, other []byte) (out []byte, what string) {
	swap := func(a *[]byte, b []byte) { *a = bytes.Clone(b) }
	cut := func(b []byte) []byte {
		if len(b) == 0 {
			return []byte{0}
		}
		switch w.r.IntN(4) {
		case 0:
			return b[:len(b)-1]
		case 1:
			return nil
		case 2:
			return append(bytes.Clone(b), 0)
		default:
			return b[:w.r.IntN(len(b))]
		}
	}
	if p, err := ref.ParsePrivateMsg(raw); err == nil {
		o, err := ref.ParsePrivateMsg(other)
		if err != nil {
			o = p
		}
		switch w.r.IntN(12) {
		case 0:
			swap(&p.EncSender, o.EncSender)
			what = "sender data exchanged"
		case 1:
			swap(&p.Ct, o.Ct)
			what = "ciphertext exchanged"
		case 2:
			swap(&p.AAD, o.AAD)
			what = "authenticated data exchanged"
		case 3:
			p.AAD = append(bytes.Clone(p.AAD), byte(w.r.Uint64()))
			what = "authenticated data extended"
		case 4:
			p.Epoch += []uint64{1, ^uint64(0), 1 << 32, 1 << 63}[w.r.IntN(4)]
			what = "epoch changed"
		case 5:
			p.Type = uint8(w.r.IntN(5))
			what = "content type changed"
		case 6:
			p.EncSender = cut(p.EncSender)
			what = "sender data cut"
		case 7:
			p.Ct = cut(p.Ct)
			what = "ciphertext cut"
		case 8:
			p.GroupID = cut(p.GroupID)
			what = "group ID cut"
		case 9:
			if len(p.AAD) > 0 {
				p.AAD = nil
			} else {
				p.AAD = []byte{0}
			}
			what = "authenticated data replaced"
		case 10:
			swap(&p.EncSender, o.EncSender)
			swap(&p.Ct, o.Ct)
			p.AAD = append(bytes.Clone(o.AAD), 7)
			what = "body exchanged"
		default:
			if len(p.Ct) > 0 {
				p.Ct = bytes.Clone(p.Ct)
				// beyond the part that is sampled for the sender data key
				p.Ct[len(p.Ct)-1-w.r.IntN(min(len(p.Ct), 20))] ^= 1 << w.r.IntN(8)
			}
			what = "end of ciphertext changed"
		}
		return p.Msg(), what
	}
	if p, err := ref.ParsePublicMsg(raw); err == nil {
		o, err := ref.ParsePublicMsg(other)
		if err != nil {
			o = p
		}
		switch w.r.IntN(11) {
		case 0:
			p.Content.Sender.Index = uint32(w.r.IntN(8))
			what = "sender changed"
		case 1:
			p.Content.Sender.Type = uint8(1 + w.r.IntN(4))
			what = "sender type changed"
		case 2:
			p.Content.Epoch += []uint64{1, ^uint64(0), 1 << 32}[w.r.IntN(3)]
			what = "epoch changed"
		case 3:
			p.Content.AAD = append(bytes.Clone(p.Content.AAD), 1)
			what = "authenticated data extended"
		case 4:
			p.Sig = cut(p.Sig)
			what = "signature cut"
		case 5:
			swap(&p.Sig, o.Sig)
			what = "signature exchanged"
		case 6:
			p.MTag = cut(p.MTag)
			what = "membership tag cut"
		case 7:
			swap(&p.MTag, o.MTag)
			what = "membership tag exchanged"
		case 8:
			p.Tag = cut(p.Tag)
			what = "confirmation tag cut"
		case 9:
			if p.Content.Type == ref.ContentProposal {
				// as application data
				p.Content.Type = ref.ContentApp
				p.Content.App = w.r.Bytes(5)
			} else {
				p.Content.Commit.Props = nil
			}
			what = "content changed"
		default:
			p.Content.GroupID = cut(p.Content.GroupID)
			what = "group ID cut"
		}
		return p.Msg(), what
	}
	return w.mangle(raw, other)
}

func (w *World) stepAlter() bool {
	n := w.liveNode(nil)
	if n == nil {
		return false
	}
	e := n.ep
	var c []*Msg
	for _, m := range e.msgs {
		if exp, _, _ := w.expect(n, m); exp == accept {
			c = append(c, m)
		}
	}
	if len(c) == 0 {
		refs := w.refLeaves(e)
		if len(refs) == 0 {
			return false
		}
		li := pick(w.r, refs)
		if w.r.P(50) {
			c = append(c, w.refProposal(e, li, &ref.Proposal{Type: ref.PropUpdate, Leaf: w.updateLeaf(e, li)}))
		} else {
			c = append(c, w.refApp(e, li))
		}
	}
	m := pick(w.r, c)
	other := pick(w.r, e.msgs).raw
	var raw []byte
	var what string
	switch w.r.IntN(8) {
	case 0, 1, 2:
		raw, what = w.mangle(m.raw, other)
	case 3:
		raw, what = w.sloppyMsg(m.raw), "encoded loosely"
	default:
		raw, what = w.alterField(m.raw, other)
	}
	if raw == nil || w.genuine[string(raw)] {
		return false
	}
	w.fault("message altered: " + what)
	w.inFault = what
	tags := w.tags(n, "C05")
	w.mustReject(n, raw, tags, m.kind+" "+what, m.public, m.sender)
	if w.r.P(50) {
		w.deliver(n, m)
	}
	return true
}

// mustReject gives a node a message it has to reject.
func (w *World) mustReject(n *Node, raw []byte, tags []string, what string, extra ...any) {
	_, err := w.process(n, raw, tags)
	w.log("%s (leaf %d, epoch %d) receives an invalid message (%s): %v", n.name, n.leaf, n.ep.Ctx.Epoch, what, err)
	w.judge(n, tags, what, "reject", extra...)
	if err == nil {
		w.fail("accept-invalid", tags, "%s at leaf %d of epoch %d accepts an invalid message: %s", n.name, n.leaf, n.ep.Ctx.Epoch, what)
	}
	n.failed = true
	if w.r.P(w.cfg.Probe) {
		if w.r.P(60) {
			w.lightProbe(n)
		} else {
			w.deepProbe(n)
		}
	}
}

// invited picks a client that has a welcome.
func (w *World) invited() *Node {
	var c []*Node
	for _, n := range w.nodes {
		if n.welcome != nil {
			e := n.ep
			if n.joinEp != nil {
				e = n.joinEp
			}
			if must, _ := w.joinTime(n, e); must {
				c = append(c, n)
			}
		}
	}
	if len(c) == 0 {
		return nil
	}
	return pick(w.r, c)
}

// peek checks that a group is in the given epoch.
func (w *World) peek(n *Node, group *mls.Group, e *EpochW, leaf uint32, tags []string, what string) {
	var raw []byte
	var err error
	w.call(n, "CreateApplicationMessage", 4, tags, func() { raw, err = group.CreateApplicationMessage([]byte("peek")) })
	var o *ref.Opened
	if err == nil {
		o, err = e.Open(raw)
	}
	if err != nil || o.Content.Sender.Index != leaf {
		w.fail("state-diverged", tags, "%s is in another state after %s: %v", n.name, what, err)
	}
}

func (w *World) stepAlterWelcome() bool {
	n := w.invited()
	if n == nil {
		return false
	}
	e := n.ep
	if n.joinEp != nil {
		e = n.joinEp
	}
	tags := w.tags(n, "C05", "C09")
	other := pick(w.r, w.nodes).welcome
	wel, err := ref.ParseWelcomeMsg(n.welcome)
	if err != nil {
		w.bug("welcome: %v", err)
	}
	mine := -1
	for i := range wel.Secrets {
		if bytes.Equal(wel.Secrets[i].Ref, n.refKP.Ref()) {
			mine = i
		}
	}
	flip := func(b []byte) []byte {
		b = bytes.Clone(b)
		if len(b) > 0 {
			b[w.r.IntN(len(b))] ^= 1 << w.r.IntN(8)
		}
		return b
	}
	var raw []byte
	what := ""
	same := false // the receiver must not notice
	switch w.r.IntN(10) {
	case 0, 1:
		// others' entries
		if len(wel.Secrets) < 2 {
			return false
		}
		i := w.r.IntN(len(wel.Secrets) - 1)
		if i >= mine {
			i++
		}
		s := &wel.Secrets[i]
		same = true
		switch w.r.IntN(10) {
		case 0:
			s.Ref = flip(s.Ref)
		case 1:
			s.Ct.Kem = flip(s.Ct.Kem)
		case 2:
			s.Ct.Ct = flip(s.Ct.Ct)
		case 3:
			s.Ref = w.resized(s.Ref)
		case 4:
			s.Ct.Kem = w.resized(s.Ct.Kem)
		case 5:
			s.Ct.Ct = w.resized(s.Ct.Ct)
		case 6:
			// one more, or many
			x := *s
			for {
				x.Ref = w.r.Bytes(len(x.Ref))
				wel.Secrets = slices.Insert(wel.Secrets, w.r.IntN(len(wel.Secrets)+1), x)
				if !w.r.P(80) {
					break
				}
			}
		case 7:
			// everybody else's
			wel.Secrets = []ref.WelcomeSecret{wel.Secrets[mine]}
		case 8:
			wel.Secrets = slices.Clone(wel.Secrets)
			w.r.Shuffle(len(wel.Secrets), func(i, j int) { wel.Secrets[i], wel.Secrets[j] = wel.Secrets[j], wel.Secrets[i] })
		default:
			wel.Secrets = slices.Delete(wel.Secrets, i, i+1)
		}
		what = "other client's entry"
		raw = wel.Msg()
	case 2:
		wel.EncInfo = flip(wel.EncInfo)
		what = "group info"
		raw = wel.Msg()
	case 3:
		s := &wel.Secrets[mine]
		switch w.r.IntN(3) {
		case 0:
			s.Ref = flip(s.Ref)
		case 1:
			s.Ct.Kem = flip(s.Ct.Kem)
		default:
			s.Ct.Ct = flip(s.Ct.Ct)
		}
		what = "own entry"
		raw = wel.Msg()
	case 4:
		if len(wel.Secrets) < 2 {
			return false
		}
		i := (mine + 1) % len(wel.Secrets)
		wel.Secrets[i].Ct, wel.Secrets[mine].Ct = wel.Secrets[mine].Ct, wel.Secrets[i].Ct
		what = "entries exchanged"
		raw = wel.Msg()
	case 5:
		o, err := ref.ParseWelcomeMsg(other)
		if err != nil || bytes.Equal(o.EncInfo, wel.EncInfo) {
			return false
		}
		if w.r.P(50) {
			wel.EncInfo = o.EncInfo
		} else {
			wel.Secrets[mine].Ct = o.Secrets[0].Ct
		}
		what = "part of another welcome"
		raw = wel.Msg()
	case 6:
		wel.CS = ref.Suite([]uint16{0, 1, 2, 3, 4, 5, 6, 7, 0xffff}[w.r.IntN(9)])
		if wel.CS == w.cfg.Suite {
			return false
		}
		what = "suite"
		raw = wel.Msg()
	case 7:
		var at int
		raw, at = w.sloppily(wel.Msg)
		if at < 3*len(wel.Secrets) && at/3 != mine {
			return false
		}
		what = "encoded loosely"
	case 8:
		wel.EncInfo = wel.EncInfo[:w.r.IntN(len(wel.EncInfo))]
		what = "group info cut"
		raw = wel.Msg()
	default:
		b := bytes.Clone(n.welcome)
		if w.r.P(50) {
			raw, what = b[:w.r.IntN(len(b))], "truncated"
		} else {
			raw, what = append(b, w.r.Bytes(1+w.r.IntN(9))...), "extended"
		}
	}
	if raw == nil || bytes.Equal(raw, n.welcome) {
		return false
	}
	w.fault("welcome altered: " + what)
	w.inFault = what
	group, err := w.tryJoin(n, raw, tags)
	w.log("%s tries an altered welcome (%s): %v", n.name, what, err)
	if same {
		w.judge(n, tags, "altered welcome: "+what, "accept", mine, len(wel.Secrets))
		if err != nil {
			w.fail("reject-valid", tags, "%s cannot join after an alteration of another client's part: %v", n.name, err)
		}
		w.peek(n, group, e, n.leaf, tags, "joining from an altered welcome")
		return true
	}
	w.judge(n, tags, "altered welcome: "+what, "reject", mine, len(wel.Secrets))
	if err == nil {
		w.fail("accept-invalid", tags, "%s joins from an altered welcome: %s", n.name, what)
	}
	return true
}

// resized is b with a length of its own, or nothing.
func (w *World) resized(b []byte) []byte {
	switch w.r.IntN(4) {
	case 0:
		return nil
	case 1:
		return bytes.Clone(b[:w.r.IntN(len(b)+1)])
	case 2:
		return append(bytes.Clone(b), w.r.Bytes(1+w.r.IntN(9))...)
	default:
		return w.r.Bytes(w.r.IntN(80))
	}
}

func (w *World) stepAlterKP() bool {
	n := w.liveNode(nil)
	if n == nil {
		return false
	}
	kp := w.newRefClient().kp
	if w.r.P(30) {
		kp = pick(w.r, w.nodes).refKP
	}
	good := w.newRefClient().kp
	var raw []byte
	what := ""
	switch w.r.IntN(7) {
	case 0:
		o := kp.Clone()
		o.Sig = good.Sig
		raw, what = o.Msg(), "signature exchanged"
	case 1:
		o := kp.Clone()
		o.InitKey = good.InitKey
		raw, what = o.Msg(), "init key exchanged"
	case 2:
		o := kp.Clone()
		o.Leaf = good.Leaf
		raw, what = o.Msg(), "leaf exchanged"
	case 3:
		o := kp.Clone()
		o.Exts = append(slices.Clone(o.Exts), ref.Extension{Type: 0x2A2A})
		raw, what = o.Msg(), "extension added"
	case 4:
		raw, _ = w.sloppily(kp.Msg)
		what = "encoded loosely"
	default:
		raw, what = w.mangle(kp.Msg(), good.Msg())
	}
	if bytes.Equal(raw, kp.Msg()) || bytes.Equal(raw, good.Msg()) {
		return false
	}
	w.fault("key package altered: " + what)
	w.inFault = what
	w.mustNotInvite(n, [][]byte{raw}, []*ref.KeyPackage{good}, w.tags(n, "C05", "C10"), "altered key package: "+what)
	return true
}

// mustNotInvite asks a node to invite clients of which one is unacceptable.
func (w *World) mustNotInvite(n *Node, bad [][]byte, good []*ref.KeyPackage, tags []string, what string) {
	kps := slices.Clone(bad)
	for _, g := range good {
		if w.r.P(50) {
			kps = slices.Insert(kps, w.r.IntN(len(kps)+1), g.Msg())
		}
	}
	_, _, err := w.createWelcome(n, kps, tags)
	w.log("%s is asked to invite invalid clients (%s): %v", n.name, what, err)
	w.judge(n, tags, what, "reject", len(kps))
	if err == nil {
		w.fail("accept-invalid", tags, "%s invites a client with an invalid key package: %s", n.name, what)
	}
	n.failed = true
	if w.r.P(w.cfg.Probe) {
		w.deepProbe(n)
	}
}

// stepGarbage feeds bytes nobody made with care.
func (w *World) stepGarbage() bool {
	n := w.liveNode(nil)
	if n == nil {
		return false
	}
	var b []byte
	switch w.r.IntN(4) {
	case 0:
		b = w.r.Bytes(w.r.IntN(200))
	case 1:
		b = append([]byte{0, 1, 0, byte(w.r.IntN(7))}, w.r.Bytes(w.r.IntN(300))...)
	case 2:
		// small values parse further
		b = append([]byte{0, 1, 0, byte(w.r.IntN(7))}, make([]byte, w.r.IntN(300))...)
		for i := 4; i < len(b); i++ {
			if w.r.P(30) {
				b[i] = byte(w.r.IntN(12))
			}
		}
	default:
		src := [][]byte{n.kpRaw, n.refKP.Msg()}
		if n.welcome != nil {
			src = append(src, n.welcome, n.welcome)
		}
		for _, m := range n.ep.msgs {
			src = append(src, m.raw)
		}
		b, _ = w.mangle(pick(w.r, src), pick(w.r, src))
		b, _ = w.mangle(b, pick(w.r, src))
		if w.r.P(30) && len(b) > 4 {
			b[3] = byte(w.r.IntN(7))
		}
	}
	if w.genuine[string(b)] {
		return false
	}
	w.fault("garbage")
	w.inFault = "garbage"
	w.feed(n, b)
	return true
}

// feed gives bytes to every decoder. None of them may accept.
func (w *World) feed(n *Node, b []byte) {
	tags := w.tags(n, "C05")
	if _, err := w.process(n, b, tags); err == nil {
		w.fail("accept-invalid", tags, "%s accepts garbage", n.name)
	}
	w.judge(n, append(tags, "C16"), "garbage message", "reject", bucket(len(b)))
	n.failed = true
	if len(b) > 4 && b[3] != ref.WireWelcome && b[3] != ref.WireKeyPackage {
		return
	}
	isWelcome := n.welcome != nil && bytes.Equal(b, n.welcome)
	if !isWelcome {
		if _, err := w.tryJoin(n, b, tags); err == nil && n.welcome != nil && !w.tolerable(n, b) {
			w.fail("accept-invalid", append(tags, "C09"), "%s joins from garbage", n.name)
		}
		w.judge(n, append(tags, "C16"), "garbage welcome", "reject", bucket(len(b)))
	}
	if _, err := ref.ParseKeyPackageMsg(b); err != nil || !bytes.Equal(b, n.kpRaw) {
		if _, _, err := w.createWelcome(n, [][]byte{b}, tags); err == nil {
			w.fail("accept-invalid", append(tags, "C10"), "%s invites garbage", n.name)
		}
		w.judge(n, append(tags, "C16"), "garbage key package", "reject", bucket(len(b)))
	}
}

// tolerable reports whether a welcome differs from the node's own only in
// other clients' parts.
func (w *World) tolerable(n *Node, raw []byte) bool {
	a, err := ref.ParseWelcomeMsg(raw)
	if err != nil {
		return false
	}
	b, err := ref.ParseWelcomeMsg(n.welcome)
	if err != nil || !bytes.Equal(a.EncInfo, b.EncInfo) || a.CS != b.CS {
		return false
	}
	for _, s := range a.Secrets {
		if bytes.Equal(s.Ref, n.refKP.Ref()) {
			return true
		}
	}
	return false
}
