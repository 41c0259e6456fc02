package ref

import (
	"bytes"
	"crypto"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hkdf"
	"crypto/hmac"
	"crypto/hpke"
	"crypto/rand"
	_ "crypto/sha256"
	_ "crypto/sha512"
	"fmt"
	"hash"

	"golang.org/x/crypto/chacha20poly1305"
)

// Suite is a cipher suite number.
type Suite uint16

type suiteDesc struct {
	hash  crypto.Hash
	kem   hpke.KEM
	kdf   hpke.KDF
	aead  hpke.AEAD
	nk    int
	curve elliptic.Curve // nil: Ed25519
}

var suites = map[Suite]suiteDesc{
	1: {crypto.SHA256, hpke.DHKEM(ecdh.X25519()), hpke.HKDFSHA256(), hpke.AES128GCM(), 16, nil},
	2: {crypto.SHA256, hpke.DHKEM(ecdh.P256()), hpke.HKDFSHA256(), hpke.AES128GCM(), 16, elliptic.P256()},
	3: {crypto.SHA256, hpke.DHKEM(ecdh.X25519()), hpke.HKDFSHA256(), hpke.ChaCha20Poly1305(), 32, nil},
	5: {crypto.SHA512, hpke.DHKEM(ecdh.P521()), hpke.HKDFSHA512(), hpke.AES256GCM(), 32, elliptic.P521()},
	7: {crypto.SHA384, hpke.DHKEM(ecdh.P384()), hpke.HKDFSHA384(), hpke.AES256GCM(), 32, elliptic.P384()},
}

func (s Suite) d() suiteDesc {
	d, ok := suites[s]
	if !ok {
		panic(fmt.Sprintf("ref: suite %d", s))
	}
	return d
}

func (s Suite) Nh() int                   { return s.d().hash.Size() }
func (s Suite) newHash() func() hash.Hash { return s.d().hash.New }

func (s Suite) Hash(parts ...[]byte) []byte {
	h := s.newHash()()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func (s Suite) MAC(key, msg []byte) []byte {
	m := hmac.New(s.newHash(), key)
	m.Write(msg)
	return m.Sum(nil)
}

func (s Suite) Extract(salt, ikm []byte) []byte {
	// plain HMAC: RFC 5869 extract
	return s.MAC(salt, ikm)
}

func (s Suite) ExpandWithLabel(secret []byte, label string, context []byte, n int) []byte {
	var w W
	w.U16(uint16(n))
	w.Vec([]byte("MLS 1.0 " + label))
	w.Vec(context)
	out, err := hkdf.Expand(s.newHash(), secret, string(w.B), n)
	if err != nil {
		panic(err)
	}
	return out
}

func (s Suite) DeriveSecret(secret []byte, label string) []byte {
	return s.ExpandWithLabel(secret, label, nil, s.Nh())
}

func (s Suite) deriveTreeSecret(secret []byte, label string, gen uint32, n int) []byte {
	var w W
	w.U32(gen)
	return s.ExpandWithLabel(secret, label, w.B, n)
}

func (s Suite) RefHash(label string, value []byte) []byte {
	var w W
	w.Vec([]byte(label))
	w.Vec(value)
	return s.Hash(w.B)
}

func (s Suite) AEAD(key []byte) cipher.AEAD {
	if s.d().aead.ID() == hpke.ChaCha20Poly1305().ID() {
		a, err := chacha20poly1305.New(key)
		if err != nil {
			panic(err)
		}
		return a
	}
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return a
}

const nonceSize = 12

// KeyPair is a raw HPKE or signature key pair.
type KeyPair struct{ Pub, Priv []byte }

func (s Suite) kp(k hpke.PrivateKey) KeyPair {
	priv, err := k.Bytes()
	if err != nil {
		panic(err)
	}
	return KeyPair{k.PublicKey().Bytes(), priv}
}

func (s Suite) GenHPKE() KeyPair {
	seed := make([]byte, s.Nh())
	rand.Read(seed)
	return s.DeriveHPKE(seed)
}

func (s Suite) DeriveHPKE(seed []byte) KeyPair {
	k, err := s.d().kem.DeriveKeyPair(seed)
	if err != nil {
		panic(err)
	}
	return s.kp(k)
}

func labelled(label string, context []byte) []byte {
	var w W
	w.Vec([]byte("MLS 1.0 " + label))
	w.Vec(context)
	return w.B
}

// ValidHPKE tells whether a public encryption key is well-formed.
func (s Suite) ValidHPKE(pub []byte) bool {
	_, err := s.d().kem.NewPublicKey(pub)
	return err == nil
}

// HPKECt is an HPKECiphertext.
type HPKECt struct{ Kem, Ct []byte }

func (s Suite) EncryptWithLabel(pub []byte, label string, context, pt []byte) (HPKECt, error) {
	d := s.d()
	pk, err := d.kem.NewPublicKey(pub)
	if err != nil {
		return HPKECt{}, err
	}
	enc, snd, err := hpke.NewSender(pk, d.kdf, d.aead, labelled(label, context))
	if err != nil {
		return HPKECt{}, err
	}
	ct, err := snd.Seal(nil, pt)
	return HPKECt{enc, ct}, err
}

func (s Suite) DecryptWithLabel(priv []byte, label string, context []byte, ct HPKECt) ([]byte, error) {
	d := s.d()
	sk, err := d.kem.NewPrivateKey(priv)
	if err != nil {
		return nil, err
	}
	rcv, err := hpke.NewRecipient(ct.Kem, sk, d.kdf, d.aead, labelled(label, context))
	if err != nil {
		return nil, err
	}
	return rcv.Open(nil, ct.Ct)
}

// HPKEPub derives the public key of a raw private key.
func (s Suite) HPKEPub(priv []byte) ([]byte, error) {
	sk, err := s.d().kem.NewPrivateKey(priv)
	if err != nil {
		return nil, err
	}
	return sk.PublicKey().Bytes(), nil
}

func (s Suite) GenSig() KeyPair {
	if c := s.d().curve; c != nil {
		k, err := ecdsa.GenerateKey(c, rand.Reader)
		if err != nil {
			panic(err)
		}
		pub, err := k.PublicKey.Bytes()
		if err != nil {
			panic(err)
		}
		priv, err := k.Bytes()
		if err != nil {
			panic(err)
		}
		return KeyPair{pub, priv}
	}
	seed := make([]byte, 32)
	rand.Read(seed)
	k := ed25519.NewKeyFromSeed(seed)
	return KeyPair{[]byte(k.Public().(ed25519.PublicKey)), seed}
}

func (s Suite) Sign(priv []byte, label string, content []byte) []byte {
	msg := labelled(label, content)
	if c := s.d().curve; c != nil {
		n := (c.Params().BitSize + 7) / 8
		if len(priv) < n {
			priv = append(make([]byte, n-len(priv)), priv...)
		}
		k, err := ecdsa.ParseRawPrivateKey(c, priv)
		if err != nil {
			panic(err)
		}
		sig, err := ecdsa.SignASN1(rand.Reader, k, s.Hash(msg))
		if err != nil {
			panic(err)
		}
		return sig
	}
	return ed25519.Sign(ed25519.NewKeyFromSeed(priv), msg)
}

func (s Suite) Verify(pub []byte, label string, content, sig []byte) bool {
	msg := labelled(label, content)
	if c := s.d().curve; c != nil {
		k, err := ecdsa.ParseUncompressedPublicKey(c, pub)
		if err != nil {
			return false
		}
		return ecdsa.VerifyASN1(k, s.Hash(msg), sig)
	}
	if len(pub) != ed25519.PublicKeySize {
		return false
	}
	return ed25519.Verify(pub, msg, sig)
}

func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return bytes.Clone(b)
}
