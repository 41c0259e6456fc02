package ref

import (
	"bytes"
	"errors"
	"fmt"
	"slices"
)

type Parent struct {
	EncKey     []byte
	ParentHash []byte
	Unmerged   []uint32
}

// Node is a non-blank tree node: exactly one field is set.
type Node struct {
	Leaf   *LeafNode
	Parent *Parent
}

// Tree is a complete tree in array representation; nil entries are blank.
// Nodes are treated as immutable: every change installs fresh nodes.
type Tree []*Node

func (t Tree) Clone() Tree { return slices.Clone(t) }

// Leaves is the number of leaf slots.
func (t Tree) Leaves() uint32 { return uint32(len(t)+1) / 2 }

func level(x int) int {
	k := 0
	for (x>>k)&1 == 1 {
		k++
	}
	return k
}

func root(width int) int {
	// width is 2^k - 1
	return width / 2
}

func left(x int) int  { return x - 1<<(level(x)-1) }
func right(x int) int { return x + 1<<(level(x)-1) }

// inSubtree reports whether leaf node index l is below (or equal to) node x.
func inSubtree(x, l int) bool {
	h := 1<<level(x) - 1
	return l >= x-h && l <= x+h
}

func (t Tree) parentOf(x int) (int, bool) {
	if x == root(len(t)) {
		return 0, false
	}
	k := level(x)
	// the parent has level k+1, and is x ± 2^k
	if p := x + 1<<k; level(p) == k+1 {
		return p, true
	}
	return x - 1<<k, true
}

func (t Tree) siblingOf(x int) int {
	p, _ := t.parentOf(x)
	if x < p {
		return right(p)
	}
	return left(p)
}

// DirectPath lists the ancestors of x, lowest first.
func (t Tree) DirectPath(x int) []int {
	var out []int
	for {
		p, ok := t.parentOf(x)
		if !ok {
			return out
		}
		out = append(out, p)
		x = p
	}
}

func (t Tree) Leaf(li uint32) *LeafNode {
	if li >= t.Leaves() {
		return nil
	}
	n := t[2*li]
	if n == nil {
		return nil
	}
	return n.Leaf
}

// Members lists the non-blank leaves.
func (t Tree) Members() []uint32 {
	var out []uint32
	for li := uint32(0); li < t.Leaves(); li++ {
		if t.Leaf(li) != nil {
			out = append(out, li)
		}
	}
	return out
}

func (t Tree) Resolution(x int) []int {
	n := t[x]
	if n != nil {
		out := []int{x}
		if n.Parent != nil {
			for _, u := range n.Parent.Unmerged {
				out = append(out, int(2*u))
			}
		}
		return out
	}
	if x%2 == 0 {
		return nil
	}
	return append(t.Resolution(left(x)), t.Resolution(right(x))...)
}

// FilteredPath lists the filtered direct path of a leaf with, for each entry,
// its copath child.
func (t Tree) FilteredPath(li uint32) (path, copath []int) {
	x := int(2 * li)
	for {
		p, ok := t.parentOf(x)
		if !ok {
			return
		}
		s := t.siblingOf(x)
		if len(t.Resolution(s)) > 0 {
			path = append(path, p)
			copath = append(copath, s)
		}
		x = p
	}
}

func (t Tree) hash(cs Suite, x int, exclude []uint32) []byte {
	var w W
	n := t[x]
	if x%2 == 0 {
		li := uint32(x / 2)
		w.U8(1)
		w.U32(li)
		present := n != nil && !slices.Contains(exclude, li)
		w.Bool(present)
		if present {
			n.Leaf.write(&w)
		}
		return cs.Hash(w.B)
	}
	w.U8(2)
	w.Bool(n != nil)
	if n != nil {
		n.Parent.write(&w, exclude)
	}
	w.Vec(t.hash(cs, left(x), exclude))
	w.Vec(t.hash(cs, right(x), exclude))
	return cs.Hash(w.B)
}

func (p *Parent) write(w *W, exclude []uint32) {
	w.Vec(p.EncKey)
	w.Vec(p.ParentHash)
	w.Sub(func(w *W) {
		for _, u := range p.Unmerged {
			if !slices.Contains(exclude, u) {
				w.U32(u)
			}
		}
	})
}

func (t Tree) RootHash(cs Suite) []byte { return t.hash(cs, root(len(t)), nil) }

func (p *Parent) hashParent(cs Suite, sibling []byte) []byte {
	var w W
	w.Vec(p.EncKey)
	w.Vec(p.ParentHash)
	w.Vec(sibling)
	return cs.Hash(w.B)
}

// Add places a leaf in the leftmost blank slot, growing the tree if needed.
func (t Tree) Add(leaf *LeafNode) (Tree, uint32) {
	t = t.Clone()
	li := uint32(0)
	for li < t.Leaves() && t.Leaf(li) != nil {
		li++
	}
	if li == t.Leaves() {
		for n := 2*len(t) + 1; len(t) < n; {
			t = append(t, nil)
		}
	}
	for _, p := range t.DirectPath(int(2 * li)) {
		if t[p] != nil {
			np := *t[p].Parent
			np.Unmerged = append(slices.Clone(np.Unmerged), li)
			slices.Sort(np.Unmerged)
			t[p] = &Node{Parent: &np}
		}
	}
	t[2*li] = &Node{Leaf: leaf}
	return t, li
}

func (t Tree) Update(li uint32, leaf *LeafNode) Tree {
	t = t.Clone()
	t[2*li] = &Node{Leaf: leaf}
	for _, p := range t.DirectPath(int(2 * li)) {
		t[p] = nil
	}
	return t
}

func (t Tree) Remove(li uint32) Tree {
	t = t.Clone()
	t[2*li] = nil
	for _, p := range t.DirectPath(int(2 * li)) {
		t[p] = nil
	}
	for len(t) > 1 {
		half := root(len(t)) + 1
		blank := true
		for _, n := range t[half:] {
			if n != nil {
				blank = false
			}
		}
		if !blank {
			break
		}
		t = t[:half-1]
	}
	return t.Clone()
}

// Encode writes the ratchet tree extension.
func (t Tree) Encode() []byte {
	end := len(t)
	for end > 0 && t[end-1] == nil {
		end--
	}
	return t.EncodeN(end)
}

// EncodeN writes the first n entries of the tree.
func (t Tree) EncodeN(n int) []byte {
	var w W
	w.Sub(func(w *W) {
		for _, n := range t[:n] {
			w.Bool(n != nil)
			if n == nil {
				continue
			}
			if n.Leaf != nil {
				w.U8(1)
				n.Leaf.write(w)
			} else {
				w.U8(2)
				n.Parent.write(w, nil)
			}
		}
	})
	return w.B
}

func ParseTree(raw []byte) (Tree, error) {
	r := &R{B: raw}
	var t Tree
	r.Sub(func(r *R) {
		if !r.Bool() {
			t = append(t, nil)
			return
		}
		switch k := r.U8(); k {
		case 1:
			l := new(LeafNode)
			l.read(r)
			t = append(t, &Node{Leaf: l})
		case 2:
			p := &Parent{EncKey: r.Vec(), ParentHash: r.Vec()}
			r.Sub(func(r *R) { p.Unmerged = append(p.Unmerged, r.U32()) })
			t = append(t, &Node{Parent: p})
		default:
			r.fail(fmt.Errorf("ref: node type %d", k))
		}
	})
	if err := r.Done(); err != nil {
		return nil, err
	}
	if len(t) == 0 || t[len(t)-1] == nil {
		return nil, errors.New("ref: tree ends with a blank node")
	}
	for i, n := range t {
		if n != nil && (n.Leaf != nil) != (i%2 == 0) {
			return nil, errors.New("ref: node type does not match position")
		}
	}
	for (len(t)+1)&len(t) != 0 {
		t = append(t, nil)
	}
	return t, nil
}

// Validate checks a tree received while joining: tree hash, parent hashes,
// leaf signatures, key uniqueness and unmerged leaves.
func (t Tree) Validate(ctx *GroupContext) error {
	cs := ctx.CS
	if !bytes.Equal(t.RootHash(cs), ctx.TreeHash) {
		return errors.New("ref: tree hash")
	}
	enc := map[string]bool{}
	sig := map[string]bool{}
	for i, n := range t {
		if n == nil {
			continue
		}
		if !cs.ValidHPKE(t.encKey(i)) {
			return fmt.Errorf("ref: malformed key at node %d", i)
		}
		if n.Leaf != nil {
			if !n.Leaf.VerifyLeafSig(cs, ctx.GroupID, uint32(i/2)) {
				return fmt.Errorf("ref: leaf %d signature", i/2)
			}
			if sig[string(n.Leaf.SigKey)] || enc[string(n.Leaf.EncKey)] {
				return errors.New("ref: duplicate key")
			}
			sig[string(n.Leaf.SigKey)] = true
			enc[string(n.Leaf.EncKey)] = true
			continue
		}
		if enc[string(n.Parent.EncKey)] {
			return errors.New("ref: duplicate key")
		}
		enc[string(n.Parent.EncKey)] = true
		for j := 1; j < len(n.Parent.Unmerged); j++ {
			if n.Parent.Unmerged[j-1] >= n.Parent.Unmerged[j] {
				return errors.New("ref: unmerged leaves not sorted")
			}
		}
		for _, u := range n.Parent.Unmerged {
			if t.Leaf(u) == nil || !inSubtree(i, int(2*u)) {
				return errors.New("ref: unmerged leaf")
			}
			for _, p := range t.DirectPath(int(2 * u)) {
				if p == i {
					break
				}
				if t[p] != nil && !slices.Contains(t[p].Parent.Unmerged, u) {
					return errors.New("ref: unmerged leaf missing below")
				}
			}
		}
	}
	if err := t.verifySupport(); err != nil {
		return err
	}
	for i, n := range t {
		if n != nil && n.Parent != nil && !t.parentHashValid(cs, i) {
			return fmt.Errorf("ref: parent hash at %d", i)
		}
	}
	return nil
}

// verifySupport checks that every leaf lists the extensions it has, and that
// every member supports the credentials of all others.
func (t Tree) verifySupport() error {
	for _, a := range t.Members() {
		l := t.Leaf(a)
		for _, x := range l.Exts {
			if !slices.Contains(l.Caps[2], x.Type) {
				return fmt.Errorf("ref: leaf %d has an extension it does not list", a)
			}
		}
		for _, b := range t.Members() {
			if !slices.Contains(t.Leaf(b).Caps[4], l.Cred.Type) {
				return fmt.Errorf("ref: leaf %d does not support the credential of leaf %d", b, a)
			}
		}
	}
	return nil
}

// parentHashValid implements RFC 9420 section 7.9.2 for one parent node.
func (t Tree) parentHashValid(cs Suite, x int) bool {
	p := t[x].Parent
	try := func(c, s int) bool {
		want := p.hashParent(cs, t.hash(cs, s, p.Unmerged))
		for _, d := range t.Resolution(c) {
			var h []byte
			if t[d].Leaf != nil {
				if t[d].Leaf.Source != SourceCommit {
					continue
				}
				h = t[d].Leaf.ParentHash
			} else {
				h = t[d].Parent.ParentHash
			}
			if !bytes.Equal(h, want) {
				continue
			}
			// P.unmerged ∩ subtree(C) must equal resolution(C) minus D
			var a, b []int
			for _, u := range p.Unmerged {
				if inSubtree(c, int(2*u)) {
					a = append(a, int(2*u))
				}
			}
			for _, y := range t.Resolution(c) {
				if y != d {
					b = append(b, y)
				}
			}
			slices.Sort(a)
			slices.Sort(b)
			if slices.Equal(a, b) {
				return true
			}
		}
		return false
	}
	l, r := left(x), right(x)
	return try(l, r) != try(r, l)
}

// CommonAncestor returns the lowest common ancestor of two distinct leaves.
func (t Tree) CommonAncestor(a, b uint32) int {
	return commonAncestor(a, b)
}

func commonAncestor(a, b uint32) int {
	// the nodes of level k have 2^k leaves below them
	k := 1
	for a>>k != b>>k {
		k++
	}
	return int(a>>k)<<(k+1) | (1<<k - 1)
}

// LeafKey returns the signature key of a leaf, or nil.
func (t Tree) LeafKey(li uint32) []byte {
	if l := t.Leaf(li); l != nil {
		return l.SigKey
	}
	return nil
}
