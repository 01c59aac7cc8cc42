package main

import (
	"bytes"
	"fmt"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

func node(a, b []byte) []byte { return oracle.DSha(append(append([]byte{}, a...), b...)) }

// levels of Bitcoin's tree, bottom first.
func levels(l [][]byte) [][][]byte {
	out := [][][]byte{l}
	for len(l) > 1 {
		var n [][]byte
		for i := 0; i < len(l); i += 2 {
			j := i + 1
			if j == len(l) {
				j = i
			}
			n = append(n, node(l[i], l[j]))
		}
		l = n
		out = append(out, l)
	}
	return out
}

func fold(leaf []byte, path []xcrypto.Node) ([]byte, bool) {
	for _, n := range path {
		switch n.Position {
		case "left":
			leaf = node(n.Hash, leaf)
		case "right":
			leaf = node(leaf, n.Hash)
		default:
			return nil, false
		}
		if !bytes.Equal(n.Parent, leaf) {
			return nil, false
		}
	}
	return leaf, true
}

func copyPath(p []xcrypto.Node) []xcrypto.Node {
	var r []xcrypto.Node
	for _, n := range p {
		r = append(r, xcrypto.Node{Hash: append([]byte{}, n.Hash...), Parent: append([]byte{}, n.Parent...), Position: n.Position})
	}
	return r
}

func check(leaves [][]byte, which []int, mut func(path []xcrypto.Node) ([]xcrypto.Node, string)) string {
	keep := fmt.Sprintf("%x", leaves)
	lv := levels(leaves)
	root := lv[len(lv)-1][0]
	m := xcrypto.NewMerkle(leaves)
	if !bytes.Equal(m.Root(), root) {
		return fmt.Sprintf("%d leaves: root %x, should be %x", len(leaves), m.Root(), root)
	}
	if fmt.Sprintf("%x", leaves) != keep {
		return "the leaves were changed"
	}
	for _, i := range which {
		path := m.Proofs(leaves[i])
		// expected siblings, bottom up
		idx := i
		if len(path) != len(lv)-1 {
			return fmt.Sprintf("leaf %d of %d: proof of %d steps, should be %d", i, len(leaves), len(path), len(lv)-1)
		}
		for k := 0; k+1 < len(lv); k++ {
			sib := idx ^ 1
			if sib >= len(lv[k]) {
				sib = idx
			}
			pos := "right"
			if idx%2 == 1 {
				pos = "left"
			}
			if !bytes.Equal(path[k].Hash, lv[k][sib]) || path[k].Position != pos || !bytes.Equal(path[k].Parent, lv[k+1][idx/2]) {
				return fmt.Sprintf("leaf %d of %d: step %d is %s %x parent %x, should be %s %x parent %x", i, len(leaves), k, path[k].Position, path[k].Hash, path[k].Parent, pos, lv[k][sib], lv[k+1][idx/2])
			}
			idx /= 2
		}
		if !m.Verify(leaves[i], root, path) {
			return fmt.Sprintf("leaf %d of %d: own proof refused", i, len(leaves))
		}
		for j := 0; j < 4; j++ {
			p, what := mut(copyPath(path))
			leaf, rt := leaves[i], root
			if what == "leaf" {
				leaf = append([]byte{}, leaf...)
				leaf[j]++
			}
			if what == "root" {
				rt = append([]byte{}, rt...)
				rt[31-j] ^= 0x80
			}
			if what == "ownparent" && len(p) > 0 {
				rt = append([]byte{}, p[len(p)-1].Parent...)
			}
			got, ok := fold(leaf, p)
			want := ok && bytes.Equal(got, rt)
			if m.Verify(leaf, rt, p) != want {
				return fmt.Sprintf("leaf %d of %d, %s changed: accepted is %v; leaf %x root %x path %+v", i, len(leaves), what, !want, leaf, rt, p)
			}
		}
	}
	return ""
}

func main() {
	h.Main("C16", func(t *h.T) {
		mut := func(p []xcrypto.Node) ([]xcrypto.Node, string) {
			if len(p) == 0 {
				return p, []string{"leaf", "root"}[t.R.Intn(2)]
			}
			k := t.R.Intn(len(p))
			last := p[len(p)-1].Parent
			switch t.R.Intn(10) {
			case 0:
				return p, "leaf"
			case 1:
				return p, "root"
			case 2:
				p[k].Hash[t.R.Intn(len(p[k].Hash))] ^= 1 << uint(t.R.Intn(8))
				return p, "hash"
			case 3:
				p[k].Parent[t.R.Intn(32)] ^= 1
				return p, "parent"
			case 4:
				if p[k].Position == "left" {
					p[k].Position = "right"
				} else {
					p[k].Position = "left"
				}
				return p, "position"
			case 5:
				p[k].Position = []string{"", "LEFT", "middle"}[t.R.Intn(3)]
				return p, "position name"
			case 6:
				return append(p[:k], p[k+1:]...), "missing step"
			case 7:
				return append(p, p[k]), "extra step"
			case 8:
				// claims the root as the parent of the last step
				p[len(p)-1].Hash[3] ^= 4
				p[len(p)-1].Parent = last
				return p, "ownparent"
			}
			return p[:len(p)-1], "short"
		}
		all := func(n int) []int {
			var r []int
			for i := 0; i < n; i++ {
				r = append(r, i)
			}
			return r
		}
		gen := func(n int) [][]byte {
			var l [][]byte
			for i := 0; i < n; i++ {
				b := t.Bytes(32)
				b[30], b[29], b[28] = byte(i), byte(i>>8), 7
				l = append(l, b)
			}
			return l
		}
		for n := 1; n <= 130; n++ {
			l := gen(n)
			t.Case("tree", fmt.Sprintf("%d leaves", n), func() string { return check(l, all(n), mut) })
		}
		for i := 0; i < t.N(60) && t.Time(0.6); i++ {
			n := 1 + t.R.Intn(3000)
			if t.R.Intn(3) == 0 {
				n = []int{255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049}[t.R.Intn(12)]
			}
			l := gen(n)
			w := []int{0, n - 1, n / 2, t.R.Intn(n), t.R.Intn(n)}
			t.Case("tree", fmt.Sprintf("%d leaves (%d)", n, i), func() string { return check(l, w, mut) })
		}
		// equal leaves: the proof of the first of them
		for i := 0; i < t.N(300); i++ {
			n := 1 + t.R.Intn(20)
			l := gen(n)
			a, b := t.R.Intn(n), t.R.Intn(n)
			l[b] = l[a]
			t.Case("equal leaves", fmt.Sprintf("%d leaves, %d=%d", n, a, b), func() string {
				lv := levels(l)
				m := xcrypto.NewMerkle(l)
				root := lv[len(lv)-1][0]
				if !bytes.Equal(m.Root(), root) {
					return fmt.Sprintf("root %x, should be %x", m.Root(), root)
				}
				if p := m.Proofs(l[a]); !m.Verify(l[a], root, p) {
					return "own proof refused"
				}
				return ""
			})
			t.Case("unknown leaf", fmt.Sprintf("%d leaves", n), func() string {
				m := xcrypto.NewMerkle(l)
				x := t.Bytes(32)
				x[28] = 9
				if p := m.Proofs(x); n > 1 && m.Verify(x, m.Root(), p) {
					return "proof for a leaf that is not there"
				}
				return ""
			})
		}
	})
}
