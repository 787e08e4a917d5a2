package main

import (
	"math/big"
	"regexp/syntax"
	"strings"
)

// Texts composed of literals and other pieces: exact splitting, matching of anchored patterns made of
// runs of character classes, and the digits of math/big numbers.

// pieces are the parts of a concatenation.
func pieces(s *Term) []*Term {
	if s.kind == 'a' && s.op == "cat" {
		return append(pieces(s.args[0]), pieces(s.args[1])...)
	}
	if s.isStr() && s.op == "" {
		return nil
	}
	return []*Term{s}
}

func catAll(ps []*Term) *Term {
	r := tStrLit("")
	for i := len(ps) - 1; i >= 0; i-- {
		r = tCat(ps[i], r)
	}
	return r
}

const digits62 = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

// alphabet is a set of bytes s is made of, nil when none is known from its form.
func alphabet(s *Term) *bytes256 {
	switch {
	case s.isStr():
		return byteSet(s.op)
	case s.kind == 'a' && s.op == "repeat" && s.args[0].isStr():
		return byteSet(s.args[0].op)
	case s.kind == 'a' && s.op == "bigText" && s.args[1].isInt() && natural(s.args[0]):
		if b := s.args[1].big.Int64(); 2 <= b && b <= 62 {
			return byteSet(digits62[:b])
		}
	case s.kind == 'a' && s.op == "hex":
		return byteSet("0123456789abcdef")
	}
	return nil
}

// natural: the number is not negative by its form.
func natural(v *Term) bool {
	return v.kind == 'a' && v.op == "bigOf" || v.isInt() && v.big.Sign() >= 0
}

func contains(s, sep *Term) *Term { return tApp("strcontains", sBool, s, sep) }

// lacks: the piece provably has no sep in it.
func (ex *Exec) lacks(s, sep *Term) bool {
	if a := alphabet(s); a != nil {
		for i := 0; i < len(sep.op); i++ {
			if !a[sep.op[i]] {
				return true
			}
		}
		if s.isStr() {
			return !strings.Contains(s.op, sep.op)
		}
	}
	return ex.provable(tNot(contains(s, sep)))
}

// splitText splits a composed text around the one-byte literal sep in at most n parts (n < 0: all);
// nil when a piece before the last split may hold a separator itself.
func (ex *Exec) splitText(s, sep *Term, n int) []*Term {
	ps := pieces(s)
	if !sep.isStr() || len(sep.op) != 1 || n == 0 || len(ps) < 2 && !s.isStr() {
		return nil
	}
	found := false
	for _, p := range ps {
		if p.isStr() && strings.Contains(p.op, sep.op) {
			found = true
		}
	}
	if !found {
		return nil
	}
	var parts []*Term
	cur := tStrLit("")
	for i, p := range ps {
		if n > 0 && len(parts) == n-1 {
			parts = append(parts, tCat(cur, catAll(ps[i:])))
			return parts
		}
		if !p.isStr() {
			if !ex.lacks(p, sep) {
				return nil
			}
			cur = tCat(cur, p)
			continue
		}
		rest := p.op
		for n < 0 || len(parts) < n-1 {
			j := strings.Index(rest, sep.op)
			if j < 0 {
				break
			}
			parts = append(parts, tCat(cur, tStrLit(rest[:j])))
			cur = tStrLit("")
			rest = rest[j+1:]
		}
		cur = tCat(cur, tStrLit(rest))
	}
	return append(parts, cur)
}

// cutFacts relates the parts of s split around the literal sep in at most n parts with s.
func (ex *Exec) cutFacts(s, sep, arr, l *Term, n int) {
	if !sep.isStr() || sep.op == "" || n < 2 {
		return
	}
	ex.fact(tEq(tEq(l, tInt(1)), tNot(contains(s, sep))))
	for m := 2; m <= n; m++ {
		c := []*Term{}
		var ps []*Term
		for i := 0; i < m; i++ {
			e := tSelect(arr, tInt(int64(i)))
			if i > 0 {
				ps = append(ps, sep)
			}
			ps = append(ps, e)
			if i < n-1 {
				c = append(c, tNot(contains(e, sep)))
			}
		}
		c = append(c, tEq(s, catAll(ps)))
		ex.fact(tImp(tEq(l, tInt(int64(m))), tAnd(c...)))
	}
}

// storeParts makes the parts the elements of a new slice.
func (ex *Exec) storeParts(st *State, parts []*Term) VSlice {
	r := ex.alloc(st)
	for i, p := range parts {
		st.h.storeElem(strT(), r, tInt(int64(i)), VT{p, strT()})
	}
	n := tInt(int64(len(parts)))
	return VSlice{base: r, off: tInt(0), len: n, cap: n, elem: strT()}
}

// ---- runs of character classes ----

type rxRun struct {
	set      bytes256
	min, max int // max < 0: unbounded
}

// rxRunsOf reads a pattern that is anchored on both sides and a sequence of runs such that neighbours
// have no byte in common: a text has at most one decomposition into them. nil for all other patterns.
func rxRunsOf(pattern string) []rxRun {
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil || re.Op != syntax.OpConcat || len(re.Sub) < 3 {
		return nil
	}
	a, z := re.Sub[0], re.Sub[len(re.Sub)-1]
	if a.Op != syntax.OpBeginText || z.Op != syntax.OpEndText {
		return nil
	}
	var runs []rxRun
	class := func(re *syntax.Regexp) (b bytes256, ok bool) {
		if re.Op != syntax.OpCharClass {
			return b, false
		}
		for i := 0; i+1 < len(re.Rune); i += 2 {
			if re.Rune[i+1] >= 128 {
				return b, false
			}
			for r := re.Rune[i]; r <= re.Rune[i+1]; r++ {
				b[r] = true
			}
		}
		return b, true
	}
	add := func(r rxRun) {
		if n := len(runs); n > 0 && runs[n-1].set == r.set && runs[n-1].max >= 0 && r.max >= 0 {
			runs[n-1].min += r.min
			runs[n-1].max += r.max
			return
		}
		runs = append(runs, r)
	}
	for _, s := range re.Sub[1 : len(re.Sub)-1] {
		for s.Op == syntax.OpCapture {
			s = s.Sub[0]
		}
		lo, hi := 1, 1
		switch s.Op {
		case syntax.OpLiteral:
			if s.Flags&syntax.FoldCase != 0 {
				return nil
			}
			for _, r := range s.Rune {
				if r >= 128 {
					return nil
				}
				var b bytes256
				b[r] = true
				add(rxRun{b, 1, 1})
			}
			continue
		case syntax.OpPlus:
			lo, hi, s = 1, -1, s.Sub[0]
		case syntax.OpRepeat:
			lo, hi, s = s.Min, s.Max, s.Sub[0]
		}
		b, ok := class(s)
		if !ok || lo < 1 {
			return nil
		}
		add(rxRun{b, lo, hi})
	}
	for i := 1; i < len(runs); i++ {
		for c := 0; c < 256; c++ {
			if runs[i].set[c] && runs[i-1].set[c] {
				return nil
			}
		}
	}
	return runs
}

func subset(a, b *bytes256) bool {
	for c := 0; c < 256; c++ {
		if a[c] && !b[c] {
			return false
		}
	}
	return true
}

// matchPieces decides a pattern of runs for a composed text whose pieces have known alphabets; nil if it
// cannot tell.
func matchPieces(pattern string, s *Term) *Term {
	runs := rxRunsOf(pattern)
	if runs == nil {
		return nil
	}
	var ps []*Term
	for _, p := range pieces(s) {
		if p.isStr() {
			for i := range p.op {
				ps = append(ps, tStrLit(p.op[i:i+1]))
			}
			continue
		}
		ps = append(ps, p)
	}
	at := -1
	sum := make([]*Term, len(runs))
	for i := range sum {
		sum[i] = tInt(0)
	}
	for _, p := range ps {
		a := alphabet(p)
		if a == nil {
			return nil
		}
		if at < 0 || !subset(a, &runs[at].set) {
			at++
		}
		if at == len(runs) || !subset(a, &runs[at].set) {
			return nil
		}
		sum[at] = tAdd(sum[at], tSlen(p))
	}
	var c []*Term
	for i, r := range runs {
		c = append(c, tLe(tInt(int64(r.min)), sum[i]))
		if r.max >= 0 {
			c = append(c, tLe(sum[i], tInt(int64(r.max))))
		}
	}
	return tAnd(c...)
}

// matchFacts are consequences of (not) matching that need no knowledge of the text.
func (ex *Exec) matchFacts(pattern string, u, s *Term) {
	if runs := rxRunsOf(pattern); runs != nil {
		lo, hi := 0, 0
		for _, r := range runs {
			lo += r.min
			if r.max < 0 || hi < 0 {
				hi = -1
			} else {
				hi += r.max
			}
			for c := 0; c < 128; c++ {
				var one bytes256
				if one[c] = true; one == r.set {
					ex.fact(tImp(u, contains(s, tStrLit(string(rune(c))))))
				}
			}
		}
		ex.fact(tImp(u, tLe(tInt(int64(lo)), tSlen(s))))
		if hi >= 0 {
			ex.fact(tImp(u, tLe(tSlen(s), tInt(int64(hi)))))
		}
		for _, c := range "_.-~:/ " {
			in := false
			for _, r := range runs {
				in = in || r.set[c]
			}
			if !in {
				ex.fact(tImp(u, tNot(contains(s, tStrLit(string(c))))))
			}
		}
		return
	}
	// one forbidden class: no match means that no byte of the class occurs
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil || re.Op != syntax.OpCharClass {
		return
	}
	ex.fact(tImp(u, tLe(tInt(1), tSlen(s))))
	in := func(c rune) bool {
		for i := 0; i+1 < len(re.Rune); i += 2 {
			if re.Rune[i] <= c && c <= re.Rune[i+1] {
				return true
			}
		}
		return false
	}
	for _, c := range "_.-~:/ " {
		if in(c) {
			ex.fact(tImp(contains(s, tStrLit(string(c))), u))
		}
	}
}

// ---- numbers ----

// digitsFor is the number of digits the largest n-byte number has in base b.
func digitsFor(n, b int64) int64 {
	m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*n)), big.NewInt(1))
	return int64(len(m.Text(int(b))))
}

// bigTextOf is the text of v in base b.
func (ex *Exec) bigTextOf(v, b *Term) *Term {
	t := tApp("bigText", sStr, v, b)
	ex.fact(tLe(tInt(1), tSlen(t)))
	if v.kind == 'a' && v.op == "bigOf" && b.isInt() && 2 <= b.big.Int64() && b.big.Int64() <= 62 {
		if l := tSlen(v.args[0]); l.isInt() && l.big.Int64() < 512 {
			ex.fact(tLe(tSlen(t), tInt(digitsFor(l.big.Int64(), b.big.Int64()))))
		}
	}
	return t
}

// bigParsed is the number a text written as leading zeros and the digits of a number stands for.
func bigParsed(s, b *Term) *Term {
	ps := pieces(s)
	for i, p := range ps {
		switch {
		case p.isStr() && strings.Trim(p.op, "0") == "":
		case p.kind == 'a' && p.op == "repeat" && p.args[0].isStr() && strings.Trim(p.args[0].op, "0") == "":
		case i == len(ps)-1 && p.kind == 'a' && p.op == "bigText" && p.args[1] == b && natural(p.args[0]):
			return p.args[0]
		default:
			return nil
		}
	}
	return nil
}

// bigBytes is v in n bytes, big endian; v is known to fit.
func bigBytes(v, n *Term) *Term {
	if v.kind == 'a' && v.op == "bigOf" && tSlen(v.args[0]) == n {
		return v.args[0]
	}
	return tApp("bigBytes", sStr, v, n)
}

func init() {
	// key derivation is ideal for secrets of one length (HMAC pads its key with zeros, so "a" and "a\0" are
	// the same key): what it gives out determines secret, salt and info
	groundFuns["hkdf"] = func(u *Term) []*Term {
		r := []*Term{tEq(tApp("inv0hkdf", sStr, u, tSlen(u.args[0])), u.args[0])}
		for i := 1; i < 3; i++ {
			r = append(r, tEq(tApp("inv"+string(rune('0'+i))+"hkdf", sStr, u), u.args[i]))
		}
		return r
	}
	// texts that carry their length
	for op, i := range lenArg {
		op, i := op, i
		groundFuns[op] = func(u *Term) []*Term {
			r := []*Term{tApp("=", sBool, tApp("slen", sInt, u), u.args[i])}
			if n := u.args[i]; op == "readfull" && n.isInt() && n.big.Int64() >= 16 {
				r = append(r, tEq(tApp("inv!readfull", sStr, u, u.args[2]), u.args[0]))
			}
			return r
		}
	}
}
