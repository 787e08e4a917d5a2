package main

import (
	"strings"
	"regexp/syntax"
)

// Regular expressions: patterns that match texts of one fixed length get an exact meaning
// (which bytes may stand at which position); all others are uninterpreted predicates of the text.

type bytes256 [256]bool

type rxShape struct {
	begin, end bool // anchored
	pos        []bytes256
}

func byteSet(s string) *bytes256 {
	var b bytes256
	for i := 0; i < len(s); i++ {
		b[s[i]] = true
	}
	return &b
}

// inBytes: the byte x is in the set.
func inBytes(x *Term, b *bytes256) *Term {
	var or []*Term
	for lo := 0; lo < 256; lo++ {
		if !b[lo] {
			continue
		}
		hi := lo
		for hi < 255 && b[hi+1] {
			hi++
		}
		if lo == hi {
			or = append(or, tEq(x, tInt(int64(lo))))
		} else {
			or = append(or, tAnd(tLe(tInt(int64(lo)), x), tLe(x, tInt(int64(hi)))))
		}
		lo = hi
	}
	return tOr(or...)
}

// rxShapeOf is nil for patterns without a fixed length over ASCII.
func rxShapeOf(pattern string) *rxShape {
	re, err := syntax.Parse(pattern, syntax.Perl)
	if err != nil {
		return nil
	}
	sh := &rxShape{}
	if !sh.add(re.Simplify(), false) || len(sh.pos) == 0 || len(sh.pos) > 256 {
		return nil
	}
	return sh
}

func (sh *rxShape) add(re *syntax.Regexp, inner bool) bool {
	if sh.end {
		return re.Op == syntax.OpEmptyMatch
	}
	switch re.Op {
	case syntax.OpEmptyMatch:
		return true
	case syntax.OpLiteral:
		if re.Flags&syntax.FoldCase != 0 {
			return false
		}
		for _, r := range re.Rune {
			if r >= 128 {
				return false
			}
			var b bytes256
			b[r] = true
			sh.pos = append(sh.pos, b)
		}
		return true
	case syntax.OpCharClass:
		var b bytes256
		for i := 0; i+1 < len(re.Rune); i += 2 {
			if re.Rune[i+1] >= 128 {
				return false
			}
			for r := re.Rune[i]; r <= re.Rune[i+1]; r++ {
				b[r] = true
			}
		}
		sh.pos = append(sh.pos, b)
		return true
	case syntax.OpConcat:
		for _, s := range re.Sub {
			if !sh.add(s, inner) {
				return false
			}
		}
		return true
	case syntax.OpCapture:
		return sh.add(re.Sub[0], true)
	case syntax.OpRepeat:
		if re.Min != re.Max {
			return false
		}
		for i := 0; i < re.Min; i++ {
			if !sh.add(re.Sub[0], true) {
				return false
			}
		}
		return true
	case syntax.OpBeginText:
		if inner || len(sh.pos) > 0 {
			return false
		}
		sh.begin = true
		return true
	case syntax.OpEndText:
		if inner || re.Flags&syntax.WasDollar != 0 && re.Flags&syntax.OneLine == 0 {
			return false
		}
		sh.end = true
		return true
	}
	return false
}

// at states that the text s has the shape at offset k.
func (sh *rxShape) at(s, k *Term) *Term {
	c := []*Term{tLe(tInt(0), k), tLe(tAdd(k, tInt(int64(len(sh.pos)))), tSlen(s))}
	for i := range sh.pos {
		c = append(c, inBytes(tAt2(s, tAdd(k, tInt(int64(i)))), &sh.pos[i]))
	}
	return tAnd(c...)
}

// tAt2 looks through concatenations with texts of known length.
func tAt2(s, i *Term) *Term {
	if s.kind == 'a' && s.op == "cat" && i.isInt() {
		l := tSlen(s.args[0])
		if tLt(i, l).isTrue() {
			return tAt2(s.args[0], i)
		}
		if tLe(l, i).isTrue() {
			return tAt2(s.args[1], tSub(i, l))
		}
	}
	return tAt(s, i)
}

func plainByte(x *Term) *Term { return tAnd(tLe(tInt(33), x), tLe(x, tInt(126))) }

// trimSpace is strings.TrimSpace; a composed text that provably starts and ends with plain characters stays as it is.
func (ex *Exec) trimSpace(s *Term) *Term {
	if s.isStr() {
		return tStrLit(strings.TrimSpace(s.op))
	}
	n := tSlen(s)
	if s.kind == 'a' && s.op == "cat" && ex.provable(tAnd(tLe(tInt(1), n), plainByte(tAt2(s, tInt(0))), plainByte(tAt2(s, tSub(n, tInt(1)))))) {
		return s
	}
	return tApp("trimspace", sStr, s)
}

func init() {
	groundFuns["rxmatch"] = func(u *Term) []*Term {
		if !u.args[0].isStr() {
			return nil
		}
		sh := rxShapeOf(u.args[0].op)
		if sh == nil {
			return nil
		}
		s := u.args[1]
		n := tInt(int64(len(sh.pos)))
		last := tSub(tSlen(s), n)
		switch {
		case sh.begin && sh.end:
			return []*Term{tApp("=", sBool, u, tAnd(tEq(last, tInt(0)), sh.at(s, tInt(0))))}
		case sh.begin:
			return []*Term{tApp("=", sBool, u, sh.at(s, tInt(0)))}
		case sh.end:
			return []*Term{tApp("=", sBool, u, sh.at(s, last))}
		}
		k := tApp("rxpos", sInt, u.args[0], s)
		return []*Term{tImp(u, sh.at(s, k)), tImp(sh.at(s, tInt(0)), u), tImp(sh.at(s, last), u)}
	}
	groundFuns["trimspace"] = func(u *Term) []*Term {
		s := u.args[0]
		n := tSlen(s)
		return []*Term{
			tLe(tApp("slen", sInt, u), n),
			tImp(tAnd(tLe(tInt(1), n), plainByte(tAt2(s, tInt(0))), plainByte(tAt2(s, tSub(n, tInt(1))))), tApp("=", sBool, u, s)),
		}
	}
}
