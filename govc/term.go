package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Term is a hash-consed SMT term.
type Term struct {
	op   string // symbol, function name or literal
	kind byte   // 'v' variable, 'i' int literal, 's' string literal, 'b' bool literal, 'a' application, 'q' quantifier
	args []*Term
	sort string
	id   int
	big  *big.Int // for int literals
	vars []*Term  // quantifier bound variables
	pats []*Term
	free []*Term // free bound variables occurring (for quantified bodies)
}

const (
	sBool  = "Bool"
	sInt   = "Int"
	sStr   = "Str"
	sIface = "Iface"
	sReal  = "Real"
)

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

// splitArr returns key and value sorts of an array sort.
func splitArr(s string) (string, string) {
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	depth := 0
	for i, c := range s {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return s[:i], s[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

type termTable struct {
	mu sync.Mutex
	m  map[string]*Term
	n  int
}

var tt = &termTable{m: map[string]*Term{}}

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(t.kind)
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.sort)
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	if t.kind == 'q' {
		for _, v := range t.vars {
			sb.WriteByte(';')
			sb.WriteString(strconv.Itoa(v.id))
		}
		for _, v := range t.pats {
			sb.WriteByte('!')
			sb.WriteString(strconv.Itoa(v.id))
		}
	}
	k := sb.String()
	tt.mu.Lock()
	defer tt.mu.Unlock()
	if o, ok := tt.m[k]; ok {
		return o
	}
	tt.n++
	t.id = tt.n
	// free bound vars
	if t.kind == 'v' && strings.HasPrefix(t.op, "?") {
		t.free = []*Term{t}
	} else {
		seen := map[*Term]bool{}
		for _, a := range t.args {
			for _, f := range a.free {
				seen[f] = true
			}
		}
		for _, v := range t.vars {
			delete(seen, v)
		}
		for f := range seen {
			t.free = append(t.free, f)
		}
	}
	tt.m[k] = t
	return t
}

func tVar(name, srt string) *Term { return intern(&Term{op: name, kind: 'v', sort: srt}) }
func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var tTrue = intern(&Term{op: "true", kind: 'b', sort: sBool})
var tFalse = intern(&Term{op: "false", kind: 'b', sort: sBool})

func tInt(i int64) *Term { return tBig(big.NewInt(i)) }
func tBig(b *big.Int) *Term {
	return intern(&Term{op: b.String(), kind: 'i', sort: sInt, big: new(big.Int).Set(b)})
}
func tStrLit(s string) *Term { return intern(&Term{op: s, kind: 's', sort: sStr}) }

func (t *Term) isInt() bool   { return t.kind == 'i' }
func (t *Term) isStr() bool   { return t.kind == 's' }
func (t *Term) isTrue() bool  { return t == tTrue }
func (t *Term) isFalse() bool { return t == tFalse }
func (t *Term) isConst() bool { return t.kind == 'i' || t.kind == 's' || t.kind == 'b' }

func tApp(op, srt string, args ...*Term) *Term {
	return intern(&Term{op: op, kind: 'a', args: args, sort: srt})
}

func tNot(a *Term) *Term {
	if a.isTrue() {
		return tFalse
	}
	if a.isFalse() {
		return tTrue
	}
	if a.kind == 'a' && a.op == "not" {
		return a.args[0]
	}
	return tApp("not", sBool, a)
}

func tAnd(as ...*Term) *Term { return tNary("and", as) }
func tOr(as ...*Term) *Term  { return tNary("or", as) }

func tNary(op string, as []*Term) *Term {
	unit, zero := tTrue, tFalse
	if op == "or" {
		unit, zero = tFalse, tTrue
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit {
			return true
		}
		if a == zero {
			return false
		}
		if a.kind == 'a' && a.op == op {
			for _, b := range a.args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if seen[a] {
			return true
		}
		if seen[tNot(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if a.sort != sBool {
			panic("non-bool in " + op + ": " + a.String())
		}
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return tApp(op, sBool, out...)
}

func tImp(a, b *Term) *Term { return tOr(tNot(a), b) }

func tIte(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == sBool {
		return tAnd(tImp(c, a), tImp(tNot(c), b))
	}
	return tApp("ite", a.sort, c, a, b)
}

// distinctTerms reports whether a and b are syntactically known to differ.
func distinctTerms(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isConst() && b.isConst() {
		return true
	}
	if a.sort == sInt {
		// fresh allocations (negative literals) versus entry references (r!... variables are >= 0)
		an, bn := a.isInt() && a.big.Sign() < 0, b.isInt() && b.big.Sign() < 0
		if an && nonNeg(b) || bn && nonNeg(a) {
			return true
		}
		// allocations versus parts of objects
		if an && a.big.IsInt64() && a.big.Int64() > -1000000000 && strings.HasPrefix(b.op, "sub!") || bn && b.big.IsInt64() && b.big.Int64() > -1000000000 && strings.HasPrefix(a.op, "sub!") {
			return true
		}
		if an && distinctPart(a, b) || bn && distinctPart(b, a) {
			return true
		}
		// references of earlier loop iterations versus allocations of this one
		if an && olderThan(b, a) || bn && olderThan(a, b) {
			return true
		}
		// x + c vs x + d
		xa, ca := splitAdd(a)
		xb, cb := splitAdd(b)
		if xa == xb && xa != nil && ca.Cmp(cb) != 0 {
			return true
		}
	}
	if a.kind == 'a' && b.kind == 'a' && isInj(a.op) && isInj(b.op) {
		if a.op != b.op {
			return true
		}
		for i := range a.args {
			if distinctTerms(a.args[i], b.args[i]) {
				return true
			}
		}
	}
	if a.kind == 'a' && isInj(a.op) && a.sort == sIface && b == tNilIface {
		return true
	}
	if b.kind == 'a' && isInj(b.op) && b.sort == sIface && a == tNilIface {
		return true
	}
	return false
}

// olderThan: x is a loop reference that existed before lit was allocated in the loop.
func olderThan(x, lit *Term) bool {
	if x.kind != 'v' || !strings.HasPrefix(x.op, "x!lr") || !lit.big.IsInt64() {
		return false
	}
	n := int64(0)
	for i := 4; i < len(x.op) && x.op[i] >= '0' && x.op[i] <= '9'; i++ {
		n = n*10 + int64(x.op[i]-'0')
	}
	v := lit.big.Int64()
	return v < -n && v > -1000000000
}

// injective constructor-like functions with pairwise disjoint ranges.
var injective = map[string]bool{}

// isInj: registered at start-up (the map is never written while units run in parallel)
func isInj(op string) bool {
	return injective[op] || strings.HasPrefix(op, "sub!") || strings.HasPrefix(op, "errF")
}

var tNilIface = tVar("nilI", sIface)

func splitAdd(t *Term) (*Term, *big.Int) {
	if t.isInt() {
		return nil, t.big
	}
	if t.kind == 'a' && t.op == "+" && len(t.args) == 2 && t.args[1].isInt() {
		return t.args[0], t.args[1].big
	}
	return t, new(big.Int)
}

// nonNeg: terms known to be >= 0 by construction (entry references, lengths).
func nonNeg(t *Term) bool {
	if t.isInt() {
		return t.big.Sign() >= 0
	}
	if t.kind == 'v' && strings.HasPrefix(t.op, "r!") {
		return true
	}
	if t.kind == 'a' && (t.op == "slen" || t.op == "at" || t.op == "json.ref" || t.op == "json.len") {
		return true
	}
	if initSelect(t) {
		return true // reference loaded from an initial (havoced) heap map
	}
	if t.kind == 'a' && strings.HasPrefix(t.op, "sub!") {
		return nonNeg(t.args[0])
	}
	return false
}

// initSelect: a reference or length read from an initial heap map.
func initSelect(t *Term) bool {
	if t.kind != 'a' || t.op != "select" || t.sort != sInt {
		return false
	}
	for t.kind == 'a' && t.op == "select" {
		t = t.args[0]
	}
	return t.kind == 'v' && strings.HasPrefix(t.op, "HR!")
}

func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if distinctTerms(a, b) {
		return tFalse
	}
	if a.sort == sBool {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return tNot(b)
		}
		if b.isFalse() {
			return tNot(a)
		}
	}
	if a.kind == 'a' && b.kind == 'a' && a.op == b.op && isInj(a.op) {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, tEq(a.args[i], b.args[i]))
		}
		return tAnd(cs...)
	}
	if a.kind == 'a' && a.op == "ite" && b.isConst() {
		return tIte(a.args[0], tEq(a.args[1], b), tEq(a.args[2], b))
	}
	if b.kind == 'a' && b.op == "ite" && a.isConst() {
		return tIte(b.args[0], tEq(b.args[1], a), tEq(b.args[2], a))
	}
	// empty string normal form
	if a.id > b.id {
		a, b = b, a
	}
	return tApp("=", sBool, a, b)
}

func tAdd(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return tBig(new(big.Int).Add(a.big, b.big))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		if b.big.Sign() == 0 {
			return a
		}
		if x, c := splitAdd(a); x != a && x != nil {
			return tAdd(x, tBig(new(big.Int).Add(c, b.big)))
		}
	} else {
		// pull constants outwards
		xa, ca := splitAdd(a)
		xb, cb := splitAdd(b)
		if ca.Sign() != 0 || cb.Sign() != 0 {
			return tAdd(tAdd(xa, xb), tBig(new(big.Int).Add(ca, cb)))
		}
		if b.kind == 'a' && b.op == "-" && len(b.args) == 2 && b.args[1] == a {
			return b.args[0]
		}
		if a.kind == 'a' && a.op == "-" && len(a.args) == 2 && a.args[1] == b {
			return a.args[0]
		}
	}
	return tApp("+", sInt, a, b)
}

func tSub(a, b *Term) *Term {
	if a == b {
		return tInt(0)
	}
	if b.isInt() {
		return tAdd(a, tBig(new(big.Int).Neg(b.big)))
	}
	xa, ca := splitAdd(a)
	xb, cb := splitAdd(b)
	if xa == xb && xa != nil {
		return tBig(new(big.Int).Sub(ca, cb))
	}
	if a.kind == 'a' && a.op == "+" && len(a.args) == 2 {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	return tApp("-", sInt, a, b)
}

func tMul(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return tBig(new(big.Int).Mul(a.big, b.big))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		if b.big.Sign() == 0 {
			return tInt(0)
		}
		if b.big.IsInt64() && b.big.Int64() == 1 {
			return a
		}
	}
	return tApp("*", sInt, a, b)
}

func tDiv(a, b *Term) *Term { // euclidean
	if a.isInt() && b.isInt() && b.big.Sign() > 0 {
		return tBig(new(big.Int).Div(a.big, b.big))
	}
	return tApp("div", sInt, a, b)
}
func tMod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.big.Sign() > 0 {
		return tBig(new(big.Int).Mod(a.big, b.big))
	}
	return tApp("mod", sInt, a, b)
}

func tLe(a, b *Term) *Term {
	if a.isInt() && b.isInt() {
		return tBool(a.big.Cmp(b.big) <= 0)
	}
	xa, ca := splitAdd(a)
	xb, cb := splitAdd(b)
	if xa == xb && xa != nil {
		return tBool(ca.Cmp(cb) <= 0)
	}
	if a.isInt() && a.big.Sign() <= 0 && nonNeg(b) {
		return tTrue
	}
	if b.isInt() && b.big.Sign() < 0 && nonNeg(a) {
		return tFalse
	}
	return tApp("<=", sBool, a, b)
}
func tLt(a, b *Term) *Term { return tNot(tLe(b, a)) }

func tSelect(arr, idx *Term) *Term {
	for {
		if arr.kind == 'a' && arr.op == "store" {
			if arr.args[1] == idx {
				return arr.args[2]
			}
			if distinctTerms(arr.args[1], idx) {
				arr = arr.args[0]
				continue
			}
		}
		if arr.kind == 'a' && arr.op == "constarr" {
			return arr.args[0]
		}
		if arr.kind == 'a' && arr.op == "ite" {
			x, y := tSelect(arr.args[1], idx), tSelect(arr.args[2], idx)
			if x == y {
				return x
			}
		}
		break
	}
	_, v := splitArr(arr.sort)
	return tApp("select", v, arr, idx)
}

func tStore(arr, idx, val *Term) *Term {
	_, vs := splitArr(arr.sort)
	if vs != val.sort {
		panic(fmt.Sprintf("store sort mismatch: %s <- %s:%s", arr.sort, val, val.sort))
	}
	if arr.kind == 'a' && arr.op == "store" && arr.args[1] == idx {
		arr = arr.args[0]
	}
	return tApp("store", arr.sort, arr, idx, val)
}

func tConstArr(srt string, v *Term) *Term { return tApp("constarr", srt, v) }

func tForall(vars []*Term, body *Term, pats ...*Term) *Term {
	if body.isTrue() {
		return tTrue
	}
	return intern(&Term{op: "forall", kind: 'q', args: []*Term{body}, sort: sBool, vars: vars, pats: pats})
}

// substitution of bound/free variables
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		var r *Term
		if !ch {
			r = t
		} else if t.kind == 'q' {
			pats := make([]*Term, len(t.pats))
			for i, p := range t.pats {
				pats[i] = rec(p)
			}
			r = tForall(t.vars, args[0], pats...)
		} else {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "and", "or":
		return tNary(t.op, args)
	case "not":
		return tNot(args[0])
	case "=":
		return tEq(args[0], args[1])
	case "+":
		if len(args) == 2 {
			return tAdd(args[0], args[1])
		}
	case "-":
		if len(args) == 2 {
			return tSub(args[0], args[1])
		}
	case "<=":
		return tLe(args[0], args[1])
	case "select":
		return tSelect(args[0], args[1])
	case "store":
		return tStore(args[0], args[1], args[2])
	case "ite":
		return tIte(args[0], args[1], args[2])
	case "slen":
		return tSlen(args[0])
	}
	return tApp(t.op, t.sort, args...)
}

func collectVars(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.args {
			rec(a)
		}
		for _, a := range t.pats {
			rec(a)
		}
	}
	rec(t)
}

// ---- strings ----

func tSlen(s *Term) *Term {
	if s.isStr() {
		return tInt(int64(len(s.op)))
	}
	if s.kind == 'a' {
		switch s.op {
		case "cat":
			return tAdd(tSlen(s.args[0]), tSlen(s.args[1]))
		case "sub":
			return tSub(s.args[2], s.args[1])
		case "upd":
			return tSlen(s.args[0])
		}
		if n, ok := fixedLen[s.op]; ok {
			return tInt(int64(n))
		}
		if i, ok := lenArg[s.op]; ok {
			return s.args[i]
		}
	}
	return tApp("slen", sInt, s)
}

// functions whose result is a byte string of fixed length
var fixedLen = map[string]int{"sha256": 32, "blake2b256": 32, "hmacsha256": 32}

// functions one argument of which is the length of the result
var lenArg = map[string]int{"blob": 0, "bigBytes": 1, "readfull": 1}

func tCat(a, b *Term) *Term {
	if a.isStr() && b.isStr() {
		return tStrLit(a.op + b.op)
	}
	if a.isStr() && a.op == "" {
		return b
	}
	if b.isStr() && b.op == "" {
		return a
	}
	// right-associate
	if a.kind == 'a' && a.op == "cat" {
		return tCat(a.args[0], tCat(a.args[1], b))
	}
	if a.isStr() && b.kind == 'a' && b.op == "cat" && b.args[0].isStr() {
		return tCat(tStrLit(a.op+b.args[0].op), b.args[1])
	}
	return tApp("cat", sStr, a, b)
}

// tSubstr is s[i:j] (0<=i<=j<=len assumed by the caller).
func tSubstr(s, i, j *Term) *Term {
	if i == j {
		return tStrLit("")
	}
	if i.isInt() && i.big.Sign() == 0 && j == tSlen(s) {
		return s
	}
	if s.isStr() && i.isInt() && j.isInt() {
		a, b := int(i.big.Int64()), int(j.big.Int64())
		if 0 <= a && a <= b && b <= len(s.op) {
			return tStrLit(s.op[a:b])
		}
	}
	if s.kind == 'a' && s.op == "sub" {
		return tSubstr(s.args[0], tAdd(s.args[1], i), tAdd(s.args[1], j))
	}
	if s.kind == 'a' && s.op == "cat" {
		l := tSlen(s.args[0])
		if tLe(j, l).isTrue() {
			return tSubstr(s.args[0], i, j)
		}
		if tLe(l, i).isTrue() {
			return tSubstr(s.args[1], tSub(i, l), tSub(j, l))
		}
	}
	return tApp("sub", sStr, s, i, j)
}

func tAt(s, i *Term) *Term {
	if s.isStr() && i.isInt() {
		k := int(i.big.Int64())
		if 0 <= k && k < len(s.op) {
			return tInt(int64(s.op[k]))
		}
	}
	if s.kind == 'a' && s.op == "sub" {
		return tAt(s.args[0], tAdd(s.args[1], i))
	}
	if s.kind == 'a' && s.op == "upd" {
		if s.args[1] == i {
			return s.args[2]
		}
		if distinctTerms(s.args[1], i) {
			return tAt(s.args[0], i)
		}
	}
	return tApp("at", sInt, s, i)
}

func tUpd(s, i, v *Term) *Term { return tApp("upd", sStr, s, i, v) }

// ---- printing ----

func smtSym(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("~!@$%^&*_-+=<>.?/", c)) {
			return "|" + strings.ReplaceAll(strings.ReplaceAll(s, "|", "!"), "\\", "!") + "|"
		}
	}
	if s == "" {
		return "||"
	}
	return s
}

func (t *Term) String() string { return t.str(map[*Term]string{}, nil, 0) }

func (t *Term) str(memo map[*Term]string, named map[*Term]string, depth int) string {
	if n, ok := named[t]; ok {
		return n
	}
	if s, ok := memo[t]; ok {
		return s
	}
	var r string
	switch t.kind {
	case 'v':
		r = smtSym(t.op)
	case 'b':
		r = t.op
	case 'i':
		if t.big.Sign() < 0 {
			r = "(- " + new(big.Int).Neg(t.big).String() + ")"
		} else {
			r = t.op
		}
	case 's':
		r = litName(t)
	case 'q':
		var sb strings.Builder
		sb.WriteString("(forall (")
		for _, v := range t.vars {
			sb.WriteString("(" + smtSym(v.op) + " " + v.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		sb.WriteString(t.args[0].str(memo, named, depth+1))
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				sb.WriteString(" :pattern (" + p.str(memo, named, depth+1) + ")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		r = sb.String()
	default:
		if t.op == "constarr" {
			r = "((as const " + t.sort + ") " + t.args[0].str(memo, named, depth+1) + ")"
			break
		}
		var sb strings.Builder
		sb.WriteString("(" + opName(t))
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(a.str(memo, named, depth+1))
		}
		sb.WriteString(")")
		r = sb.String()
	}
	memo[t] = r
	return r
}

func litName(t *Term) string {
	s := t.op
	clean := true
	for _, c := range s {
		if c < 32 || c > 126 || c == '|' || c == '\\' {
			clean = false
		}
	}
	if clean && len(s) < 60 {
		return "|\"" + s + "\"|"
	}
	return fmt.Sprintf("|\"#%d\"|", t.id)
}

var builtinOps = map[string]bool{"and": true, "or": true, "not": true, "=": true, "+": true, "-": true, "*": true, "div": true, "mod": true, "<=": true, "ite": true, "select": true, "store": true, "constarr": true}

func opName(t *Term) string {
	if builtinOps[t.op] {
		return t.op
	}
	return smtSym(t.op)
}

// pretty gives a compact human-readable rendering for replay files.
func pretty(t *Term) string {
	s := t.String()
	if len(s) > 2000 {
		s = s[:2000] + "…"
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
