package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- contract files ----

type Clause struct {
	ID   string // property id
	Name string // ID.name
	Src  string
	E    *SE
	File string
	Line int
}

type Contract struct {
	Tgt        *Target
	Name       string // fully qualified function, method or interface method
	Recv       string
	Params     []string
	Results    []string
	Requires   []*Clause
	Ensures    []*Clause
	Covers     []*Clause
	Assumes    []*Clause
	Lets       []letDef
	Returns    *SE // the single result is this expression
	ReturnsSrc string
	Modular    bool
	IsIface    bool
	Modifies   []*SE
	NoEvent    bool
	Panics     string // property id for panic freedom obligations
	File       string
	Line       int
}

type letDef struct {
	name string
	e    *SE
}

type Target struct {
	Contract
	New        string   // constructor full name
	NewArgs    []string // names for constructor parameters
	NewRes     []string
	Method     string // method invoked on first constructor result
	Fn         string // or plain function/method full name
	Havoc      bool
	Inline     []string // modular contracts to ignore
	Nullable   map[string]bool
	Unroll     int
	Reveal     map[string]bool
	AllIDs     bool
	Stores     []string // dynamic types of the values the shared containers hold
	Concurrent bool     // other goroutines use the containers at the same time
	Locks      string   // property under which "no lock is held at return" is an obligation
}

type EventDecl struct {
	Name    string
	Full    string
	Recv    string
	Params  []string
	Results []string
}

type Macro struct {
	Params []string
	E      *SE
	Opaque bool
	Sorts  []string
	Name   string
}

type SpecDB struct {
	Imports map[string]string
	Macros  map[string]*Macro
	Events  map[string]*EventDecl
	Ifaces  map[string]*Contract
	Funcs   map[string]*Contract
	Targets []*Target
	Known   []string
}

const modPath = "zntr.io/solid/"

func qualify(s string) string {
	// server/storage.X -> zntr.io/solid/server/storage.X ; handles (*pkg.T).M
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "(") {
		star := ""
		in := s[1:]
		if strings.HasPrefix(in, "*") {
			star = "*"
			in = in[1:]
		}
		return "(" + star + qualify(in)
	}
	for _, p := range []string{"server/", "sdk/", "client.", "client/", "oidc.", "api/"} {
		if strings.HasPrefix(s, p) {
			return modPath + s
		}
	}
	return s
}

var sigRe = regexp.MustCompile(`^(.+?)\(([^()]*)\)\s*(?:\(([^()]*)\))?$`)

func splitNames(s string) []string {
	var r []string
	for _, p := range strings.Split(s, ",") {
		if p = strings.TrimSpace(p); p != "" {
			r = append(r, p)
		}
	}
	return r
}

// parseSig parses "name(recv; a, b)(r, err)".
func parseSig(s string) (name, recv string, params, results []string) {
	s = strings.TrimSpace(s)
	m := sigRe.FindStringSubmatch(s)
	if m == nil {
		panic(fmt.Errorf("bad signature %q", s))
	}
	name = strings.TrimSpace(m[1])
	ps := m[2]
	if i := strings.Index(ps, ";"); i >= 0 {
		recv = strings.TrimSpace(ps[:i])
		ps = ps[i+1:]
	}
	return name, recv, splitNames(ps), splitNames(m[3])
}

func loadSpecs(dir string) (*SpecDB, error) {
	db := &SpecDB{Imports: map[string]string{}, Macros: map[string]*Macro{}, Events: map[string]*EventDecl{}, Ifaces: map[string]*Contract{}, Funcs: map[string]*Contract{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		collectSpecKeys(string(b))
		if err := db.parseFile(f, string(b)); err != nil {
			return nil, err
		}
	}
	return db, nil
}

var topKw = map[string]bool{"import": true, "pred": true, "opaque": true, "event": true, "iface": true, "func": true, "target": true}
var subKw = map[string]bool{"requires": true, "ensures": true, "cover": true, "let": true, "modular": true, "modifies": true, "new": true, "call": true, "fn": true, "havoc": true, "inline": true, "panics": true, "noevent": true, "nullable": true, "assume": true, "unroll": true, "returns": true, "reveal": true, "stores": true, "concurrent": true, "locks": true}

func (db *SpecDB) parseFile(file, src string) (err error) {
	line := 0
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%s:%d: %v", file, line, r)
		}
	}()
	type stmt struct {
		kw, rest string
		line     int
	}
	var stmts []stmt
	for i, l := range strings.Split(src, "\n") {
		if j := strings.Index(l, "//"); j >= 0 && !strings.Contains(l[:j], "\"") {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		kw := t
		rest := ""
		if j := strings.IndexAny(t, " \t"); j >= 0 {
			kw, rest = t[:j], strings.TrimSpace(t[j:])
		}
		if topKw[kw] && !strings.HasPrefix(l, " ") && !strings.HasPrefix(l, "\t") || subKw[kw] {
			stmts = append(stmts, stmt{kw, rest, i + 1})
		} else if len(stmts) > 0 {
			stmts[len(stmts)-1].rest += " " + t
		} else {
			return fmt.Errorf("%s:%d: unexpected %q", file, i+1, t)
		}
	}
	var cur *Contract
	var tgt *Target
	for _, s := range stmts {
		line = s.line
		clause := func(needID bool) *Clause {
			c := &Clause{Src: s.rest, File: filepath.Base(file), Line: s.line}
			body := s.rest
			if i := strings.Index(body, ":"); i > 0 && regexp.MustCompile(`^[A-Z][0-9]{2}(\.[A-Za-z0-9_-]+)?$`).MatchString(strings.TrimSpace(body[:i])) {
				c.Name = strings.TrimSpace(body[:i])
				c.ID = strings.SplitN(c.Name, ".", 2)[0]
				body = body[i+1:]
			}
			c.E = parseExpr(body)
			return c
		}
		switch s.kw {
		case "import":
			f := strings.Fields(s.rest)
			db.Imports[f[0]] = qualify(f[1] + ".")
			db.Imports[f[0]] = strings.TrimSuffix(db.Imports[f[0]], ".")
		case "pred", "opaque":
			i := strings.Index(s.rest, "=")
			name, _, ps, _ := parseSig(s.rest[:i])
			m := &Macro{E: parseExpr(s.rest[i+1:]), Opaque: s.kw == "opaque", Name: name}
			for _, p := range ps {
				m.Params = append(m.Params, p)
			}
			db.Macros[name] = m
		case "event":
			i := strings.Index(s.rest, "=")
			n := strings.TrimSpace(s.rest[:i])
			full, recv, ps, rs := parseSig(s.rest[i+1:])
			db.Events[n] = &EventDecl{Name: n, Full: qualify(full), Recv: recv, Params: ps, Results: rs}
		case "iface", "func":
			n, recv, ps, rs := parseSigFn(s.rest)
			cur = &Contract{Name: qualify(n), Recv: recv, Params: ps, Results: rs, IsIface: s.kw == "iface", File: filepath.Base(file), Line: s.line}
			tgt = nil
			if s.kw == "iface" {
				db.Ifaces[cur.Name] = cur
			} else {
				db.Funcs[cur.Name] = cur
			}
		case "target":
			tgt = &Target{Nullable: map[string]bool{}, Reveal: map[string]bool{}}
			tgt.Name = s.rest
			tgt.File, tgt.Line = filepath.Base(file), s.line
			cur = &tgt.Contract
			cur.Tgt = tgt
			db.Targets = append(db.Targets, tgt)
		case "new":
			n, _, ps, rs := parseSigFn(s.rest)
			tgt.New, tgt.NewArgs, tgt.NewRes = qualify(n), ps, rs
		case "call":
			n, _, ps, rs := parseSigFn(s.rest)
			tgt.Method, tgt.Params, tgt.Results = n, ps, rs
		case "fn":
			n, recv, ps, rs := parseSigFn(s.rest)
			tgt.Fn, tgt.Recv, tgt.Params, tgt.Results = qualify(n), recv, ps, rs
		case "havoc":
			tgt.Havoc = true
		case "stores":
			tgt.Stores = append(tgt.Stores, strings.Fields(s.rest)...)
		case "concurrent":
			tgt.Concurrent = true
		case "locks":
			tgt.Locks = s.rest
		case "inline":
			for _, x := range strings.Fields(s.rest) {
				tgt.Inline = append(tgt.Inline, qualify(x))
			}
		case "nullable":
			for _, x := range strings.Fields(s.rest) {
				tgt.Nullable[x] = true
			}
		case "reveal":
			for _, x := range strings.Fields(s.rest) {
				tgt.Reveal[x] = true
			}
		case "unroll":
			tgt.Unroll, _ = strconv.Atoi(s.rest)
		case "modular":
			cur.Modular = true
		case "noevent":
			cur.NoEvent = true
		case "panics":
			cur.Panics = s.rest
		case "modifies":
			for _, x := range strings.Split(s.rest, ",") {
				cur.Modifies = append(cur.Modifies, parseExpr(x))
			}
		case "requires":
			cur.Requires = append(cur.Requires, clause(false))
		case "assume":
			cur.Assumes = append(cur.Assumes, clause(false))
		case "ensures":
			cur.Ensures = append(cur.Ensures, clause(true))
		case "cover":
			cur.Covers = append(cur.Covers, clause(true))
		case "returns":
			cur.Returns = parseExpr(s.rest)
			cur.ReturnsSrc = s.rest
		case "let":
			i := strings.Index(s.rest, "=")
			cur.Lets = append(cur.Lets, letDef{strings.TrimSpace(s.rest[:i]), parseExpr(s.rest[i+1:])})
		default:
			return fmt.Errorf("%s:%d: unknown keyword %s", file, s.line, s.kw)
		}
	}
	return nil
}

// parseSigFn handles names containing parentheses such as (*T).M.
func parseSigFn(s string) (name, recv string, params, results []string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "(") {
		i := strings.Index(s, ")")
		n, r, p, q := parseSig("X" + s[i+1:])
		return s[:i+1] + n[1:], r, p, q
	}
	return parseSig(s)
}

// ---- expressions ----

type SE struct {
	op   string // ident, int, str, call, field, index, star, not, neg, binary operators, forall, exists
	s    string
	i    *big.Int
	args []*SE
	v    string // quantified variable
}

func (e *SE) String() string {
	var as []string
	for _, a := range e.args {
		as = append(as, a.String())
	}
	return e.op + ":" + e.s + "(" + strings.Join(as, ",") + ")"
}

type tok struct {
	k string // id, int, str, op, eof
	s string
}

var tokRe = regexp.MustCompile(`^(?:\s+|([A-Za-z_$][A-Za-z0-9_$]*)|([0-9]+)|("(?:[^"\\]|\\.)*")|(==>|<=>|==|!=|<=|>=|&&|\|\||\.\.|[-+*/%<>!().,\[\]:@]))`)

func lex(s string) []tok {
	var r []tok
	for s != "" {
		m := tokRe.FindStringSubmatch(s)
		if m == nil {
			panic(fmt.Errorf("bad token at %q", s))
		}
		switch {
		case m[1] != "":
			r = append(r, tok{"id", m[1]})
		case m[2] != "":
			r = append(r, tok{"int", m[2]})
		case m[3] != "":
			u, err := strconv.Unquote(m[3])
			if err != nil {
				panic(err)
			}
			r = append(r, tok{"str", u})
		case m[4] != "":
			r = append(r, tok{"op", m[4]})
		}
		s = s[len(m[0]):]
	}
	return append(r, tok{"eof", ""})
}

type parser struct {
	t []tok
	p int
}

func parseExpr(s string) *SE {
	p := &parser{t: lex(s)}
	e := p.expr(0)
	if p.peek().k != "eof" {
		panic(fmt.Errorf("trailing %q in %q", p.peek().s, s))
	}
	return e
}

func (p *parser) peek() tok { return p.t[p.p] }
func (p *parser) next() tok { p.p++; return p.t[p.p-1] }
func (p *parser) want(s string) {
	if t := p.next(); t.s != s || t.k == "str" {
		panic(fmt.Errorf("expected %q, got %q", s, t.s))
	}
}

var binPrec = map[string]int{"<=>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 6, "<=": 6, ">": 6, ">=": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (p *parser) expr(min int) *SE {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" {
			return l
		}
		pr, ok := binPrec[t.s]
		if !ok || pr < min {
			return l
		}
		p.next()
		var r *SE
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &SE{op: t.s, args: []*SE{l, r}}
	}
}

func (p *parser) unary() *SE {
	t := p.peek()
	if t.k == "op" {
		switch t.s {
		case "!":
			p.next()
			return &SE{op: "!", args: []*SE{p.unary()}}
		case "-":
			p.next()
			return &SE{op: "neg", args: []*SE{p.unary()}}
		case "*":
			p.next()
			return &SE{op: "star", args: []*SE{p.unary()}}
		}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		v := p.next().s
		p.want("in")
		lo := p.expr(7)
		var args []*SE
		if p.peek().s == ".." {
			p.next()
			hi := p.expr(7)
			args = []*SE{lo, hi}
		} else {
			args = []*SE{lo}
		}
		p.want(":")
		body := p.expr(0)
		return &SE{op: t.s, v: v, args: append(args, body)}
	}
	return p.postfix()
}

func (p *parser) postfix() *SE {
	var e *SE
	t := p.next()
	switch t.k {
	case "int":
		b, _ := new(big.Int).SetString(t.s, 10)
		e = &SE{op: "int", i: b}
	case "str":
		e = &SE{op: "str", s: t.s}
	case "id":
		e = &SE{op: "ident", s: t.s}
	case "op":
		if t.s == "(" {
			e = p.expr(0)
			p.want(")")
		} else {
			panic(fmt.Errorf("unexpected %q", t.s))
		}
	default:
		panic(fmt.Errorf("unexpected end"))
	}
	for {
		t := p.peek()
		if t.k != "op" {
			return e
		}
		switch t.s {
		case ".":
			p.next()
			e = &SE{op: "field", s: p.next().s, args: []*SE{e}}
		case "[":
			p.next()
			i := p.expr(0)
			p.want("]")
			e = &SE{op: "index", args: []*SE{e, i}}
		case "(":
			p.next()
			c := &SE{op: "call", s: e.s, args: nil}
			if e.op != "ident" {
				panic(fmt.Errorf("call of non-identifier"))
			}
			for p.peek().s != ")" {
				c.args = append(c.args, p.expr(0))
				if p.peek().s == "," {
					p.next()
				}
			}
			p.next()
			e = c
		default:
			return e
		}
	}
}

// ---- evaluation ----

type SpecEnv struct {
	ex       *Exec
	vars     map[string]Val
	lets     map[string]*SE
	h        *Heap
	old      *Heap
	st       *State
	pol      bool
	w        *World
	noEvents bool
}

type evVal struct {
	e *Event
	d *EventDecl
}
type pkgVal struct{ path string }

type SpecError struct{ msg string }

func specErr(f string, a ...any) { panic(SpecError{fmt.Sprintf(f, a...)}) }

func (env *SpecEnv) with(k string, v Val) *SpecEnv {
	n := *env
	n.vars = make(map[string]Val, len(env.vars)+1)
	for a, b := range env.vars {
		n.vars[a] = b
	}
	n.vars[k] = v
	return &n
}

func (env *SpecEnv) bool(e *SE) *Term {
	v := env.eval(e)
	t, ok := v.(VT)
	if !ok || t.t.sort != sBool {
		specErr("boolean expected: %s", e)
	}
	return t.t
}

func (env *SpecEnv) int(e *SE) *Term {
	t := term1(env.eval(e))
	if t.sort != sInt {
		specErr("integer expected: %s", e)
	}
	return t
}

func (env *SpecEnv) str(e *SE) *Term {
	v := env.eval(e)
	if s, ok := v.(VSlice); ok && isByte(s.elem) {
		t := env.h.view(s)
		env.ex.subFacts(t)
		return t
	}
	t := term1(v)
	if t.sort != sStr {
		specErr("string expected: %s (%s)", e, t.sort)
	}
	return t
}

var vbool = func(t *Term) Val { return VT{t, types.Typ[types.Bool]} }
var vint = func(t *Term) Val { return VT{t, types.Typ[types.Int]} }
var vstr = func(t *Term) Val { return VT{t, types.Typ[types.String]} }

type vNil struct{}

// VWords is the list of words of a string.
type VWords struct{ s *Term }

func (env *SpecEnv) eval(e *SE) Val {
	switch e.op {
	case "int":
		return VT{tBig(e.i), nil}
	case "str":
		return vstr(tStrLit(e.s))
	case "ident":
		switch e.s {
		case "true":
			return vbool(tTrue)
		case "false":
			return vbool(tFalse)
		case "nil":
			return vNil{}
		}
		if v, ok := env.vars[e.s]; ok {
			return v
		}
		if l, ok := env.lets[e.s]; ok {
			return env.eval(l)
		}
		if p, ok := env.w.db.Imports[e.s]; ok {
			return pkgVal{p}
		}
		if m, ok := env.w.db.Macros[e.s]; ok && len(m.Params) == 0 {
			return env.eval(m.E)
		}
		specErr("unknown name %s", e.s)
	case "!":
		return vbool(tNot(env.bool(e.args[0])))
	case "neg":
		return vint(tSub(tInt(0), env.int(e.args[0])))
	case "&&":
		a := env.bool(e.args[0])
		if a.isFalse() {
			return vbool(tFalse)
		}
		return vbool(tAnd(a, env.bool(e.args[1])))
	case "||":
		a := env.bool(e.args[0])
		if a.isTrue() {
			return vbool(tTrue)
		}
		return vbool(tOr(a, env.bool(e.args[1])))
	case "==>":
		a := env.bool(e.args[0])
		if a.isFalse() {
			return vbool(tTrue)
		}
		return vbool(tImp(a, env.bool(e.args[1])))
	case "<=>":
		return vbool(tEq(env.bool(e.args[0]), env.bool(e.args[1])))
	case "==", "!=":
		t := env.equal(env.eval(e.args[0]), env.eval(e.args[1]))
		if e.op == "!=" {
			t = tNot(t)
		}
		return vbool(t)
	case "<":
		return vbool(tLt(env.int(e.args[0]), env.int(e.args[1])))
	case "<=":
		return vbool(tLe(env.int(e.args[0]), env.int(e.args[1])))
	case ">":
		return vbool(tLt(env.int(e.args[1]), env.int(e.args[0])))
	case ">=":
		return vbool(tLe(env.int(e.args[1]), env.int(e.args[0])))
	case "+":
		a, b := env.eval(e.args[0]), env.eval(e.args[1])
		x, y := term1(a), term1(b)
		if x.sort == sStr {
			r := tCat(x, y)
			if len(r.free) == 0 {
				env.ex.catFacts(r)
			}
			return vstr(r)
		}
		return vint(tAdd(x, y))
	case "-":
		return vint(tSub(env.int(e.args[0]), env.int(e.args[1])))
	case "*":
		return vint(tMul(env.int(e.args[0]), env.int(e.args[1])))
	case "/":
		return vint(tDiv(env.int(e.args[0]), env.int(e.args[1])))
	case "%":
		return vint(tMod(env.int(e.args[0]), env.int(e.args[1])))
	case "star":
		p, ok := env.eval(e.args[0]).(VPtr)
		if !ok {
			specErr("dereference of non-pointer")
		}
		v := env.h.load(p)
		env.ex.typeFacts(v)
		return v
	case "field":
		return env.field(env.eval(e.args[0]), e.s)
	case "index":
		b := env.eval(e.args[0])
		switch x := b.(type) {
		case VWords:
			return vstr(tSelect(tApp("fieldsArr", arrSort(sInt, sStr), x.s), env.int(e.args[1])))
		case VSlice:
			v := env.h.loadElem(x.elem, x.base, tAdd(x.off, env.int(e.args[1])))
			env.ex.typeFacts(v)
			return v
		case VT:
			if x.t.sort == sStr {
				return vint(tAt(x.t, env.int(e.args[1])))
			}
			if _, ok := x.typ.Underlying().(*types.Map); ok {
				return env.h.mapGet(x.typ, x.t, term1(env.eval(e.args[1])))
			}
		}
		specErr("cannot index")
	case "forall", "exists":
		return vbool(env.quant(e))
	case "call":
		return env.call(e)
	}
	specErr("cannot evaluate %s", e.op)
	return nil
}

func (env *SpecEnv) equal(a, b Val) *Term {
	if _, ok := a.(vNil); ok {
		a, b = b, a
	}
	if _, ok := b.(vNil); ok {
		switch x := a.(type) {
		case VPtr:
			if x.kind != 'o' {
				return tFalse
			}
			return tEq(x.ref, tInt(0))
		case VIface:
			return tEq(x.t, tNilIface)
		case VSlice:
			return tEq(x.base, tInt(0))
		case VT:
			return tEq(x.t, tInt(0))
		case VFunc:
			if x.fn != nil {
				return tFalse
			}
			return tEq(x.t, tInt(0))
		}
		specErr("cannot compare %T with nil", a)
	}
	// byte slices compare by content with strings and each other
	as, aok := a.(VSlice)
	bs, bok := b.(VSlice)
	if aok && bok {
		if isByte(as.elem) && isByte(bs.elem) {
			x, y := env.h.view(as), env.h.view(bs)
			env.ex.subFacts(x)
			env.ex.subFacts(y)
			return tEq(x, y)
		}
		return tAnd(tEq(as.base, bs.base), tEq(as.off, bs.off), tEq(as.len, bs.len))
	}
	if aok && isByte(as.elem) {
		x := env.h.view(as)
		env.ex.subFacts(x)
		return tEq(x, term1(b))
	}
	if bok && isByte(bs.elem) {
		x := env.h.view(bs)
		env.ex.subFacts(x)
		return tEq(x, term1(a))
	}
	ai, aI := a.(VIface)
	bi, bI := b.(VIface)
	if aI && !bI {
		return env.ifaceEq(ai, b)
	}
	if bI && !aI {
		return env.ifaceEq(bi, a)
	}
	return env.ex.eqVal(env.st, a, b)
}

// ifaceEq compares an interface with a concrete value.
func (env *SpecEnv) ifaceEq(i VIface, v Val) *Term {
	t := valType(v)
	if t == nil {
		specErr("untyped comparison with interface")
	}
	x := term1(v)
	return tAnd(tEq(ifTyp(i.t), typeID(t)), tEq(ifVal(i.t, x.sort), x))
}

func (env *SpecEnv) field(v Val, name string) Val {
	switch x := v.(type) {
	case pkgVal:
		return env.w.pkgMember(env, x.path, name)
	case evVal:
		return x.get(name)
	case VPtr:
		if x.kind != 'o' {
			specErr("field %s of scalar pointer", name)
		}
		st, ok := x.elem.Underlying().(*types.Struct)
		if !ok {
			specErr("field %s of pointer to %s", name, x.elem)
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				v := env.h.loadField(x.elem, i, x.ref)
				env.ex.typeFacts(v)
				return v
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				ft := st.Field(i).Type()
				if hasField(ft, name) {
					return env.field(env.h.loadField(x.elem, i, x.ref), name)
				}
			}
		}
		specErr("no field %s in %s", name, x.elem)
	case VStruct:
		st := x.typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return x.f[i]
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() && hasField(st.Field(i).Type(), name) {
				return env.field(x.f[i], name)
			}
		}
		specErr("no field %s in %s", name, x.typ)
	case VTup:
		i, err := strconv.Atoi(strings.TrimPrefix(name, "r"))
		if err == nil && i < len(x) {
			return x[i]
		}
	}
	specErr("field %s of %T", name, v)
	return nil
}

func hasField(t types.Type, name string) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
	}
	return false
}

func (x evVal) get(name string) Val {
	if x.e.loop {
		specErr("value of an event inside an abstracted loop")
	}
	if name == x.d.Recv && name != "" {
		return x.e.recv
	}
	for i, p := range x.d.Params {
		if p == name {
			if i >= len(x.e.args) {
				specErr("event %s has no argument %s", x.d.Name, name)
			}
			return x.e.args[i]
		}
	}
	for i, p := range x.d.Results {
		if p == name {
			return x.e.res[i]
		}
	}
	specErr("event %s has no field %s", x.d.Name, name)
	return nil
}

func (env *SpecEnv) quant(e *SE) *Term {
	body := e.args[len(e.args)-1]
	if len(e.args) == 2 {
		// over events
		d, ok := env.w.db.Events[e.args[0].s]
		if !ok {
			specErr("unknown event %s", e.args[0].s)
		}
		if env.noEvents {
			specErr("events not usable here")
		}
		var parts []*Term
		for _, ev := range env.st.ev {
			if ev.name != d.Full {
				continue
			}
			if ev.loop {
				if e.op == "forall" {
					parts = append(parts, tFalse)
				}
				continue
			}
			parts = append(parts, env.with(e.v, evVal{ev, d}).bool(body))
		}
		if e.op == "forall" {
			return tAnd(parts...)
		}
		return tOr(parts...)
	}
	lo, hi := env.int(e.args[0]), env.int(e.args[1])
	if lo.isInt() && hi.isInt() && hi.big.IsInt64() && lo.big.IsInt64() && hi.big.Int64()-lo.big.Int64() <= 32 {
		var parts []*Term
		for i := lo.big.Int64(); i < hi.big.Int64(); i++ {
			parts = append(parts, env.with(e.v, vint(tInt(i))).bool(body))
		}
		if e.op == "forall" {
			return tAnd(parts...)
		}
		return tOr(parts...)
	}
	v := tVar("?"+env.ex.fresh("q"), sInt)
	b := env.with(e.v, VT{v, nil}).bool(body)
	in := tAnd(tLe(lo, v), tLt(v, hi))
	if e.op == "forall" {
		return tForall([]*Term{v}, tImp(in, b))
	}
	return tNot(tForall([]*Term{v}, tNot(tAnd(in, b))))
}

func (env *SpecEnv) call(e *SE) Val {
	if m, ok := env.w.db.Macros[e.s]; ok {
		if len(m.Params) != len(e.args) {
			specErr("%s takes %d arguments", e.s, len(m.Params))
		}
		n := *env
		n.vars = map[string]Val{}
		for _, c := range []string{"clock0", "clock1"} {
			if v, ok := env.vars[c]; ok {
				n.vars[c] = v
			}
		}
		n.lets = nil
		for i, p := range m.Params {
			n.vars[p] = env.eval(e.args[i])
		}
		if m.Opaque && !env.ex.revealed {
			// uninterpreted predicate of the abstract arguments
			var ts []*Term
			for _, p := range m.Params {
				ts = append(ts, env.absTerms(n.vars[p])...)
			}
			return vbool(tApp("P!"+m.Name, sBool, ts...))
		}
		return n.eval(m.E)
	}
	if f, ok := specExt[e.s]; ok {
		return f(env, e.args)
	}
	if f, ok := specFuncs[e.s]; ok {
		return f(env, e.args)
	}
	specErr("unknown function %s", e.s)
	return nil
}

// absTerms gives the terms that determine a value's abstract content.
func (env *SpecEnv) absTerms(v Val) []*Term {
	if s, ok := v.(VWords); ok {
		return []*Term{tApp("fieldsArr", arrSort(sInt, sStr), s.s), tInt(0), tApp("fieldsLen", sInt, s.s)}
	}
	if s, ok := v.(VSlice); ok {
		if isByte(s.elem) {
			t := env.h.view(s)
			env.ex.subFacts(t)
			return []*Term{t}
		}
		var ts []*Term
		for _, c := range comps(s.elem) {
			ts = append(ts, env.h.elemArr(s.elem, c, s.base))
		}
		return append(ts, s.off, s.len)
	}
	return toTerms(v)
}

var specFuncs map[string]func(env *SpecEnv, a []*SE) Val

// specExt: functions added by other files
var specExt = map[string]func(env *SpecEnv, a []*SE) Val{}

func init() {
	specFuncs = map[string]func(env *SpecEnv, a []*SE) Val{
		"len": func(env *SpecEnv, a []*SE) Val {
			switch x := env.eval(a[0]).(type) {
			case VWords:
				return vint(tApp("fieldsLen", sInt, x.s))
			case VSlice:
				return vint(x.len)
			case VT:
				if x.t.sort == sStr {
					return vint(tSlen(x.t))
				}
				if _, ok := x.typ.Underlying().(*types.Map); ok {
					l := env.h.get("maplen", arrSort(sInt, sInt), true)
					return vint(tSelect(l, x.t))
				}
			}
			specErr("len")
			return nil
		},
		"rx":    func(env *SpecEnv, a []*SE) Val { return vbool(rxMatch(env.str(a[0]), env.str(a[1]))) },
		"trim":  func(env *SpecEnv, a []*SE) Val { return vstr(env.ex.trimSpace(env.str(a[0]))) },
		"chars": func(env *SpecEnv, a []*SE) Val { return vbool(tApp("charset", sBool, env.str(a[0]), env.str(a[1]))) },
		"old": func(env *SpecEnv, a []*SE) Val {
			n := *env
			n.h = env.old
			return n.eval(a[0])
		},
		"at": func(env *SpecEnv, a []*SE) Val {
			ev, ok := env.eval(a[0]).(evVal)
			if !ok {
				specErr("at: event expected")
			}
			n := *env
			n.h = ev.e.pre
			return n.eval(a[1])
		},
		"after": func(env *SpecEnv, a []*SE) Val {
			ev, ok := env.eval(a[0]).(evVal)
			if !ok {
				specErr("after: event expected")
			}
			n := *env
			n.h = ev.e.post
			return n.eval(a[1])
		},
		"before": func(env *SpecEnv, a []*SE) Val {
			x, y := env.eval(a[0]).(evVal), env.eval(a[1]).(evVal)
			return vbool(tBool(x.e.ord < y.e.ord))
		},
		"sameEvent": func(env *SpecEnv, a []*SE) Val {
			x, y := env.eval(a[0]).(evVal), env.eval(a[1]).(evVal)
			return vbool(tBool(x.e == y.e))
		},
		"none": func(env *SpecEnv, a []*SE) Val {
			d, ok := env.w.db.Events[a[0].s]
			if !ok {
				specErr("unknown event %s", a[0].s)
			}
			for _, ev := range env.st.ev {
				if ev.name == d.Full {
					return vbool(tFalse)
				}
			}
			return vbool(tTrue)
		},
		"count": func(env *SpecEnv, a []*SE) Val {
			d, ok := env.w.db.Events[a[0].s]
			if !ok {
				specErr("unknown event %s", a[0].s)
			}
			n := int64(0)
			for _, ev := range env.st.ev {
				if ev.name == d.Full {
					n++
					if ev.loop {
						n += 1000000
					}
				}
			}
			return vint(tInt(n))
		},
		"fields": func(env *SpecEnv, a []*SE) Val { return env.ex.fieldsOf(env.st, env.str(a[0])) },
		"str":    func(env *SpecEnv, a []*SE) Val { return vstr(env.str(a[0])) },
		"sha256": func(env *SpecEnv, a []*SE) Val { return vstr(tApp("sha256", sStr, env.str(a[0]))) },
		"blake2b256": func(env *SpecEnv, a []*SE) Val {
			return vstr(tApp("blake2b256", sStr, tStrLit(""), env.str(a[0])))
		},
		"b64url": func(env *SpecEnv, a []*SE) Val {
			return vstr(b64enc(env.ex, tStrLit("RawURLEncoding"), env.str(a[0])))
		},
		"b64urldec": func(env *SpecEnv, a []*SE) Val {
			return vstr(tApp("b64dec", sStr, tStrLit("RawURLEncoding"), env.str(a[0])))
		},
		"b64urlok": func(env *SpecEnv, a []*SE) Val {
			return vbool(tApp("b64ok", sBool, tStrLit("RawURLEncoding"), env.str(a[0])))
		},
		"eqfold": func(env *SpecEnv, a []*SE) Val { return vbool(tEqFold(env.str(a[0]), env.str(a[1]))) },
		"uriok":  func(env *SpecEnv, a []*SE) Val { return vbool(tApp("url.ParseRequestURI.ok", sBool, env.str(a[0]))) },
		"urlok":  func(env *SpecEnv, a []*SE) Val { return vbool(tApp("url.Parse.ok", sBool, env.str(a[0]))) },
		"isErr": func(env *SpecEnv, a []*SE) Val {
			return vbool(isErr(term1(env.eval(a[0])), term1(env.eval(a[1]))))
		},
		"unix": func(env *SpecEnv, a []*SE) Val { return vint(tDiv(env.int(a[0]), tInt(1_000_000_000))) },
		"has": func(env *SpecEnv, a []*SE) Val {
			m := env.eval(a[0]).(VT)
			return vbool(env.h.mapHas(m.typ, m.t, env.keyOf(m.typ, a[1])))
		},
		"get": func(env *SpecEnv, a []*SE) Val {
			m := env.eval(a[0]).(VT)
			return env.h.mapGet(m.typ, m.t, env.keyOf(m.typ, a[1]))
		},
		"iff": func(env *SpecEnv, a []*SE) Val { return vbool(tEq(env.bool(a[0]), env.bool(a[1]))) },
		"ite": func(env *SpecEnv, a []*SE) Val { return iteVal(env.bool(a[0]), env.eval(a[1]), env.eval(a[2])) },
		"uf": func(env *SpecEnv, a []*SE) Val { // uf("name", args...) boolean uninterpreted
			var ts []*Term
			for _, x := range a[1:] {
				ts = append(ts, env.absTerms(env.eval(x))...)
			}
			return vbool(tApp(a[0].s, sBool, ts...))
		},
		"ufs": func(env *SpecEnv, a []*SE) Val {
			var ts []*Term
			for _, x := range a[1:] {
				ts = append(ts, env.absTerms(env.eval(x))...)
			}
			return vstr(tApp(a[0].s, sStr, ts...))
		},
		"ufi": func(env *SpecEnv, a []*SE) Val {
			var ts []*Term
			for _, x := range a[1:] {
				ts = append(ts, env.absTerms(env.eval(x))...)
			}
			return vint(tApp(a[0].s, sInt, ts...))
		},
		"sub": func(env *SpecEnv, a []*SE) Val {
			return vstr(env.ex.sub(env.str(a[0]), env.int(a[1]), env.int(a[2])))
		},
		"dyn": func(env *SpecEnv, a []*SE) Val { // dyn(x): the concrete value held by an interface of statically known type
			x := env.eval(a[0]).(VIface)
			d := dynType(x.t)
			if d == nil {
				specErr("dyn: dynamic type unknown")
			}
			if boxed(d) {
				r := ifVal(x.t, sInt)
				if isStruct(d) {
					return env.h.loadObj(d, r)
				}
				return env.h.loadKey("cell:"+typeStr(d), d, r)
			}
			s, _, _ := scalarSort(d)
			return fromTerms(d, []*Term{ifVal(x.t, s)})
		},
		"hasdyn": func(env *SpecEnv, a []*SE) Val {
			x := env.eval(a[0]).(VIface)
			return vbool(tBool(dynType(x.t) != nil))
		},
		"istype": func(env *SpecEnv, a []*SE) Val {
			x := env.eval(a[0]).(VIface)
			return vbool(tEq(ifTyp(x.t), typeID(env.w.findType(a[1].s))))
		},
		"as": func(env *SpecEnv, a []*SE) Val { // as(x, "pkg.T"): payload of an interface
			x := env.eval(a[0]).(VIface)
			t := env.w.findType(a[1].s)
			if boxed(t) {
				r := ifVal(x.t, sInt)
				if isStruct(t) {
					return env.h.loadObj(t, r)
				}
				return env.h.loadKey("cell:"+typeStr(t), t, r)
			}
			s, _, _ := scalarSort(t)
			return fromTerms(t, []*Term{ifVal(x.t, s)})
		},
		"ptr": func(env *SpecEnv, a []*SE) Val { // ptr(x,"pkg.T"): reinterpret
			t := env.w.findType(a[1].s)
			return VPtr{kind: 'o', ref: term1(env.eval(a[0])), elem: t}
		},
		"sameptr": func(env *SpecEnv, a []*SE) Val {
			return vbool(tEq(term1(env.eval(a[0])), term1(env.eval(a[1]))))
		},
		"fresh": func(env *SpecEnv, a []*SE) Val { // allocated during the call
			t := term1(env.eval(a[0]))
			return vbool(tBool(t.isInt() && t.big.Sign() < 0))
		},
	}
}

func (env *SpecEnv) keyOf(mt types.Type, e *SE) *Term {
	v := env.eval(e)
	k := mt.Underlying().(*types.Map).Key()
	if isIface(k) {
		if i, ok := v.(VIface); ok {
			return i.t
		}
		t := valType(v)
		x := term1(v)
		return tApp("mkI!"+x.sort, sIface, typeID(t), x)
	}
	return term1(v)
}

// pkgMember resolves constants and variables of packages in contracts.
func (w *World) pkgMember(env *SpecEnv, path, name string) Val {
	p := w.pkgs[path]
	if p == nil {
		specErr("unknown package %s", path)
	}
	o := p.Pkg.Scope().Lookup(name)
	switch x := o.(type) {
	case *types.Const:
		t := x.Type()
		switch x.Val().Kind() {
		case constant.String:
			return VT{tStrLit(constant.StringVal(x.Val())), t}
		case constant.Int:
			return VT{bigConst(x.Val()), t}
		case constant.Bool:
			return VT{tBool(constant.BoolVal(x.Val())), t}
		}
	case *types.Var:
		g := p.Var(name)
		return env.h.load(VPtr{kind: 'o', ref: env.ex.globalRef(env.st, g), elem: deref(g.Type())})
	}
	specErr("unknown member %s.%s", path, name)
	return nil
}

func (w *World) findType(s string) types.Type {
	ptr := strings.HasPrefix(s, "*")
	s = strings.TrimPrefix(s, "*")
	switch s {
	case "string":
		return types.Typ[types.String]
	case "bool":
		return types.Typ[types.Bool]
	}
	i := strings.LastIndex(s, ".")
	q := qualify(s)
	i = strings.LastIndex(q, ".")
	p := w.pkgs[q[:i]]
	if p == nil {
		for path, pp := range w.pkgs {
			if path == q[:i] {
				p = pp
			}
		}
	}
	if p == nil {
		specErr("unknown package in type %s", s)
	}
	o := p.Pkg.Scope().Lookup(q[i+1:])
	if o == nil {
		specErr("unknown type %s", s)
	}
	t := o.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	return t
}

var _ = ssa.BuilderMode(0)
