package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Event struct {
	name string // interface method or external function full name
	recv Val
	args []Val
	res  []Val
	pre  *Heap
	post *Heap
	pos  token.Pos
	ord  int
	loop bool // happened inside an abstracted loop: number and values unknown
	sig  *types.Signature
	// ghost: what the event's error result means etc. is in contracts
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []func(st *State, k func(*State))
	free   []Val
	unroll map[*ssa.BasicBlock]int
	cuts   map[*ssa.BasicBlock]func(st *State, prev *ssa.BasicBlock)
	label  string
	stop   []map[*ssa.BasicBlock]bool // inference: do not run past these block sets
}

type State struct {
	h       *Heap
	nalloc  int
	ev      []*Event
	frames  []*Frame
	trail   []string
	conds   []*Term
	clock   *Term
	ghost   map[string]Val
	held    []heldLock
	shared  []sharedMap // maps other goroutines use too
	epoch   int
	arbVals map[string][]*Term
}

func (st *State) clone() *State {
	n := *st
	n.h = st.h.clone()
	n.ev = st.ev[:len(st.ev):len(st.ev)]
	n.trail = st.trail[:len(st.trail):len(st.trail)]
	n.conds = st.conds[:len(st.conds):len(st.conds)]
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env)+8)
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = f.defers[:len(f.defers):len(f.defers)]
		if f.unroll != nil {
			g.unroll = map[*ssa.BasicBlock]int{}
			for k, v := range f.unroll {
				g.unroll[k] = v
			}
		}
		if f.cuts != nil {
			g.cuts = map[*ssa.BasicBlock]func(*State, *ssa.BasicBlock){}
			for k, v := range f.cuts {
				g.cuts[k] = v
			}
		}
		n.frames[i] = &g
	}
	n.ghost = make(map[string]Val, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	return &n
}

type Failure struct {
	Clause string
	Kind   string
	Msg    string
	Pos    string
	Trail  []string
	Model  []string
	Events []string
	Solver string
}

type Exec struct {
	W             *World
	prog          *ssa.Program
	s             *Solver
	n             int
	quiet         int
	fnName        string
	panics        bool // generate panic-freedom obligations
	panicID       string
	obl           int
	disch         int
	paths         int
	returns       int
	covered       map[string]bool
	fails         []*Failure
	failKey       map[string]bool
	deadline      time.Time
	assumed       map[string]bool // externals and contracts relied on
	inlined       map[string]bool
	backends      map[string]int
	noModular     map[string]bool
	revealed      bool
	writes        []func(key string, ref *Term)
	maxPaths      int
	initSt        *State
	constructed   map[string]bool
	oldHeap       *Heap
	unrollLimit   int
	timeout       bool
	incomplete    []string
	aborted       bool
	panicFilter   func(kind string) bool
	inferBad      bool
	incTrail      [][]string
	loopsCut      int
	inInit        *ssa.Package
	contractsUsed map[string]*Contract
	mutex         bool
	conc          bool
	curID         string
	hard          bool    // last attempt: longer limits, another seed, second opinions everywhere
	callerPtrs    []*Term // objects the caller of the unit passed in
	entryAlloc    int
	failCount     map[string]int
	only          map[string]bool // clauses still to prove (nil: all)
	final         bool            // last attempt: stop soon after a failure
	firstFail     time.Time
	isKnown       func(*Failure) bool
	invs          int
	unitEnv       func(*State) *SpecEnv
	unitDepth     int
	unitClauses   []*Clause
	target        *Target
}

// maxLen bounds the length of any string or slice (address space).
var maxLen = tInt(1 << 48)

type abortRun struct{ msg string }

func (ex *Exec) fresh(hint string) string {
	ex.n++
	return fmt.Sprintf("%s!%d", hint, ex.n)
}

func (ex *Exec) freshVar(hint, srt string, ref bool) *Term {
	p := "x!"
	if ref {
		p = "r!"
	}
	return tVar(p+ex.fresh(hint), srt)
}

func (ex *Exec) assume(st *State, t *Term) {
	if t.isTrue() {
		return
	}
	st.conds = append(st.conds, t)
	ex.s.Assert(t)
}

func (ex *Exec) feasible() bool { return ex.s.Check() != "unsat" }

// fact asserts a typing fact once per solver scope.
func (ex *Exec) fact(t *Term) {
	if t.isTrue() || len(t.free) > 0 {
		return
	}
	k := fmt.Sprintf("fact%d", t.id)
	if ex.s.declared(k) {
		return
	}
	ex.s.top().decl[k] = true
	ex.s.top().asserted = append(ex.s.top().asserted, t)
	ex.s.assertRaw(t)
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := 64
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	one := big.NewInt(1)
	if b.Info()&types.IsUnsigned != 0 {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one), true
	}
	h := new(big.Int).Lsh(one, uint(bits-1))
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one), true
}

// typeFacts asserts what typing guarantees about a value read from symbolic state.
func (ex *Exec) typeFacts(v Val) {
	switch x := v.(type) {
	case VT:
		if x.t.isConst() || len(x.t.free) > 0 {
			return
		}
		if x.t.sort == sInt && x.typ != nil && !opaqueStruct(x.typ) {
			if lo, hi, ok := intRange(x.typ); ok {
				if x.t.kind == 'a' && (x.t.op == "slen" || x.t.op == "at") {
					return
				}
				ex.fact(tAnd(tLe(tBig(lo), x.t), tLe(x.t, tBig(hi))))
			}
		}
		if x.t.sort == sStr && x.typ != nil {
			if a, ok := x.typ.Underlying().(*types.Array); ok {
				ex.fact(tEq(tSlen(x.t), tInt(a.Len())))
			}
		}
	case VSlice:
		if x.len.isConst() || len(x.base.free) > 0 || len(x.len.free) > 0 {
			return
		}
		ex.fact(tAnd(tLe(tInt(0), x.len), tLe(x.len, x.cap), tImp(tEq(x.base, tInt(0)), tEq(x.cap, tInt(0))), tLe(tInt(0), x.off), tLe(x.cap, maxLen)))
	case VStruct:
		for _, f := range x.f {
			ex.typeFacts(f)
		}
	case VArr:
		for _, f := range x.e {
			ex.typeFacts(f)
		}
	case VTup:
		for _, f := range x {
			ex.typeFacts(f)
		}
	}
}

// symVal makes an arbitrary value of type t.
func (ex *Exec) symVal(t types.Type, hint string) Val {
	if tup, ok := t.(*types.Tuple); ok {
		var r VTup
		for i := 0; i < tup.Len(); i++ {
			r = append(r, ex.symVal(tup.At(i).Type(), fmt.Sprintf("%s.%d", hint, i)))
		}
		return r
	}
	if isStruct(t) {
		s := t.Underlying().(*types.Struct)
		r := VStruct{typ: t}
		for i := 0; i < s.NumFields(); i++ {
			r.f = append(r.f, ex.symVal(s.Field(i).Type(), hint+"."+s.Field(i).Name()))
		}
		return r
	}
	var ts []*Term
	for _, c := range comps(t) {
		if c.suf == "#off" {
			ts = append(ts, tInt(0))
			continue
		}
		ts = append(ts, ex.freshVar(hint+c.suf, c.sort, c.ref))
	}
	v := fromTerms(t, ts)
	ex.typeFacts(v)
	return v
}

func (ex *Exec) alloc(st *State) *Term {
	st.nalloc++
	return tInt(int64(-st.nalloc))
}

// box stores v into a fresh object and returns the interface term.
func (ex *Exec) makeIface(st *State, v Val, t types.Type) *Term {
	if isIface(t) {
		return term1(v)
	}
	if boxed(t) {
		r := ex.alloc(st)
		if isStruct(t) {
			st.h.storeObj(t, r, v)
		} else {
			st.h.storeKey("cell:"+typeStr(t), t, r, v)
		}
		return tApp("mkI!Int", sIface, typeID(t), r)
	}
	x := term1(v)
	return tApp("mkI!"+x.sort, sIface, typeID(t), x)
}

func (ex *Exec) unIface(st *State, x *Term, t types.Type) Val {
	if boxed(t) {
		r := ifVal(x, sInt)
		if isStruct(t) {
			return st.h.loadObj(t, r)
		}
		return st.h.loadKey("cell:"+typeStr(t), t, r)
	}
	s, _, _ := scalarSort(t)
	v := fromTerms(t, []*Term{ifVal(x, s)})
	ex.typeFacts(v)
	return v
}

func (ex *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := ex.prog.Fset.Position(p)
	return strings.TrimPrefix(q.Filename, "/repo/") + fmt.Sprintf(":%d", q.Line)
}

// fork explores both outcomes of c.
func (ex *Exec) fork(st *State, c *Term, what string, th, el func(*State)) {
	if c.isTrue() {
		th(st)
		return
	}
	if c.isFalse() {
		el(st)
		return
	}
	if time.Now().After(ex.deadline) {
		panic(abortRun{"time budget exhausted"})
	}
	n := len(st.conds)
	tOK := ex.s.CheckWith(c) != "unsat"
	eOK := true
	if tOK {
		eOK = ex.s.CheckWith(tNot(c)) != "unsat"
	}
	if tOK {
		ex.s.Push()
		s2 := st
		if eOK {
			s2 = st.clone()
		}
		s2.trail = append(s2.trail, what+" = true")
		ex.guard(s2, func() {
			ex.assume(s2, c)
			th(s2)
		})
		ex.s.Pop()
	}
	if eOK {
		ex.s.Push()
		st.conds = st.conds[:n:n]
		st.trail = append(st.trail, what+" = false")
		ex.guard(st, func() {
			ex.assume(st, tNot(c))
			el(st)
		})
		ex.s.Pop()
	}
}

// guard abandons one path when it needs an unsupported construct; the run is then incomplete.
func (ex *Exec) guard(st *State, f func()) {
	d := len(ex.s.scopes)
	nw := len(ex.writes)
	q := ex.quiet
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(Unsupported)
			if !ok {
				panic(r)
			}
			for len(ex.s.scopes) > d {
				ex.s.Pop()
			}
			ex.writes = ex.writes[:nw]
			ex.quiet = q
			ex.unsup(st, u.msg)
		}
	}()
	f()
}

func (ex *Exec) unsup(st *State, msg string) {
	if ex.quiet > 0 {
		ex.inferBad = true
		return
	}
	for _, m := range ex.incomplete {
		if m == msg {
			return
		}
	}
	ex.incomplete = append(ex.incomplete, msg)
	ex.incTrail = append(ex.incTrail, st.trail)
}

// prove checks an obligation; on failure it is recorded.
func (ex *Exec) prove(st *State, t *Term, clause, kind, msg string, pos token.Pos) bool {
	if ex.quiet > 0 {
		return true
	}
	if ex.only != nil && !ex.only[clause] {
		return true // discharged by an earlier run of this unit
	}
	ex.obl++
	if t.isTrue() {
		ex.disch++
		ex.backends["simplifier"]++
		return true
	}
	if ex.failCount[clause+"|"+kind+"|"+msg] >= 1 {
		return false // already reported
	}
	if ex.final && !ex.firstFail.IsZero() && time.Since(ex.firstFail) > 20*time.Second {
		panic(abortFail{})
	}
	nt := ex.refute(t)
	r := ex.s.CheckWith(nt)
	by := "z3"
	if r == "unknown" {
		r, by = ex.s.secondOpinion(nt, 10)
	}
	if r == "unsat" {
		ex.disch++
		ex.backends[by]++
		return true
	}
	ex.failCount[clause+"|"+kind+"|"+msg]++
	key := clause + "|" + kind + "|" + msg + "|" + ex.pos(pos)
	if ex.failKey[key] {
		return false
	}
	ex.failKey[key] = true
	f := &Failure{Clause: clause, Kind: kind, Msg: msg, Pos: ex.pos(pos), Solver: by + ": " + r}
	f.Trail = append(f.Trail, st.trail...)
	for _, e := range st.ev {
		f.Events = append(f.Events, ex.describeEvent(e))
	}
	// model
	ex.s.Push()
	ex.s.assertRaw(tNot(t))
	if rr := ex.s.Check(); rr == "sat" || rr == "unknown" {
		f.Model = ex.modelOf(st, t)
	}
	ex.s.Pop()
	ex.fails = append(ex.fails, f)
	if ex.firstFail.IsZero() && !ex.isKnown(f) {
		ex.firstFail = time.Now()
	}
	return false
}

func (ex *Exec) describeEvent(e *Event) string {
	return fmt.Sprintf("#%d %s at %s", e.ord, e.name, ex.pos(e.pos))
}

// modelOf prints the solver's assignment for the variables of the path condition.
func (ex *Exec) modelOf(st *State, t *Term) []string {
	vs := map[*Term]bool{}
	var lits []*Term
	add := func(u *Term) {
		if len(u.free) > 0 {
			return
		}
		if u.kind == 'v' && (u.sort == sInt || u.sort == sBool) {
			vs[u] = true
		}
		if u.kind == 'a' && u.op == "slen" {
			vs[u] = true
		}
		if u.kind == 'a' && u.op == "select" && (u.sort == sInt || u.sort == sBool) {
			vs[u] = true
		}
		if u.kind == 's' {
			lits = append(lits, u)
		}
	}
	collectVars(t, add)
	for _, c := range st.conds {
		collectVars(c, add)
	}
	var ts []*Term
	for v := range vs {
		if len(v.String()) < 200 {
			ts = append(ts, v)
		}
	}
	if len(ts) > 80 {
		ts = ts[:80]
	}
	m := ex.s.Eval(ts)
	var out []string
	for k, v := range m {
		if len(v) < 200 {
			out = append(out, k.String()+" = "+v)
		}
	}
	sortStrings(out)
	return out
}

// panicCheck is an obligation that execution does not panic here; afterwards the
// condition is assumed (the path continues only if it did not panic).
func (ex *Exec) panicCheck(st *State, ok *Term, kind string, pos token.Pos) bool {
	if ok.isTrue() {
		if ex.panics && ex.quiet == 0 {
			ex.obl++
			ex.disch++
			ex.backends["simplifier"]++
		}
		return true
	}
	if ex.panics && ex.quiet == 0 && (ex.panicFilter == nil || ex.panicFilter(kind)) {
		fr := ""
		if len(st.frames) > 0 {
			fr = shortFn(st.frames[len(st.frames)-1].fn)
		}
		ex.prove(st, ok, ex.panicID, "no-panic", kind+" in "+fr, pos)
	}
	if ok.isFalse() {
		return false
	}
	ex.assume(st, ok)
	return true
}

func shortFn(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.ReplaceAll(f.RelString(nil), "zntr.io/solid/", "")
}

// ---- running functions ----

type kont func(st *State, res []Val)

func (ex *Exec) callFn(st *State, fn *ssa.Function, args []Val, free []Val, k kont) {
	if len(st.frames) > 60 {
		panic(Unsupported{"call depth at " + shortFn(fn)})
	}
	if fn.Blocks == nil {
		panic(Unsupported{"no body for " + fn.String()})
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, free: free, unroll: map[*ssa.BasicBlock]int{}, cuts: map[*ssa.BasicBlock]func(*State, *ssa.BasicBlock){}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = free[i]
	}
	st.frames = append(st.frames[:len(st.frames):len(st.frames)], fr)
	if ex.inlined != nil {
		ex.inlined[shortFn(fn)] = true
	}
	d := len(st.frames)
	ex.block(st, fn.Blocks[0], nil, func(st *State, res []Val) {
		st.frames = st.frames[: d-1 : d-1]
		k(st, res)
	})
}

func (st *State) fr() *Frame { return st.frames[len(st.frames)-1] }

func (ex *Exec) val(st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		ex.externGlobal(st, x)
		return VPtr{kind: 'o', ref: ex.globalRef(st, x), elem: deref(x.Type())}
	case *ssa.Function:
		return VFunc{fn: x, typ: x.Type()}
	case *ssa.Builtin:
		return VFunc{bi: x, typ: x.Type()}
	}
	r, ok := st.fr().env[v]
	if !ok {
		panic(Unsupported{fmt.Sprintf("no value for %s in %s", v.Name(), shortFn(st.fr().fn))})
	}
	return r
}

func (ex *Exec) globalRef(st *State, g *ssa.Global) *Term {
	return subRef("global:"+g.String(), tInt(0), nil)
}

func (ex *Exec) block(st *State, b *ssa.BasicBlock, prev *ssa.BasicBlock, k kont) {
	fr := st.fr()
	for _, s := range fr.stop {
		if !s[b] {
			return
		}
	}
	if cut, ok := fr.cuts[b]; ok && prev != nil && b.Dominates(prev) {
		cut(st, prev)
		return
	}
	if isLoopHeader(b) && prev != nil && !b.Dominates(prev) {
		// loop entry
		fr.unroll[b] = 0
		delete(fr.cuts, b)
		if !ex.headerConcrete(st, b, prev) {
			ex.cutLoop(st, b, prev, k)
			return
		}
	} else if isLoopHeader(b) && prev != nil {
		fr.unroll[b]++
		if fr.unroll[b] > ex.unrollLimit {
			panic(Unsupported{"loop unrolling limit in " + shortFn(fr.fn)})
		}
	}
	ex.phis(st, b, prev)
	ex.instrs(st, b, numPhis(b), k)
}

func numPhis(b *ssa.BasicBlock) int {
	n := 0
	for _, i := range b.Instrs {
		if _, ok := i.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func (ex *Exec) phis(st *State, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	var vals []Val
	var ph []*ssa.Phi
	for _, i := range b.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		vals = append(vals, ex.val(st, p.Edges[pi]))
	}
	for i, p := range ph {
		st.fr().env[p] = vals[i]
	}
}

func (ex *Exec) instrs(st *State, b *ssa.BasicBlock, i int, k kont) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.If:
			c := term1(ex.val(st, x.Cond))
			what := ex.condText(st, x)
			ex.fork(st, c, what, func(s *State) { ex.block(s, b.Succs[0], b, k) }, func(s *State) { ex.block(s, b.Succs[1], b, k) })
			return
		case *ssa.Jump:
			ex.block(st, b.Succs[0], b, k)
			return
		case *ssa.Return:
			var res []Val
			for _, r := range x.Results {
				res = append(res, ex.val(st, r))
			}
			k(st, res)
			return
		case *ssa.Panic:
			ex.panicCheck(st, tFalse, "explicit panic", x.Pos())
			return
		case *ssa.RunDefers:
			ds := st.fr().defers
			st.fr().defers = nil
			next := i + 1
			var run func(st *State, j int)
			run = func(st *State, j int) {
				if j < 0 {
					ex.instrs(st, b, next, k)
					return
				}
				ds[j](st, func(st *State) { run(st, j-1) })
			}
			run(st, len(ds)-1)
			return
		case *ssa.Defer:
			call := x.Common()
			fnv, args := ex.evalCall(st, call)
			pos := x.Pos()
			st.fr().defers = append(st.fr().defers, func(st *State, k2 func(*State)) {
				ex.dispatch(st, call, fnv, args, pos, func(st *State, _ []Val) { k2(st) })
			})
			continue
		case *ssa.Call:
			fnv, args := ex.evalCall(st, x.Common())
			next := i + 1
			d := len(st.frames)
			ex.dispatch(st, x.Common(), fnv, args, x.Pos(), func(st *State, res []Val) {
				if len(st.frames) != d {
					panic("frame mismatch")
				}
				var v Val
				sigRes := x.Common().Signature().Results()
				if sigRes.Len() == 1 {
					v = res[0]
				} else {
					v = VTup(res)
				}
				st.fr().env[x] = v
				ex.instrs(st, b, next, k)
			})
			return
		case *ssa.TypeAssert:
			done := ex.typeAssert(st, x, func(st *State) { ex.instrs(st, b, i+1, k) })
			if done {
				return
			}
		default:
			ok := ex.simple(st, in)
			if !ok {
				return // path ended (certain panic)
			}
		}
	}
	panic("fell off block")
}

func (ex *Exec) condText(st *State, x *ssa.If) string {
	p := x.Cond.Pos()
	if !p.IsValid() {
		for j := len(x.Block().Instrs) - 1; j >= 0 && !p.IsValid(); j-- {
			p = x.Block().Instrs[j].Pos()
		}
	}
	return ex.pos(p) + " " + x.Cond.String()
}

func (ex *Exec) ptrVal(v Val) VPtr {
	p, ok := v.(VPtr)
	if !ok {
		panic(Unsupported{fmt.Sprintf("pointer expected, got %T", v)})
	}
	return p
}

func (ex *Exec) nilCheck(st *State, p VPtr, pos token.Pos, what string) bool {
	if p.kind != 'o' {
		return true
	}
	return ex.panicCheck(st, tNot(tEq(p.ref, tInt(0))), "nil dereference"+what, pos)
}

func (ex *Exec) noteWrite(st *State, p VPtr) {
	for _, w := range ex.writes {
		switch p.kind {
		case 'f':
			w(p.key, p.ref)
		case 'e':
			if isByte(p.elem) {
				w("bytes", p.ref)
			} else {
				w("elem:"+typeStr(p.elem), p.ref)
			}
		case 'o':
			ex.noteObj(w, p.elem, p.ref)
		}
	}
}

func (ex *Exec) noteObj(w func(string, *Term), t types.Type, ref *Term) {
	if isStruct(t) {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isStruct(ft) || isArrObj(ft) {
				ex.noteObj(w, ft, subRef(fieldKey(t, i), ref, nil))
			} else {
				w(fieldKey(t, i), ref)
			}
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		if isByte(a.Elem()) {
			w("bytes", ref)
		} else {
			w("elem:"+typeStr(a.Elem()), ref)
		}
		return
	}
	w("cell:"+typeStr(t), ref)
}

func (ex *Exec) store(st *State, p VPtr, v Val) {
	ex.noteWrite(st, p)
	st.h.store(p, v)
}

func (ex *Exec) load(st *State, p VPtr) Val {
	v := st.h.load(p)
	ex.typeFacts(v)
	return v
}

// provable: cheap query used only to simplify arithmetic.
func (ex *Exec) provable(t *Term) bool {
	if t.isTrue() {
		return true
	}
	if t.isFalse() {
		return false
	}
	return ex.s.CheckWith(ex.refute(t)) == "unsat"
}

// wrapInt reduces mathematical value r into the range of machine type t.
func (ex *Exec) wrapInt(r *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return r
	}
	if r.isInt() {
		if r.big.Cmp(lo) >= 0 && r.big.Cmp(hi) <= 0 {
			return r
		}
		m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
		x := new(big.Int).Mod(new(big.Int).Sub(r.big, lo), m)
		return tBig(x.Add(x, lo))
	}
	in := tAnd(tLe(tBig(lo), r), tLe(r, tBig(hi)))
	if ex.provable(in) {
		return r
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	// one wrap either way is enough for + and -, mod otherwise
	return tIte(in, r, tAdd(tMod(tSub(r, tBig(lo)), tBig(m)), tBig(lo)))
}

func (ex *Exec) simple(st *State, in ssa.Instruction) bool {
	fr := st.fr()
	switch x := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.Alloc:
		r := ex.alloc(st)
		t := deref(x.Type())
		st.h.storeObj(t, r, zeroVal(t))
		fr.env[x] = VPtr{kind: 'o', ref: r, elem: t}
	case *ssa.Store:
		p := ex.ptrVal(ex.val(st, x.Addr))
		if !ex.nilCheck(st, p, x.Pos(), " (store)") {
			return false
		}
		ex.store(st, p, ex.val(st, x.Val))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p := ex.ptrVal(ex.val(st, x.X))
			if !ex.nilCheck(st, p, x.Pos(), "") {
				return false
			}
			fr.env[x] = ex.load(st, p)
		case token.NOT:
			fr.env[x] = VT{tNot(term1(ex.val(st, x.X))), x.Type()}
		case token.SUB:
			v := term1(ex.val(st, x.X))
			if v.sort == sInt {
				fr.env[x] = VT{ex.wrapInt(tSub(tInt(0), v), x.Type()), x.Type()}
			} else {
				fr.env[x] = ex.symVal(x.Type(), "neg")
			}
		case token.XOR:
			v := term1(ex.val(st, x.X))
			if lo, _, ok := intRange(x.Type()); ok && lo.Sign() < 0 {
				fr.env[x] = VT{tSub(tInt(-1), v), x.Type()}
			} else {
				_, hi, _ := intRange(x.Type())
				fr.env[x] = VT{tSub(tBig(hi), v), x.Type()}
			}
		default:
			panic(Unsupported{"unop " + x.Op.String()})
		}
	case *ssa.BinOp:
		v, ok := ex.binop(st, x.Op, ex.val(st, x.X), ex.val(st, x.Y), x.Type(), x.Pos())
		if !ok {
			return false
		}
		fr.env[x] = v
	case *ssa.ChangeInterface:
		v := ex.val(st, x.X).(VIface)
		fr.env[x] = VIface{v.t, x.Type()}
	case *ssa.ChangeType:
		fr.env[x] = retype(ex.val(st, x.X), x.Type())
	case *ssa.Convert:
		fr.env[x] = ex.convert(st, ex.val(st, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.env[x] = ex.convert(st, ex.val(st, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		fr.env[x] = VIface{ex.makeIface(st, ex.val(st, x.X), x.X.Type()), x.Type()}
	case *ssa.Extract:
		fr.env[x] = ex.val(st, x.Tuple).(VTup)[x.Index]
	case *ssa.Field:
		fr.env[x] = ex.val(st, x.X).(VStruct).f[x.Field]
	case *ssa.FieldAddr:
		p := ex.ptrVal(ex.val(st, x.X))
		if !ex.nilCheck(st, p, x.Pos(), "") {
			return false
		}
		fr.env[x] = fieldAddr(p.elem, x.Field, p.ref)
	case *ssa.Index:
		iv := term1(ex.val(st, x.Index))
		switch a := ex.val(st, x.X).(type) {
		case VT: // string or byte array
			if !ex.boundCheck(st, iv, tSlen(a.t), x.Pos()) {
				return false
			}
			fr.env[x] = VT{tAt(a.t, iv), x.Type()}
		case VArr:
			if iv.isInt() && iv.big.IsInt64() && int(iv.big.Int64()) < len(a.e) && iv.big.Sign() >= 0 {
				fr.env[x] = a.e[iv.big.Int64()]
			} else {
				fr.env[x] = ex.symVal(x.Type(), "arrelem")
			}
		default:
			panic(Unsupported{"index"})
		}
	case *ssa.IndexAddr:
		iv := term1(ex.val(st, x.Index))
		switch a := ex.val(st, x.X).(type) {
		case VSlice:
			if !ex.boundCheck(st, iv, a.len, x.Pos()) {
				return false
			}
			fr.env[x] = elemAddr(a.elem, a.base, tAdd(a.off, iv))
		case VPtr:
			if !ex.nilCheck(st, a, x.Pos(), "") {
				return false
			}
			arr := a.elem.Underlying().(*types.Array)
			if !ex.boundCheck(st, iv, tInt(arr.Len()), x.Pos()) {
				return false
			}
			fr.env[x] = elemAddr(arr.Elem(), a.ref, iv)
		default:
			panic(Unsupported{fmt.Sprintf("indexaddr %T", a)})
		}
	case *ssa.Lookup:
		switch a := ex.val(st, x.X).(type) {
		case VT:
			if a.t.sort == sStr {
				iv := term1(ex.val(st, x.Index))
				if !ex.boundCheck(st, iv, tSlen(a.t), x.Pos()) {
					return false
				}
				fr.env[x] = VT{tAt(a.t, iv), x.Type()}
				return true
			}
			mt := x.X.Type()
			ex.guardMap(st, a.t, false, x.Pos())
			kt := ex.mapKeyTerm(st, ex.val(st, x.Index))
			has := st.h.mapHas(mt, a.t, kt)
			et := mt.Underlying().(*types.Map).Elem()
			got := iteVal(has, st.h.mapGet(mt, a.t, kt), zeroVal(et))
			ex.typeFacts(got)
			if x.CommaOk {
				fr.env[x] = VTup{got, VT{has, types.Typ[types.Bool]}}
			} else {
				fr.env[x] = got
			}
		}
	case *ssa.MapUpdate:
		m := ex.val(st, x.Map).(VT)
		if !ex.panicCheck(st, tNot(tEq(m.t, tInt(0))), "assignment to nil map", x.Pos()) {
			return false
		}
		ex.guardMap(st, m.t, true, x.Pos())
		for _, w := range ex.writes {
			w(mapKey(x.Map.Type()), m.t)
			w("maplen", m.t)
		}
		st.h.mapSet(x.Map.Type(), m.t, ex.mapKeyTerm(st, ex.val(st, x.Key)), ex.val(st, x.Value))
	case *ssa.MakeMap:
		r := ex.alloc(st)
		st.h.mapNew(x.Type(), r)
		fr.env[x] = VT{r, x.Type()}
	case *ssa.MakeChan:
		fr.env[x] = VT{ex.alloc(st), x.Type()}
	case *ssa.MakeSlice:
		l, c := term1(ex.val(st, x.Len)), term1(ex.val(st, x.Cap))
		if !ex.panicCheck(st, tAnd(tLe(tInt(0), l), tLe(l, c)), "makeslice length out of range", x.Pos()) {
			return false
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		fr.env[x] = ex.newSlice(st, et, l, c)
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, ex.val(st, b))
		}
		fr.env[x] = VFunc{fn: x.Fn.(*ssa.Function), binds: bs, typ: x.Type()}
	case *ssa.Slice:
		return ex.slice(st, x)
	case *ssa.SliceToArrayPointer:
		s := ex.val(st, x.X).(VSlice)
		arr := deref(x.Type()).Underlying().(*types.Array)
		if !ex.panicCheck(st, tLe(tInt(arr.Len()), s.len), "slice to array conversion", x.Pos()) {
			return false
		}
		if !(s.off.isInt() && s.off.big.Sign() == 0) {
			panic(Unsupported{"slice to array pointer with offset"})
		}
		fr.env[x] = VPtr{kind: 'o', ref: s.base, elem: deref(x.Type())}
	case *ssa.Range:
		fr.env[x] = VIter{m: ex.val(st, x.X), typ: x.X.Type()}
	case *ssa.Next:
		it := ex.val(st, x.Iter).(VIter)
		ok := VT{ex.freshVar("next", sBool, false), types.Typ[types.Bool]}
		if x.IsString {
			i := ex.freshVar("rangeidx", sInt, true)
			r := ex.symVal(types.Typ[types.Rune], "rune")
			ex.fact(tImp(ok.t, tLt(i, tSlen(term1(it.m)))))
			fr.env[x] = VTup{ok, VT{i, types.Typ[types.Int]}, r}
		} else {
			mt := it.typ.Underlying().(*types.Map)
			kv := ex.symVal(mt.Key(), "key")
			m := term1(it.m)
			ex.guardMap(st, m, false, x.Pos())
			ex.fact(tImp(ok.t, st.h.mapHas(it.typ, m, term1(kv))))
			v := st.h.mapGet(it.typ, m, term1(kv))
			ex.typeFacts(v)
			fr.env[x] = VTup{ok, kv, v}
		}
	case *ssa.Go:
		fnv, args := ex.evalCall(st, &x.Call)
		_ = fnv
		_ = args
		panic(Unsupported{"go statement in " + shortFn(fr.fn)})
	default:
		panic(Unsupported{fmt.Sprintf("instruction %T", in)})
	}
	return true
}

func (ex *Exec) mapKeyTerm(st *State, v Val) *Term { return term1(v) }

func (ex *Exec) newSlice(st *State, et types.Type, l, c *Term) VSlice {
	r := ex.alloc(st)
	if isByte(et) {
		var s *Term
		if l.isInt() && c == l && l.big.IsInt64() && l.big.Int64() <= 64 {
			s = tStrLit(strings.Repeat("\x00", int(l.big.Int64())))
		} else {
			s = tApp("zeros", sStr, c)
			ex.fact(tEq(tSlen(s), c))
		}
		st.h.setBytes(r, s)
	} else if isStruct(et) || isArrObj(et) {
		// zeroed lazily: only small constant capacities are initialised
		if c.isInt() && c.big.IsInt64() && c.big.Int64() <= 8 {
			for i := int64(0); i < c.big.Int64(); i++ {
				st.h.storeElem(et, r, tInt(i), zeroVal(et))
			}
		}
	} else {
		z := toTerms(zeroVal(et))
		for i, cc := range comps(et) {
			k := "elem:" + typeStr(et) + cc.suf
			a := st.h.get(k, arrSort(sInt, arrSort(sInt, cc.sort)), cc.ref)
			st.h.m[k] = tStore(a, r, tConstArr(arrSort(sInt, cc.sort), z[i]))
		}
	}
	return VSlice{base: r, off: tInt(0), len: l, cap: c, elem: et}
}

func (ex *Exec) boundCheck(st *State, i, n *Term, pos token.Pos) bool {
	return ex.panicCheck(st, tAnd(tLe(tInt(0), i), tLt(i, n)), "index out of range", pos)
}

func retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case VT:
		return VT{x.t, t}
	case VPtr:
		if e := deref(t); isStruct(e) && isStruct(x.elem) && !types.Identical(e, x.elem) {
			// pointer conversion between struct types: same object, different field keys
			return VPtr{kind: x.kind, ref: x.ref, idx: x.idx, key: x.key, elem: x.elem}
		}
		return VPtr{kind: x.kind, ref: x.ref, idx: x.idx, key: x.key, elem: deref(t)}
	case VSlice:
		return VSlice{x.base, x.off, x.len, x.cap, t.Underlying().(*types.Slice).Elem()}
	case VStruct:
		return VStruct{t, x.f}
	case VArr:
		return VArr{t, x.e}
	case VIface:
		return VIface{x.t, t}
	case VFunc:
		x.typ = t
		return x
	}
	return v
}

func iteVal(c *Term, a, b Val) Val {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	ta, tb := toTerms(a), toTerms(b)
	var ts []*Term
	for i := range ta {
		ts = append(ts, tIte(c, ta[i], tb[i]))
	}
	return fromTerms(valType(a), ts)
}

func (ex *Exec) slice(st *State, x *ssa.Slice) bool {
	fr := st.fr()
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return term1(ex.val(st, v))
	}
	switch a := ex.val(st, x.X).(type) {
	case VT: // string
		lo, hi := opt(x.Low, tInt(0)), opt(x.High, tSlen(a.t))
		if !ex.panicCheck(st, tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, tSlen(a.t))), "slice bounds out of range", x.Pos()) {
			return false
		}
		r := tSubstr(a.t, lo, hi)
		ex.subFacts(r)
		fr.env[x] = VT{r, x.Type()}
	case VSlice:
		lo, hi := opt(x.Low, tInt(0)), opt(x.High, a.len)
		mx := opt(x.Max, a.cap)
		if !ex.panicCheck(st, tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, mx), tLe(mx, a.cap)), "slice bounds out of range", x.Pos()) {
			return false
		}
		fr.env[x] = VSlice{base: a.base, off: tAdd(a.off, lo), len: tSub(hi, lo), cap: tSub(mx, lo), elem: a.elem}
	case VPtr:
		if !ex.nilCheck(st, a, x.Pos(), "") {
			return false
		}
		arr := a.elem.Underlying().(*types.Array)
		n := tInt(arr.Len())
		lo, hi := opt(x.Low, tInt(0)), opt(x.High, n)
		mx := opt(x.Max, n)
		if !ex.panicCheck(st, tAnd(tLe(tInt(0), lo), tLe(lo, hi), tLe(hi, mx), tLe(mx, n)), "slice bounds out of range", x.Pos()) {
			return false
		}
		fr.env[x] = VSlice{base: a.ref, off: lo, len: tSub(hi, lo), cap: tSub(mx, lo), elem: arr.Elem()}
	default:
		panic(Unsupported{"slice of " + x.X.Type().String()})
	}
	return true
}

// subFacts asserts the length of a substring term.
func (ex *Exec) subFacts(r *Term) {
	if r.kind == 'a' && r.op == "sub" {
		ex.fact(tApp("=", sBool, tApp("slen", sInt, r), tSub(r.args[2], r.args[1])))
	}
}

func (ex *Exec) eqVal(st *State, a, b Val) *Term {
	switch x := a.(type) {
	case VSlice:
		// only comparable with nil
		return tEq(x.base, term1orSliceBase(b))
	case VFunc:
		y := b.(VFunc)
		if x.fn != nil || x.model != "" {
			if y.t != nil && y.t.isInt() && y.t.big.Sign() == 0 {
				return tFalse
			}
		}
		if y.fn != nil || y.model != "" {
			if x.t != nil && x.t.isInt() && x.t.big.Sign() == 0 {
				return tFalse
			}
		}
		return tEq(funcTerm(x), funcTerm(y))
	case VPtr:
		y := b.(VPtr)
		if x.kind == 'o' && y.kind == 'o' {
			return tEq(x.ref, y.ref)
		}
		if x.kind != y.kind {
			if x.kind == 'o' && x.ref.isInt() && x.ref.big.Sign() == 0 || y.kind == 'o' && y.ref.isInt() && y.ref.big.Sign() == 0 {
				return tFalse
			}
		}
		if x.kind == 'f' && y.kind == 'f' {
			if x.key != y.key {
				return tFalse
			}
			return tEq(x.ref, y.ref)
		}
		return tEq(ptrTerm(x), ptrTerm(y))
	}
	ta, tb := toTerms(a), toTerms(b)
	var cs []*Term
	for i := range ta {
		cs = append(cs, tEq(ta[i], tb[i]))
	}
	return tAnd(cs...)
}

func term1orSliceBase(v Val) *Term {
	if s, ok := v.(VSlice); ok {
		return s.base
	}
	return term1(v)
}

func (ex *Exec) binop(st *State, op token.Token, a, b Val, t types.Type, pos token.Pos) (Val, bool) {
	bt := types.Typ[types.Bool]
	switch op {
	case token.EQL:
		return VT{ex.eqVal(st, a, b), bt}, true
	case token.NEQ:
		return VT{tNot(ex.eqVal(st, a, b)), bt}, true
	}
	x, y := term1(a), term1(b)
	if x.sort == sStr {
		switch op {
		case token.ADD:
			r := tCat(x, y)
			ex.catFacts(r)
			return VT{r, t}, true
		case token.LSS:
			return VT{tApp("strlt", sBool, x, y), bt}, true
		case token.GTR:
			return VT{tApp("strlt", sBool, y, x), bt}, true
		case token.LEQ:
			return VT{tNot(tApp("strlt", sBool, y, x)), bt}, true
		case token.GEQ:
			return VT{tNot(tApp("strlt", sBool, x, y)), bt}, true
		}
	}
	if x.sort == sReal {
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return VT{tApp("real"+op.String(), sBool, x, y), bt}, true
		}
		return VT{tApp("real"+op.String(), sReal, x, y), t}, true
	}
	switch op {
	case token.LSS:
		return VT{tLt(x, y), bt}, true
	case token.LEQ:
		return VT{tLe(x, y), bt}, true
	case token.GTR:
		return VT{tLt(y, x), bt}, true
	case token.GEQ:
		return VT{tLe(y, x), bt}, true
	case token.ADD:
		return VT{ex.wrapInt(tAdd(x, y), t), t}, true
	case token.SUB:
		return VT{ex.wrapInt(tSub(x, y), t), t}, true
	case token.MUL:
		return VT{ex.wrapInt(tMul(x, y), t), t}, true
	case token.QUO, token.REM:
		if !ex.panicCheck(st, tNot(tEq(y, tInt(0))), "division by zero", pos) {
			return nil, false
		}
		if y.isInt() && y.big.Sign() > 0 {
			if ex.provable(tLe(tInt(0), x)) {
				if op == token.QUO {
					return VT{tDiv(x, y), t}, true
				}
				return VT{tMod(x, y), t}, true
			}
			ny := tDiv(tSub(tInt(0), x), y)
			q := tIte(tLe(tInt(0), x), tDiv(x, y), tSub(tInt(0), ny))
			if op == token.QUO {
				return VT{q, t}, true
			}
			return VT{tSub(x, tMul(q, y)), t}, true
		}
		return ex.symVal(t, "quo"), true
	case token.AND:
		if x.isInt() && y.isInt() {
			return VT{tBig(new(big.Int).And(x.big, y.big)), t}, true
		}
		if x.isInt() {
			x, y = y, x
		}
		if y.isInt() && y.big.Sign() >= 0 {
			// low mask 2^n-1 is mod; otherwise bounded result
			m := new(big.Int).Add(y.big, big.NewInt(1))
			if y.big.Sign() > 0 && new(big.Int).And(m, y.big).Sign() == 0 {
				return VT{tMod(x, tBig(m)), t}, true
			}
			r := tApp("bitand", sInt, x, y)
			ex.fact(tAnd(tLe(tInt(0), r), tLe(r, y)))
			return VT{r, t}, true
		}
		r := tApp("bitand", sInt, x, y)
		v := VT{r, t}
		ex.typeFacts(v)
		ex.fact(tImp(tAnd(tLe(tInt(0), x), tLe(tInt(0), y)), tAnd(tLe(tInt(0), r), tLe(r, x), tLe(r, y))))
		return v, true
	case token.OR:
		if x.isInt() && y.isInt() {
			return VT{tBig(new(big.Int).Or(x.big, y.big)), t}, true
		}
		r := tApp("bitor", sInt, x, y)
		v := VT{r, t}
		ex.typeFacts(v)
		ex.fact(tImp(tAnd(tLe(tInt(0), x), tLe(tInt(0), y)), tAnd(tLe(x, r), tLe(y, r), tLe(r, tAdd(x, y)))))
		return v, true
	case token.XOR:
		if x.isInt() && y.isInt() {
			return VT{tBig(new(big.Int).Xor(x.big, y.big)), t}, true
		}
		if x.id > y.id {
			x, y = y, x
		}
		r := tApp("bitxor", sInt, x, y)
		v := VT{r, t}
		ex.typeFacts(v)
		return v, true
	case token.AND_NOT:
		r := tApp("bitandnot", sInt, x, y)
		v := VT{r, t}
		ex.typeFacts(v)
		return v, true
	case token.SHL, token.SHR:
		if !ex.panicCheck(st, tLe(tInt(0), y), "negative shift", pos) {
			return nil, false
		}
		if y.isInt() && y.big.IsInt64() && y.big.Int64() < 64 {
			p := tBig(new(big.Int).Lsh(big.NewInt(1), uint(y.big.Int64())))
			if op == token.SHL {
				return VT{ex.wrapInt(tMul(x, p), t), t}, true
			}
			return VT{tDiv(x, p), t}, true
		}
		r := tApp("shift"+op.String(), sInt, x, y)
		v := VT{r, t}
		ex.typeFacts(v)
		if op == token.SHR {
			ex.fact(tImp(tLe(tInt(0), x), tAnd(tLe(tInt(0), r), tLe(r, x))))
		}
		return v, true
	}
	panic(Unsupported{"binop " + op.String()})
}

func (ex *Exec) catFacts(r *Term) {
	if r.kind == 'a' && r.op == "cat" {
		ex.fact(tApp("=", sBool, tApp("slen", sInt, r), tSlen(r)))
		ex.catFacts(r.args[1])
	}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (ex *Exec) convert(st *State, v Val, from, to types.Type) Val {
	if isString(from) && isString(to) {
		return retype(v, to)
	}
	if s, ok := to.Underlying().(*types.Slice); ok && isString(from) {
		if isByte(s.Elem()) {
			return ex.bytesFrom(st, term1(v), to)
		}
		// []rune
		r := ex.symVal(to, "runes").(VSlice)
		r.base = ex.alloc(st)
		ex.fact(tLe(r.len, tSlen(term1(v))))
		return r
	}
	if fs, ok := from.Underlying().(*types.Slice); ok && isString(to) {
		if isByte(fs.Elem()) {
			r := st.h.view(v.(VSlice))
			ex.subFacts(r)
			return VT{r, to}
		}
		return ex.symVal(to, "str")
	}
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return VT{ex.wrapInt(term1(v), to), to}
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
			return VT{tApp("runeStr", sStr, term1(v)), to}
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0 {
			return VT{tApp("int2real", sReal, term1(v)), to}
		}
		if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0 {
			r := VT{tApp("real2int", sInt, term1(v)), to}
			ex.typeFacts(r)
			return r
		}
		if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0 {
			return retype(v, to)
		}
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return retype(v, to)
	}
	panic(Unsupported{"convert " + from.String() + " to " + to.String()})
}

// bytesFrom allocates a fresh byte slice holding s.
func (ex *Exec) bytesFrom(st *State, s *Term, t types.Type) VSlice {
	r := ex.alloc(st)
	st.h.setBytes(r, s)
	return VSlice{base: r, off: tInt(0), len: tSlen(s), cap: tSlen(s), elem: t.Underlying().(*types.Slice).Elem()}
}

func (ex *Exec) implements(x *Term, it types.Type) *Term {
	iface := it.Underlying().(*types.Interface)
	if x == tNilIface {
		return tFalse
	}
	if d := dynType(x); d != nil {
		return tBool(types.Implements(d, iface))
	}
	if iface.NumMethods() == 0 {
		return tNot(tEq(x, tNilIface))
	}
	return tAnd(tNot(tEq(x, tNilIface)), tApp("impl!"+typeStr(it), sBool, ifTyp(x)))
}

// typeAssert returns true if it continued through next itself.
func (ex *Exec) typeAssert(st *State, x *ssa.TypeAssert, next func(*State)) bool {
	v := ex.val(st, x.X).(VIface)
	var ok *Term
	var got Val
	if isIface(x.AssertedType) {
		if types.AssignableTo(x.X.Type(), x.AssertedType) {
			ok = tNot(tEq(v.t, tNilIface))
		} else {
			ok = ex.implements(v.t, x.AssertedType)
		}
		got = VIface{v.t, x.AssertedType}
	} else {
		ok = tEq(ifTyp(v.t), typeID(x.AssertedType))
		got = ex.unIface(st, v.t, x.AssertedType)
	}
	if !x.CommaOk {
		if !ex.panicCheck(st, ok, "type assertion to "+typeStr(x.AssertedType), x.Pos()) {
			return true
		}
		st.fr().env[x] = got
		return false
	}
	ex.fork(st, ok, ex.pos(x.Pos())+" assert "+typeStr(x.AssertedType), func(s *State) {
		s.fr().env[x] = VTup{got, VT{tTrue, types.Typ[types.Bool]}}
		next(s)
	}, func(s *State) {
		s.fr().env[x] = VTup{zeroVal(x.AssertedType), VT{tFalse, types.Typ[types.Bool]}}
		next(s)
	})
	return true
}

// ---- calls ----

func (ex *Exec) evalCall(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, ex.val(st, a))
	}
	return ex.val(st, c.Value), args
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.RelString(nil)
}

func inRepo(f *ssa.Function) bool {
	p := f.Package()
	if p == nil && f.Origin() != nil {
		p = f.Origin().Package()
	}
	if p == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), "zntr.io/solid")
		}
		if par := f.Parent(); par != nil {
			return inRepo(par)
		}
		return strings.Contains(f.RelString(nil), "zntr.io/solid")
	}
	return strings.HasPrefix(p.Pkg.Path(), "zntr.io/solid")
}

func (ex *Exec) dispatch(st *State, c *ssa.CallCommon, fnv Val, args []Val, pos token.Pos, k kont) {
	if c.IsInvoke() {
		recv := fnv.(VIface)
		ex.invoke(st, recv, c.Method, args, pos, k)
		return
	}
	f, ok := fnv.(VFunc)
	if !ok {
		panic(Unsupported{fmt.Sprintf("call of %T", fnv)})
	}
	ex.callVal(st, f, args, c.Signature(), pos, c, k)
}

func (ex *Exec) callVal(st *State, f VFunc, args []Val, sig *types.Signature, pos token.Pos, c *ssa.CallCommon, k kont) {
	if f.bi != nil {
		ex.builtin(st, f.bi, args, c, pos, k)
		return
	}
	if f.fn != nil {
		ex.callStatic(st, f.fn, args, f.binds, pos, k)
		return
	}
	// opaque function value
	if !ex.panicCheck(st, tNot(tEq(f.t, tInt(0))), "call of nil function", pos) {
		return
	}
	name := "func"
	if f.typ != nil {
		name = "func:" + typeStr(f.typ)
	}
	ex.external(st, name, f, args, sig, pos, k)
}

func (ex *Exec) callStatic(st *State, fn *ssa.Function, args []Val, binds []Val, pos token.Pos, k kont) {
	name := fnName(fn)
	if ex.inInit != nil && fn.Synthetic == "package initializer" {
		k(st, nil)
		return
	}
	if fn.Name() == "anyHistory" && inRepo(fn) {
		ex.anyHistory(st, args)
		k(st, nil)
		return
	}
	if strings.HasPrefix(name, cacheT) && models[name] == nil {
		panic(Unsupported{name})
	}
	if m, ok := models[name]; ok {
		ex.assumed["model: "+name] = true
		m(ex, st, fn, args, pos, k)
		return
	}
	if c := ex.W.modular(fn); c != nil && !ex.noModular[name] {
		ex.applyContract(st, c, nil, fn.Signature, args, pos, k)
		return
	}
	if fn.Blocks == nil && inRepo(fn) {
		if p := fn.Package(); p != nil {
			p.Build()
		}
	}
	if fn.Blocks != nil && (inRepo(fn) || inlineExt(fn)) {
		ex.callFn(st, fn, args, binds, k)
		return
	}
	if inlineExt(fn) {
		if p := fn.Package(); p != nil {
			p.Build()
		} else if o := fn.Origin(); o != nil && o.Package() != nil {
			o.Package().Build()
		}
		if fn.Blocks != nil {
			ex.callFn(st, fn, args, binds, k)
			return
		}
	}
	ex.external(st, name, nil, args, fn.Signature, pos, k)
}

// inlineExt: library functions whose bodies are executed symbolically rather than modelled.
func inlineExt(fn *ssa.Function) bool {
	p := fn.Package()
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Package()
	}
	if p == nil {
		return fn.Synthetic != "" && fn.Blocks != nil
	}
	switch p.Pkg.Path() {
	case "slices", "maps", "cmp":
		return true
	}
	return false
}

func (ex *Exec) invoke(st *State, recv VIface, m *types.Func, args []Val, pos token.Pos, k kont) {
	if d := dynType(recv.t); d != nil {
		fn := ex.prog.LookupMethod(d, m.Pkg(), m.Name())
		if fn == nil {
			panic(Unsupported{"method " + m.FullName() + " on " + d.String()})
		}
		rv := ex.unIface(st, recv.t, d)
		ex.callStatic(st, fn, append([]Val{rv}, args...), nil, pos, k)
		return
	}
	// a receiver chosen among known values: one path for each
	if c, a, b, ok := choice(recv.t); ok {
		if concreteIface(a, 16) || concreteIface(b, 16) {
			ex.fork(st, c, ex.pos(pos)+" receiver", func(st *State) {
				ex.invoke(st, VIface{a, recv.typ}, m, args, pos, k)
			}, func(st *State) {
				ex.invoke(st, VIface{b, recv.typ}, m, args, pos, k)
			})
			return
		}
	}
	name := m.FullName()
	// receiver must not be nil
	if !ex.panicCheck(st, tNot(tEq(recv.t, tNilIface)), "method call on nil interface", pos) {
		return
	}
	name = strings.NewReplacer("(", "", ")", "").Replace(name)
	if mod, ok := ifaceModels[name]; ok {
		ex.assumed["model: "+name] = true
		mod(ex, st, recv, args, m.Type().(*types.Signature), pos, k)
		return
	}
	if c := ex.W.ifaceContract(name); c != nil {
		ex.applyContract(st, c, recv, m.Type().(*types.Signature), args, pos, k)
		return
	}
	ex.external(st, name, recv, args, m.Type().(*types.Signature), pos, k)
}

// choice splits a term that is one of two others: ite, or a read from an array just after a store.
func choice(t *Term) (c, a, b *Term, ok bool) {
	if t.kind != 'a' {
		return
	}
	if t.op == "ite" {
		return t.args[0], t.args[1], t.args[2], true
	}
	if t.op == "select" && t.args[0].kind == 'a' && t.args[0].op == "store" {
		s := t.args[0]
		return tEq(s.args[1], t.args[1]), s.args[2], tSelect(s.args[0], t.args[1]), true
	}
	return
}

// concreteIface: the interface term can be a value of known dynamic type.
func concreteIface(t *Term, n int) bool {
	if n <= 0 {
		return false
	}
	if dynType(t) != nil {
		return true
	}
	if _, a, b, ok := choice(t); ok {
		return concreteIface(a, n-1) || concreteIface(b, n-1)
	}
	return false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// external models a call whose body is not analysed: arbitrary results, recorded as an event.
func (ex *Exec) external(st *State, name string, recv Val, args []Val, sig *types.Signature, pos token.Pos, k kont) {
	ex.assumed["unmodelled call: "+name] = true
	pre := st.h.clone()
	pure := pureExternal(name)
	if !pure {
		for _, a := range args {
			ex.havocPointee(st, a)
		}
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if pure {
			if v := ex.pureResult(st, name, recv, args, i, t); v != nil {
				res = append(res, v)
				continue
			}
		}
		res = append(res, ex.symVal(t, shortName(name)))
	}
	ex.convention(st, sig, res)
	ex.event(st, name, recv, args, res, pre, sig, pos)
	k(st, res)
}

// convention: in Go, a nil error means the other results are usable.
func (ex *Exec) convention(st *State, sig *types.Signature, res []Val) {
	n := len(res)
	if n >= 2 && isErrorType(sig.Results().At(n-1).Type()) {
		e := term1(res[n-1])
		for i := 0; i < n-1; i++ {
			switch v := res[i].(type) {
			case VPtr:
				ex.fact(tImp(tEq(e, tNilIface), tNot(tEq(v.ref, tInt(0)))))
			case VIface:
				ex.fact(tImp(tEq(e, tNilIface), tNot(tEq(v.t, tNilIface))))
			}
		}
	}
}

func shortName(n string) string {
	if i := strings.LastIndexAny(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

func (ex *Exec) event(st *State, name string, recv Val, args, res []Val, pre *Heap, sig *types.Signature, pos token.Pos) *Event {
	e := &Event{name: name, recv: recv, args: args, res: res, pre: pre, post: st.h.clone(), pos: pos, ord: len(st.ev), sig: sig}
	st.ev = append(st.ev, e)
	return e
}

// havocPointee forgets the content of objects directly passed to unknown code.
func (ex *Exec) havocPointee(st *State, a Val) {
	switch v := a.(type) {
	case VPtr:
		if v.kind == 'o' && v.ref.isInt() && v.ref.big.Sign() == 0 {
			return
		}
		if opaqueForHavoc(v.elem) {
			return
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Unsupported); !ok {
						panic(r)
					}
				}
			}()
			ex.store(st, v, ex.symVal(v.elem, "havoc"))
		}()
	case VIface:
		if d := dynType(v.t); d != nil {
			if _, ok := d.Underlying().(*types.Pointer); ok {
				ex.havocPointee(st, ex.unIface(st, v.t, d))
			}
		}
	case VSlice:
		if isByte(v.elem) && !(v.base.isInt() && v.base.big.Sign() == 0) {
			ns := ex.freshVar("hb", sStr, false)
			ex.fact(tEq(tSlen(ns), tSlen(st.h.bytes(v.base))))
			for _, w := range ex.writes {
				w("bytes", v.base)
			}
			st.h.setBytes(v.base, ns)
		}
	}
}

func opaqueForHavoc(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct:
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() {
			case "sync", "regexp", "net/http", "net/url", "math/rand":
				return true
			}
		}
	}
	return false
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

var debug = os.Getenv("GOVC_DEBUG") != ""

func (ex *Exec) builtin(st *State, b *ssa.Builtin, args []Val, c *ssa.CallCommon, pos token.Pos, k kont) {
	it := types.Typ[types.Int]
	one := func(v Val) { k(st, []Val{v}) }
	switch b.Name() {
	case "len":
		switch a := args[0].(type) {
		case VT:
			if a.t.sort == sStr {
				one(VT{tSlen(a.t), it})
				return
			}
			if _, ok := a.typ.Underlying().(*types.Map); ok {
				ex.guardMap(st, a.t, false, pos)
				l := st.h.get("maplen", arrSort(sInt, sInt), true)
				r := tIte(tEq(a.t, tInt(0)), tInt(0), tSelect(l, a.t))
				ex.fact(tLe(tInt(0), r))
				one(VT{r, it})
				return
			}
			one(VT{ex.freshVar("len", sInt, true), it})
		case VSlice:
			one(VT{a.len, it})
		case VArr:
			one(VT{tInt(a.typ.Underlying().(*types.Array).Len()), it})
		case VPtr:
			one(VT{tInt(a.elem.Underlying().(*types.Array).Len()), it})
		default:
			panic(Unsupported{"len"})
		}
	case "cap":
		switch a := args[0].(type) {
		case VSlice:
			one(VT{a.cap, it})
		default:
			one(VT{ex.freshVar("cap", sInt, true), it})
		}
	case "append":
		s := args[0].(VSlice)
		if len(args) == 1 {
			one(s)
			return
		}
		one(ex.appendSlice(st, s, args[1]))
	case "copy":
		d := args[0].(VSlice)
		var src, n *Term
		var ss VSlice
		switch y := args[1].(type) {
		case VT:
			src = y.t
			n = tSlen(src)
		case VSlice:
			ss = y
			n = y.len
			if isByte(d.elem) {
				src = st.h.view(y)
				ex.subFacts(src)
			}
		}
		cnt := n
		if le := tLe(n, d.len); le.isTrue() || ex.provable(le) {
			cnt = n
		} else if le := tLe(d.len, n); le.isTrue() || ex.provable(le) {
			cnt = d.len
		} else {
			cnt = tIte(tLe(n, d.len), n, d.len)
		}
		for _, w := range ex.writes {
			if isByte(d.elem) {
				w("bytes", d.base)
			} else {
				w("elem:"+typeStr(d.elem), d.base)
			}
		}
		if isByte(d.elem) {
			old := st.h.bytes(d.base)
			end := tAdd(d.off, cnt)
			nb := tCat(ex.sub(old, tInt(0), d.off), tCat(ex.sub(src, tInt(0), cnt), ex.sub(old, end, tSlen(old))))
			ex.catFacts(nb)
			st.h.setBytes(d.base, nb)
		} else if isStruct(d.elem) || isArrObj(d.elem) {
			panic(Unsupported{"copy of struct slices"})
		} else {
			for _, cc := range comps(d.elem) {
				kk := "elem:" + typeStr(d.elem) + cc.suf
				a := st.h.get(kk, arrSort(sInt, arrSort(sInt, cc.sort)), cc.ref)
				na := tVar("x!"+ex.fresh("copy"), arrSort(sInt, cc.sort))
				q := tVar("?"+ex.fresh("q"), sInt)
				in := tAnd(tLe(d.off, q), tLt(q, tAdd(d.off, cnt)))
				body := tEq(tApp("select", cc.sort, na, q), tIte(in, tSelect(tSelect(a, ss.base), tAdd(tSub(q, d.off), ss.off)), tSelect(tSelect(a, d.base), q)))
				ex.assume(st, tForall([]*Term{q}, body, tApp("select", cc.sort, na, q)))
				st.h.m[kk] = tStore(a, d.base, na)
			}
		}
		one(VT{cnt, it})
	case "delete":
		m := args[0].(VT)
		ex.guardMap(st, m.t, true, pos)
		for _, w := range ex.writes {
			w(mapKey(c.Args[0].Type()), m.t)
			w("maplen", m.t)
		}
		st.h.mapDel(c.Args[0].Type(), m.t, term1(args[1]))
		k(st, nil)
	case "ssa:wrapnilchk":
		p := args[0].(VPtr)
		if !ex.nilCheck(st, p, pos, " (value method on nil pointer)") {
			return
		}
		one(p)
	case "min", "max":
		r := term1(args[0])
		for _, a := range args[1:] {
			y := term1(a)
			if r.sort != sInt {
				one(ex.symVal(c.Signature().Results().At(0).Type(), "minmax"))
				return
			}
			if b.Name() == "min" {
				r = tIte(tLe(r, y), r, y)
			} else {
				r = tIte(tLe(r, y), y, r)
			}
		}
		one(VT{r, valType(args[0])})
	case "clear":
		panic(Unsupported{"clear"})
	case "close", "print", "println":
		k(st, nil)
	case "recover":
		one(VIface{tNilIface, c.Signature().Results().At(0).Type()})
	default:
		panic(Unsupported{"builtin " + b.Name()})
	}
}

// sub is tSubstr with its length fact.
func (ex *Exec) sub(s, i, j *Term) *Term {
	r := tSubstr(s, i, j)
	ex.subFacts(r)
	return r
}

// appendSlice models append by always allocating a fresh backing array (writes
// through an aliased spare capacity are therefore not modelled for s itself; the
// elements beyond len(s) of the original array are unobservable through s).
func (ex *Exec) appendSlice(st *State, s VSlice, add Val) VSlice {
	if isByte(s.elem) {
		var src *Term
		switch y := add.(type) {
		case VT:
			src = y.t
		case VSlice:
			src = st.h.view(y)
			ex.subFacts(src)
		}
		old := st.h.view(s)
		ex.subFacts(old)
		nb := tCat(old, src)
		ex.catFacts(nb)
		r := ex.alloc(st)
		st.h.setBytes(r, nb)
		n := tAdd(s.len, tSlen(src))
		return VSlice{base: r, off: tInt(0), len: n, cap: n, elem: s.elem}
	}
	y, ok := add.(VSlice)
	if !ok {
		panic(Unsupported{"append"})
	}
	if y.len.isInt() && y.len.big.Sign() == 0 {
		return s
	}
	n := tAdd(s.len, y.len)
	r := ex.alloc(st)
	out := VSlice{base: r, off: tInt(0), len: n, cap: n, elem: s.elem}
	if y.len.isInt() && y.len.big.IsInt64() && y.len.big.Int64() <= 32 && s.len.isInt() && s.len.big.Int64() <= 64 {
		for i := int64(0); i < s.len.big.Int64(); i++ {
			st.h.storeElem(s.elem, r, tInt(i), st.h.loadElem(s.elem, s.base, tAdd(s.off, tInt(i))))
		}
		for i := int64(0); i < y.len.big.Int64(); i++ {
			st.h.storeElem(s.elem, r, tAdd(s.len, tInt(i)), st.h.loadElem(s.elem, y.base, tAdd(y.off, tInt(i))))
		}
		return out
	}
	if isArrObj(s.elem) {
		// contents of array elements become unknown
		return out
	}
	if !s.off.isInt() && ex.provable(tEq(s.off, tInt(0))) {
		s.off = tInt(0)
	}
	if isStruct(s.elem) {
		// the new backing array starts with the old elements
		q := tVar("?"+ex.fresh("q"), sInt)
		nv := toTerms(st.h.loadElem(s.elem, r, q))
		ov := toTerms(st.h.loadElem(s.elem, s.base, tAdd(s.off, q)))
		body := tTrue
		for i := range nv {
			body = tAnd(body, tEq(nv[i], ov[i]))
		}
		body = tImp(tAnd(tLe(tInt(0), q), tLt(q, s.len)), body)
		kind := "elem:" + typeStr(s.elem)
		ex.fact(tForall([]*Term{q}, body, subRef(kind, r, q)))
		if s.off.isInt() && s.off.big.Sign() == 0 {
			ex.fact(tForall([]*Term{q}, body, subRef(kind, s.base, q)))
		}
		if y.len.isInt() && y.len.big.IsInt64() && y.len.big.Int64() <= 32 {
			for i := int64(0); i < y.len.big.Int64(); i++ {
				st.h.storeElem(s.elem, r, tAdd(s.len, tInt(i)), st.h.loadElem(s.elem, y.base, tAdd(y.off, tInt(i))))
			}
		}
		return out
	}
	for _, cc := range comps(s.elem) {
		kk := "elem:" + typeStr(s.elem) + cc.suf
		a := st.h.get(kk, arrSort(sInt, arrSort(sInt, cc.sort)), cc.ref)
		oldArr := tSelect(a, s.base)
		var na *Term
		if s.off.isInt() && s.off.big.Sign() == 0 && y.len.isInt() && y.len.big.IsInt64() && y.len.big.Int64() <= 32 {
			na = oldArr
			for i := int64(0); i < y.len.big.Int64(); i++ {
				na = tStore(na, tAdd(s.len, tInt(i)), tSelect(tSelect(a, y.base), tAdd(y.off, tInt(i))))
			}
		} else {
			na = tVar("x!"+ex.fresh("app"), arrSort(sInt, cc.sort))
			q := tVar("?"+ex.fresh("q"), sInt)
			body := tAnd(
				tImp(tAnd(tLe(tInt(0), q), tLt(q, s.len)), tEq(tApp("select", cc.sort, na, q), tSelect(oldArr, tAdd(s.off, q)))),
				tImp(tAnd(tLe(s.len, q), tLt(q, n)), tEq(tApp("select", cc.sort, na, q), tSelect(tSelect(a, y.base), tAdd(y.off, tSub(q, s.len))))))
			ex.fact(tForall([]*Term{q}, body, tApp("select", cc.sort, na, q)))
			// forward direction triggers for the sources
			body1 := tImp(tAnd(tLe(tInt(0), q), tLt(q, s.len)), tEq(tApp("select", cc.sort, na, q), tSelect(oldArr, tAdd(s.off, q))))
			if s.off.isInt() && s.off.big.Sign() == 0 {
				ex.fact(tForall([]*Term{q}, body1, tSelect(oldArr, q)))
			}
			src := tSelect(a, y.base)
			ex.fact(tForall([]*Term{q}, tImp(tAnd(tLe(y.off, q), tLt(q, tAdd(y.off, y.len))), tEq(tApp("select", cc.sort, na, tAdd(s.len, tSub(q, y.off))), tSelect(src, q))), tSelect(src, q)))
		}
		st.h.m[kk] = tStore(a, r, na)
	}
	return out
}
