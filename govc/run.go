package main

import (
	"fmt"
	"go/token"
	"go/types"
	rdebug "runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- contracts at call sites ----

func (ex *Exec) newEnv(st *State) *SpecEnv {
	return &SpecEnv{ex: ex, vars: map[string]Val{}, lets: map[string]*SE{}, h: st.h, old: st.h, st: st, w: ex.W}
}

func (env *SpecEnv) bindContract(c *Contract, recv Val, args []Val) {
	ps := c.Params
	if c.Recv != "" {
		if recv == nil && len(args) == len(ps)+1 {
			recv = args[0]
			args = args[1:]
		}
		env.vars[c.Recv] = recv
	}
	if len(args) != len(ps) {
		specErr("contract %s names %d parameters, the code has %d", c.Name, len(ps), len(args))
	}
	for i, p := range ps {
		env.vars[p] = args[i]
	}
	for _, l := range c.Lets {
		env.lets[l.name] = l.e
	}
}

// applyContract checks a callee's precondition and continues with its postcondition only.
func (ex *Exec) applyContract(st *State, c *Contract, recv Val, sig *types.Signature, args []Val, pos token.Pos, k kont) {
	ex.contractsUsed[c.Name] = c
	if c.IsIface {
		ex.assumed["assumed contract: "+c.Name] = true
	}
	if ri, ok := recv.(VIface); !ok || ri.typ == nil {
		_ = ri
	}
	env := ex.newEnv(st)
	env.bindContract(c, recv, args)
	for _, r := range c.Requires {
		t := env.bool(r.E)
		ex.prove(st, t, ex.curID+".pre", "precondition", "precondition of "+shortName(c.Name)+": "+r.Src, pos)
		ex.assume(st, t)
	}
	pre := st.h.clone()
	for _, m := range c.Modifies {
		ex.havocPointee(st, env.eval(m))
	}
	var res []Val
	if c.Returns != nil {
		v := retype(env.eval(c.Returns), sig.Results().At(0).Type())
		if !c.NoEvent {
			ex.event(st, c.Name, recv, args, []Val{v}, pre, sig, pos)
		}
		k(st, []Val{v})
		return
	}
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, ex.symVal(sig.Results().At(i).Type(), shortName(c.Name)))
	}
	ex.convention(st, sig, res)
	if !c.NoEvent {
		ex.event(st, c.Name, recv, args, res, pre, sig, pos)
	}
	env2 := ex.newEnv(st)
	env2.old = pre
	env2.bindContract(c, recv, args)
	for i, n := range c.Results {
		if i < len(res) {
			env2.vars[n] = res[i]
		}
	}
	for _, e := range c.Ensures {
		ex.assume(st, env2.bool(e.E))
	}
	k(st, res)
}

// ---- verification units ----

type Result struct {
	Unit       string
	Obl, Disch int
	Backends   map[string]int
	Paths      int
	Fails      []*Failure
	Incomplete []string
	IncTrail   [][]string
	Assumed    map[string]bool
	Inlined    map[string]bool
	Contracts  map[string]*Contract
	Covered    map[string]bool
	Covers     []string
	Clauses    map[string]int
	Loops      int
	Invs       int
	Wall       time.Duration
	Err        string
}

func newExec(w *World, ms int) *Exec {
	return &Exec{W: w, prog: w.prog, s: newSolver(ms), covered: map[string]bool{}, failKey: map[string]bool{}, assumed: map[string]bool{}, inlined: map[string]bool{}, backends: map[string]int{}, failCount: map[string]int{}, noModular: map[string]bool{}, contractsUsed: map[string]*Contract{}, unrollLimit: 24, constructed: map[string]bool{}}
}

func matchID(id, name string) bool { return id == "" || strings.SplitN(name, ".", 2)[0] == id }

func hasID(c *Contract, id string) bool {
	for _, e := range c.Ensures {
		if e.ID == id {
			return true
		}
	}
	for _, e := range c.Covers {
		if e.ID == id {
			return true
		}
	}
	for _, p := range strings.Fields(c.Panics) {
		if p == id {
			return true
		}
	}
	if t := c.Tgt; t != nil && t.Locks == id {
		return true
	}
	return false
}

// runTarget verifies the clauses of property id of one unit.
func (w *World) runTarget(t *Target, id string, budget time.Duration, ms int, revealed bool) (res *Result) {
	return w.runUnit(t, id, budget, ms, runOpts{revealed: revealed})
}

// abortFail ends a run whose verdict is already negative.
type abortFail struct{}

func (w *World) runUnit(t *Target, id string, budget time.Duration, ms int, o runOpts) (res *Result) {
	t0 := time.Now()
	if o.hard {
		ms *= 3
	}
	ex := newExec(w, ms)
	if ex.hard = o.hard; ex.hard {
		ex.s.send("(set-option :smt.random_seed 7)")
	}
	ex.deadline = t0.Add(budget)
	ex.curID = id
	ex.target = t
	ex.revealed = o.revealed
	ex.only, ex.final = o.only, o.final
	ex.isKnown = func(f *Failure) bool { return w.findings != nil && w.findings(id, t.Name, f) }
	for _, n := range o.inline {
		ex.noModular[n] = true
	}
	if t.Unroll > 0 {
		ex.unrollLimit = t.Unroll
	}
	for _, n := range t.Inline {
		ex.noModular[n] = true
	}
	res = &Result{Unit: t.Name, Clauses: map[string]int{}}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case Unsupported:
				ex.incomplete = append(ex.incomplete, e.msg)
				ex.incTrail = append(ex.incTrail, nil)
			case abortFail:
			case abortRun:
				ex.incomplete = append(ex.incomplete, e.msg)
				ex.incTrail = append(ex.incTrail, nil)
			case SpecError:
				ex.incomplete = append(ex.incomplete, "contract cannot be evaluated: "+e.msg)
				ex.incTrail = append(ex.incTrail, nil)
			default:
				res.Err = fmt.Sprintf("%v\n%s", r, rdebug.Stack())
			}
		}
		ex.s.Close()
		res.Obl, res.Disch, res.Backends, res.Paths = ex.obl, ex.disch, ex.backends, ex.returns
		res.Fails, res.Incomplete, res.IncTrail = ex.fails, ex.incomplete, ex.incTrail
		res.Assumed, res.Inlined, res.Contracts, res.Covered = ex.assumed, ex.inlined, ex.contractsUsed, ex.covered
		res.Loops, res.Invs = ex.loopsCut, ex.invs
		res.Wall = time.Since(t0)
	}()
	ex.assumed["Go runtime semantics of SSA instructions as implemented by govc"] = true
	st := ex.initState()
	ex.inlined = map[string]bool{}
	ex.obl, ex.disch, ex.backends = 0, 0, map[string]int{}
	for _, p := range strings.Fields(t.Panics) {
		if p == id {
			ex.panics = true
			ex.panicID = id + ".no-panic"
		}
	}
	if t.New != "" {
		w.runMethodTarget(ex, st, t, id, res)
	} else {
		fn, err := w.findFn(t.Fn)
		if err != nil {
			ex.incomplete = append(ex.incomplete, err.Error())
			ex.incTrail = append(ex.incTrail, nil)
			return res
		}
		args := ex.paramVals(st, t, fn, "")
		w.runBody(ex, st, t, id, res, nil, args, fn.Signature, func(st *State, args []Val, k kont) {
			ex.callStaticTop(st, fn, args, k)
		})
	}
	if ex.returns == 0 && len(ex.fails) == 0 && len(ex.incomplete) == 0 && !ex.panics {
		ex.incomplete = append(ex.incomplete, "no execution of "+t.Name+" returns")
		ex.incTrail = append(ex.incTrail, nil)
	}
	for _, c := range t.Covers {
		if c.ID == id && (o.only == nil || o.only[c.Name]) {
			ex.obl++
			if ex.covered[c.Name+c.Src] {
				ex.disch++
				ex.backends["z3 (reachability)"]++
			} else if len(ex.incomplete) == 0 {
				ex.fails = append(ex.fails, &Failure{Clause: c.Name, Kind: "reachability", Msg: "no execution satisfies: " + c.Src, Pos: fmt.Sprintf("%s:%d", c.File, c.Line)})
			}
			res.Covers = append(res.Covers, c.Name)
		}
	}
	return res
}

// contractTarget turns the contract of a function into a verification unit.
func contractTarget(c *Contract) *Target {
	t := &Target{Contract: *c, Nullable: map[string]bool{}, AllIDs: true}
	t.Fn = c.Name
	t.Name = "contract of " + c.Name
	t.Inline = []string{c.Name}
	return t
}

// callStaticTop runs the unit's own body even if it has a model or contract.
func (ex *Exec) callStaticTop(st *State, fn *ssa.Function, args []Val, k kont) {
	if fn.Blocks == nil {
		if p := fn.Package(); p != nil {
			p.Build()
		}
	}
	ex.callFn(st, fn, args, nil, k)
}

func (ex *Exec) paramVals(st *State, t *Target, fn *ssa.Function, pfx string) []Val {
	var args []Val
	sig := fn.Signature
	if sig.Recv() != nil {
		v := ex.symVal(fn.Params[0].Type(), "recv")
		if p, ok := v.(VPtr); ok && !t.Nullable[t.Recv] {
			ex.assume(st, tNot(tEq(p.ref, tInt(0))))
		}
		args = append(args, v)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		v := ex.symVal(p.Type(), p.Name())
		args = append(args, v)
		if f, ok := v.(VFunc); ok && f.t != nil {
			name := p.Name()
			if i < len(t.Params) {
				name = t.Params[i]
			}
			if !t.Nullable[name] {
				ex.assume(st, tNot(tEq(f.t, tInt(0))))
			}
		}
		if iv, ok := v.(VIface); ok && typeStr(p.Type()) == "context.Context" {
			ex.assume(st, tNot(tEq(iv.t, tNilIface)))
		}
	}
	return args
}

func (w *World) runMethodTarget(ex *Exec, st *State, t *Target, id string, res *Result) {
	ctor, err := w.findFn(t.New)
	if err != nil {
		panic(Unsupported{err.Error()})
	}
	var cargs []Val
	for i := 0; i < ctor.Signature.Params().Len(); i++ {
		p := ctor.Signature.Params().At(i)
		v := ex.symVal(p.Type(), p.Name())
		name := p.Name()
		if i < len(t.NewArgs) {
			name = t.NewArgs[i]
		}
		if !t.Nullable[name] {
			switch x := v.(type) {
			case VIface:
				ex.assume(st, tNot(tEq(x.t, tNilIface)))
			case VPtr:
				ex.assume(st, tNot(tEq(x.ref, tInt(0))))
			case VFunc:
				if x.t != nil {
					ex.assume(st, tNot(tEq(x.t, tInt(0))))
				}
			}
		}
		cargs = append(cargs, v)
	}
	savedPanics := ex.panics
	ex.callStaticTop(st, ctor, cargs, func(st *State, cres []Val) {
		if n := len(cres); n > 1 && isErrorType(ctor.Signature.Results().At(n-1).Type()) {
			e := term1(cres[n-1])
			ex.assume(st, tEq(e, tNilIface))
			if !ex.feasible() {
				return
			}
		}
		_ = savedPanics
		st.ev = nil
		ex.havocCtorState(st, t, ctor, cres[0])
		ex.entryAlloc = st.nalloc
		bind := map[string]Val{}
		for i, n := range t.NewArgs {
			if i < len(cargs) {
				bind[n] = cargs[i]
			}
		}
		for i, n := range t.NewRes {
			if i < len(cres) {
				bind[n] = cres[i]
			}
		}
		var fn *ssa.Function
		var rv Val
		switch r := cres[0].(type) {
		case VIface:
			d := dynType(r.t)
			if d == nil {
				panic(Unsupported{"constructor " + t.New + " returns an unknown implementation"})
			}
			rv = ex.unIface(st, r.t, d)
			fn = w.methodOf(d, ctor, t.Method)
		case VFunc:
			// a constructor returning a function value
			sig := r.typ.Underlying().(*types.Signature)
			args := ex.sigVals(st, t, sig)
			w.runBody(ex, st, t, id, res, bind, args, sig, func(st *State, args []Val, k kont) {
				ex.callVal(st, r, args, sig, token.NoPos, nil, k)
			})
			return
		default:
			rv = r
			fn = w.methodOf(ctor.Signature.Results().At(0).Type(), ctor, t.Method)
		}
		if fn == nil {
			panic(Unsupported{"no method " + t.Method + " on the result of " + t.New})
		}
		args := ex.sigVals(st, t, fn.Signature)
		w.runBody(ex, st, t, id, res, bind, args, fn.Signature, func(st *State, args []Val, k kont) {
			ex.callStaticTop(st, fn, append([]Val{rv}, args...), k)
		})
	})
}

func (w *World) methodOf(d types.Type, ctor *ssa.Function, name string) *ssa.Function {
	fn := w.prog.LookupMethod(d, ctor.Pkg.Pkg, name)
	return fn
}

func (ex *Exec) sigVals(st *State, t *Target, sig *types.Signature) []Val {
	var args []Val
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		v := ex.symVal(p.Type(), p.Name())
		args = append(args, v)
		if iv, ok := v.(VIface); ok && typeStr(p.Type()) == "context.Context" {
			ex.assume(st, tNot(tEq(iv.t, tNilIface)))
		}
	}
	return args
}

// havocCtorState forgets every field of the constructed object that some other
// function writes: methods are verified from any state earlier calls can leave.
func (ex *Exec) havocCtorState(st *State, t *Target, ctor *ssa.Function, v Val) {
	var p VPtr
	switch x := v.(type) {
	case VIface:
		d := dynType(x.t)
		if d == nil {
			return
		}
		pv, ok := ex.unIface(st, x.t, d).(VPtr)
		if !ok {
			return
		}
		p = pv
	case VPtr:
		p = x
	default:
		return
	}
	if p.kind != 'o' || !isStruct(p.elem) {
		return
	}
	s := p.elem.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		k := fieldKey(p.elem, i)
		if other(ex.W.fieldWriters[k], ctor) {
			st.h.storeField(p.elem, i, p.ref, ex.symVal(s.Field(i).Type(), "state."+s.Field(i).Name()))
		} else if mt, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
			// contents of maps owned by the object
			_ = mt
			if len(ex.W.fieldWriters[k+"#map"]) > 0 || t.Havoc {
				m := term1(st.h.loadField(p.elem, i, p.ref))
				ex.havocMap(st, s.Field(i).Type(), m)
			}
		}
	}
}

func other(m map[*ssa.Function]bool, ctor *ssa.Function) bool {
	for f := range m {
		if f != ctor && f.Parent() != ctor {
			return true
		}
	}
	return false
}

func (ex *Exec) havocMap(st *State, t types.Type, m *Term) {
	mk := mapKey(t)
	dom := st.h.mapDom(t, m)
	ks, vs := splitArr(dom.sort)
	_ = ks
	_ = vs
	dk := mk + "#dom"
	full := st.h.m[dk]
	st.h.m[dk] = tStore(full, m, tVar("x!"+ex.fresh("mapdom"), dom.sort))
	et := t.Underlying().(*types.Map).Elem()
	if isStruct(et) {
		return
	}
	for _, c := range comps(et) {
		vk := mk + "#val" + c.suf
		if f, ok := st.h.m[vk]; ok {
			_, inner := splitArr(f.sort)
			st.h.m[vk] = tStore(f, m, tVar("x!"+ex.fresh("mapval"), inner))
		}
	}
	l := st.h.get("maplen", arrSort(sInt, sInt), true)
	n := ex.freshVar("maplen", sInt, true)
	st.h.m["maplen"] = tStore(l, m, n)
}

// runBody assumes the preconditions, runs the unit and checks its postconditions at
// every return.
func (w *World) runBody(ex *Exec, st *State, t *Target, id string, res *Result, bind map[string]Val, args []Val, sig *types.Signature, call func(*State, []Val, kont)) {
	mkEnv := func(st *State) *SpecEnv {
		env := ex.newEnv(st)
		env.bindContract(&t.Contract, nil, args)
		for k, v := range bind {
			env.vars[k] = v
		}
		return env
	}
	pre := mkEnv(st)
	for _, r := range t.Requires {
		ex.assume(st, pre.bool(r.E))
	}
	for _, r := range t.Assumes {
		ex.assume(st, pre.bool(r.E))
		ex.assumed["assumed in "+t.Name+": "+r.Src] = true
	}
	if !ex.feasible() {
		panic(Unsupported{"preconditions of " + t.Name + " are contradictory"})
	}
	old := st.h.clone()
	clock0 := st.clock
	for _, a := range args {
		if p, ok := a.(VPtr); ok && p.ref != nil && p.kind == 'o' {
			ex.callerPtrs = append(ex.callerPtrs, p.ref)
		}
	}
	d := len(st.frames)
	ex.unitDepth = d
	ex.unitEnv = func(s *State) *SpecEnv {
		e := mkEnv(s)
		e.old = old
		e.noEvents = true
		return e
	}
	ex.unitClauses = nil
	for _, e := range t.Ensures {
		if len(t.Ensures) <= 8 && (e.ID == id || t.AllIDs) {
			ex.unitClauses = append(ex.unitClauses, e)
		}
	}
	call(st, args, func(st *State, rs []Val) {
		if ex.quiet > 0 {
			return
		}
		if len(st.frames) != d {
			panic("frame mismatch at return")
		}
		if !ex.feasible() {
			return
		}
		ex.returns++
		if t.Locks == id {
			ex.prove(st, tBool(len(st.held) == 0), id, "lock discipline", "a lock is still held when "+t.Name+" returns", token.NoPos)
		}
		env := mkEnv(st)
		env.old = old
		env.vars["clock0"] = vint(clock0)
		env.vars["clock1"] = vint(st.clock)
		for i, n := range t.Results {
			if i < len(rs) {
				env.vars[n] = rs[i]
			}
		}
		if t.Returns != nil && len(rs) == 1 {
			var c *Clause
			if vt, ok := rs[0].(VT); ok && vt.t.sort == sBool {
				c = &Clause{ID: id, Name: id + ".contract", Src: t.Name + " returns " + t.ReturnsSrc, E: &SE{op: "<=>", args: []*SE{{op: "ident", s: "$r"}, t.Returns}}}
			} else {
				c = &Clause{ID: id, Name: id + ".contract", Src: t.Name + " returns " + t.ReturnsSrc, E: &SE{op: "==", args: []*SE{{op: "ident", s: "$r"}, t.Returns}}}
			}
			env.vars["$r"] = rs[0]
			res.Clauses[c.Name]++
			ex.checkClause(st, env, c)
		}
		for _, e := range t.Ensures {
			if e.ID != id && !t.AllIDs {
				continue
			}
			if e.Name == "" {
				e2 := *e
				e2.ID, e2.Name = id, id+".contract"
				e = &e2
			}
			res.Clauses[e.Name]++
			ex.checkClause(st, env, e)
		}
		for _, c := range t.Covers {
			if c.ID != id || ex.covered[c.Name+c.Src] {
				continue
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(SpecError); !ok {
							panic(r)
						}
					}
				}()
				b := env.bool(c.E)
				if !b.isFalse() && ex.s.CheckWith(b) != "unsat" {
					ex.covered[c.Name+c.Src] = true
				}
			}()
		}
	})
}

func (ex *Exec) checkClause(st *State, env *SpecEnv, e *Clause) {
	defer func() {
		if r := recover(); r != nil {
			se, ok := r.(SpecError)
			if !ok {
				panic(r)
			}
			ex.obl++
			key := e.Name + "|spec|" + se.msg
			if !ex.failKey[key] {
				ex.failKey[key] = true
				f := &Failure{Clause: e.Name, Kind: "contract evaluation", Msg: se.msg + " in: " + e.Src, Pos: fmt.Sprintf("%s:%d", e.File, e.Line)}
				f.Trail = append(f.Trail, st.trail...)
				ex.fails = append(ex.fails, f)
			}
		}
	}()
	// conjunctions are separate obligations
	var split func(c *SE, hyp *Term, en *SpecEnv)
	split = func(c *SE, hyp *Term, en *SpecEnv) {
		if c.op == "&&" {
			split(c.args[0], hyp, en)
			split(c.args[1], hyp, en)
			return
		}
		if c.op == "==>" {
			h := en.bool(c.args[0])
			if h.isFalse() {
				ex.obl++
				ex.disch++
				ex.backends["simplifier"]++
				return
			}
			if !h.isTrue() {
				if ex.s.CheckWith(tAnd(hyp, h)) == "unsat" {
					ex.obl++
					ex.disch++
					ex.backends["z3"]++
					return
				}
			}
			split(c.args[1], tAnd(hyp, h), en)
			return
		}
		g := en.bool(c)
		ex.prove(st, tImp(hyp, g), e.Name, "postcondition", e.Src, token.NoPos)
	}
	split(e.E, tTrue, env)
}

func sortedSet(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
