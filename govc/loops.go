package main

import (
	"fmt"
	"go/types"
	"math/big"
	"slices"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var loopMemo sync.Map // *ssa.BasicBlock -> bool

func isLoopHeader(b *ssa.BasicBlock) bool {
	if v, ok := loopMemo.Load(b); ok {
		return v.(bool)
	}
	r := false
	for _, p := range b.Preds {
		if b.Dominates(p) {
			r = true
		}
	}
	loopMemo.Store(b, r)
	return r
}

// loopBlocks is the natural loop of header b.
func loopBlocks(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	set := map[*ssa.BasicBlock]bool{b: true}
	var work []*ssa.BasicBlock
	for _, p := range b.Preds {
		if b.Dominates(p) && !set[p] {
			set[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range x.Preds {
			if !set[p] {
				set[p] = true
				work = append(work, p)
			}
		}
	}
	return set
}

// headerConcrete reports whether the loop test is decided on entry, so that the
// loop can be executed iteration by iteration.
func (ex *Exec) headerConcrete(st *State, b, prev *ssa.BasicBlock) (res bool) {
	last, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	fr := st.fr()
	saved := map[ssa.Value]Val{}
	for k, v := range fr.env {
		saved[k] = v
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(Unsupported); !ok {
				panic(r)
			}
			res = false
		}
		fr.env = saved
	}()
	ex.phis(st, b, prev)
	for _, in := range b.Instrs[numPhis(b):] {
		switch x := in.(type) {
		case *ssa.BinOp:
			v, _ := ex.binop(st, x.Op, ex.val(st, x.X), ex.val(st, x.Y), x.Type(), x.Pos())
			fr.env[x] = v
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if s, ok := ex.val(st, x.Call.Args[0]).(VSlice); ok {
					fr.env[x] = VT{s.len, x.Type()}
					continue
				}
				if s, ok := ex.val(st, x.Call.Args[0]).(VT); ok && s.t.sort == sStr {
					fr.env[x] = VT{tSlen(s.t), x.Type()}
					continue
				}
			}
			return false
		case *ssa.If:
			c := term1(ex.val(st, last.Cond))
			return c.isTrue() || c.isFalse()
		default:
			return false
		}
	}
	return false
}

type loopWrite struct {
	key string
	ref *Term
}

type cand struct {
	mk   func(*State, map[*Term]*Term) *Term
	t    *Term // over placeholder variables
	desc string
	dead bool
}

func phName(p *ssa.Phi, i int) string { return fmt.Sprintf("?ph!%p#%d", p, i) }

// varNo extracts the creation counter of a generated variable.
func varNo(v *Term) int {
	i := strings.LastIndexByte(v.op, '!')
	if i < 0 {
		return -1
	}
	n, err := strconv.Atoi(v.op[i+1:])
	if err != nil {
		return -1
	}
	return n
}

func (ex *Exec) cutLoop(st *State, b, prev *ssa.BasicBlock, k kont) {
	ex.loopsCut++
	blocks := loopBlocks(b)
	var ph []*ssa.Phi
	for _, in := range b.Instrs[:numPhis(b)] {
		ph = append(ph, in.(*ssa.Phi))
	}
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	init := map[*ssa.Phi][]*Term{}
	initVal := map[*ssa.Phi]Val{}
	for _, p := range ph {
		v := ex.val(st, p.Edges[pi])
		if _, ok := v.(VIter); ok {
			initVal[p] = v
			continue
		}
		initVal[p] = v
		init[p] = toTerms(v)
	}
	headAlloc := st.nalloc
	entry := st.h.clone()

	var kept func(p *ssa.Phi, i int) bool
	havocPhi := func(p *ssa.Phi) Val {
		if _, ok := initVal[p].(VIter); ok {
			return initVal[p]
		}
		var ts []*Term
		cs := compsOf(initVal[p], p.Type())
		for i, c := range cs {
			if init[p] != nil && init[p][i].isInt() && kept(p, i) {
				ts = append(ts, init[p][i])
				continue
			}
			hint := "phi." + p.Comment
			isRef := c.ref && c.suf != "#len" && c.suf != "#cap" && c.suf != "#off"
			if b, ok := p.Type().Underlying().(*types.Basic); isRef && !(ok && b.Info()&types.IsInteger != 0) {
				hint = fmt.Sprintf("lr%d.%s", headAlloc, hint)
			}
			v := ex.freshVar(hint, c.sort, false)
			if c.ref {
				// references may denote objects allocated before this iteration
				if c.suf == "#len" || c.suf == "#cap" || c.suf == "#off" {
					ex.fact(tLe(tInt(0), v))
				} else {
					if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
						ex.fact(tLe(tInt(0), v))
					} else {
						ex.fact(tOr(tLe(tInt(int64(-headAlloc)), v), tLe(v, tInt(-1000000000))))
					}
				}
			}
			ts = append(ts, v)
		}
		v := fromTerms(p.Type(), ts)
		ex.typeFacts(v)
		return v
	}

	// candidates
	var cands []*cand
	instC := func(c *cand, s *State, sub map[*Term]*Term) *Term {
		if c.mk != nil {
			return c.mk(s, sub)
		}
		return subst(c.t, sub)
	}
	for _, m := range ex.heapCands(st) {
		cands = append(cands, &cand{mk: m, desc: "contract clause"})
	}
	clauses := cands
	addC := func(t *Term, d string) {
		for _, c := range cands {
			if c.mk == nil && c.t == t {
				return
			}
		}
		cands = append(cands, &cand{t: t, desc: d})
	}
	pv := func(p *ssa.Phi, i int) *Term { return tVar(phName(p, i), init[p][i].sort) }
	isIntPhi := func(p *ssa.Phi) bool {
		bt, ok := p.Type().Underlying().(*types.Basic)
		return ok && bt.Info()&types.IsInteger != 0 && len(init[p]) == 1
	}
	for _, p := range ph {
		if init[p] == nil {
			continue
		}
		if isIntPhi(p) {
			x, v0 := pv(p, 0), init[p][0]
			addC(tLe(v0, x), "phi >= init")
			addC(tLe(tInt(0), x), "phi >= 0")
			addC(tLe(x, v0), "phi <= init")
			for _, q := range ph {
				if q != p && init[q] != nil && isIntPhi(q) {
					addC(tEq(tSub(x, v0), tSub(pv(q, 0), init[q][0])), "lockstep")
					addC(tLe(x, pv(q, 0)), "phi<=phi")
				}
			}
			continue
		}
		for i := range init[p] {
			x := pv(p, i)
			addC(tEq(x, init[p][i]), "phi == init")
			if x.sort == sIface {
				addC(tNot(tEq(x, tNilIface)), "phi != nil")
			}
			if x.sort == sInt {
				addC(tNot(tEq(x, tInt(0))), "phi != 0")
				addC(tLe(x, init[p][i]), "phi <= init")
			}
		}
		if _, ok := initVal[p].(VSlice); ok {
			addC(tEq(tAdd(pv(p, 3), pv(p, 1)), tAdd(init[p][3], init[p][1])), "slice tail")
		}
	}

	// a component known to keep its literal value
	kept = func(p *ssa.Phi, i int) bool {
		t := tEq(pv(p, i), init[p][i])
		for _, c := range cands {
			if c.mk == nil && c.t == t {
				return !c.dead
			}
		}
		return false
	}

	// contract clauses that hold once a loop variable says so
	for _, c := range clauses {
		for _, p := range ph {
			if init[p] == nil || len(init[p]) != 1 {
				continue
			}
			x, mk := pv(p, 0), c.mk
			var gs []*Term
			switch {
			case isIntPhi(p):
				gs = []*Term{tLe(tInt(0), x)}
			case x.sort == sBool:
				gs = []*Term{x, tNot(x)}
			case x.sort == sIface:
				gs = []*Term{tEq(x, tNilIface), tNot(tEq(x, tNilIface))}
			}
			for _, g := range gs {
				cands = append(cands, &cand{mk: func(s *State, sub map[*Term]*Term) *Term {
					t := mk(s, sub)
					if t.isFalse() {
						return t
					}
					return tOr(subst(g, sub), t)
				}, desc: "contract clause"})
			}
		}
	}

	writes := map[string]map[*Term]bool{}
	evNames := map[string]*types.Signature{}
	nHead := ex.n

	// havocState prepares an arbitrary iteration start in s.
	havocState := func(s *State) map[*Term]*Term {
		sub := map[*Term]*Term{}
		for _, p := range ph {
			v := havocPhi(p)
			s.fr().env[p] = v
			if init[p] != nil {
				for i, t := range toTerms(v) {
					sub[pv(p, i)] = t
				}
			}
		}
		for key, refs := range writes {
			whole := false
			for r := range refs {
				if r == nil {
					whole = true
				}
			}
			keyReg.Range(func(kk, sv any) bool {
				name, srt := kk.(string), sv.(string)
				if !keyMatches(name, key) {
					return true
				}
				if whole {
					s.h.m[name] = tVar("H!"+ex.fresh("loop."+name), srt)
					return true
				}
				cur := s.h.get(name, srt, false)
				_, vs := splitArr(srt)
				for r := range refs {
					nv := tVar("x!"+ex.fresh("lw"), vs)
					if name == "bytes" {
						ex.fact(tEq(tSlen(nv), tSlen(tSelect(cur, r))))
					}
					cur = tStore(cur, r, nv)
				}
				s.h.m[name] = cur
				return true
			})
		}
		c := ex.freshVar("clock", sInt, false)
		ex.fact(tLe(s.clock, c))
		s.clock = c
		return sub
	}

	type backEdge struct {
		conds []*Term
		news  map[*Term]*Term // placeholder -> new value
		h     *Heap
	}
	var lastBacks []backEdge
	var lastSub map[*Term]*Term
	var lastHead int

	iterate := func(collect bool) (changed bool) {
		ex.quiet++
		ex.s.Push()
		s := st.clone()
		nHead = ex.n
		sub := havocState(s)
		for _, c := range cands {
			if !c.dead {
				ex.assume(s, instC(c, s, sub))
			}
		}
		base := len(s.conds)
		nev := len(s.ev)
		lastBacks = nil
		lastSub = sub
		lastHead = nHead
		phiVars := map[*Term]bool{}
		for _, v := range sub {
			phiVars[v] = true
		}
		hook := func(key string, ref *Term) {
			o := ownerLit(ref)
			if o.isInt() && o.big.Sign() < 0 && o.big.IsInt64() && o.big.Int64() < int64(-headAlloc) && o.big.Int64() > -1000000000 {
				return // object allocated inside the iteration
			}
			inv := true
			collectVars(ref, func(v *Term) {
				if v.kind == 'v' && (phiVars[v] || varNo(v) > nHead) {
					inv = false
				}
				if v.kind == 'v' && strings.HasPrefix(v.op, "H!loop.") {
					inv = false
				}
			})
			if writes[key] == nil {
				writes[key] = map[*Term]bool{}
				changed = true
			}
			r := ref
			if !inv {
				r = nil
			}
			if !writes[key][r] && !writes[key][nil] {
				writes[key][r] = true
				changed = true
			}
		}
		ex.writes = append(ex.writes, hook)
		fr := s.fr()
		fr.stop = append(fr.stop[:len(fr.stop):len(fr.stop)], blocks)
		fr.unroll[b] = 0
		fr.cuts[b] = func(s2 *State, pv2 *ssa.BasicBlock) {
			for _, e := range s2.ev[nev:] {
				if _, ok := evNames[e.name]; !ok {
					evNames[e.name] = e.sig
				}
			}
			be := backEdge{news: map[*Term]*Term{}, h: s2.h}
			qi := -1
			for i, p := range b.Preds {
				if p == pv2 {
					qi = i
				}
			}
			for _, p := range ph {
				if init[p] == nil {
					continue
				}
				nv := ex.val(s2, p.Edges[qi])
				for i, t := range toTerms(nv) {
					be.news[pv(p, i)] = t
				}
			}
			be.conds = append(be.conds, s2.conds[base:]...)
			lastBacks = append(lastBacks, be)
			for _, c := range cands {
				if c.dead {
					continue
				}
				if !ex.inductive(c, instC(c, s2, be.news)) {
					c.dead = true
					if debug && c.mk != nil {
						fmt.Println("cand dies at back edge:", c.desc, ex.s.CheckWith(ex.refute(instC(c, s2, be.news))), instC(c, s2, be.news))
					}
					changed = true
				}
			}
		}
		d := len(s.frames)
		_ = d
		ex.guard(s, func() {
			ex.instrs(s, b, numPhis(b), func(*State, []Val) {})
		})
		ex.writes = ex.writes[:len(ex.writes)-1]
		ex.s.Pop()
		ex.quiet--
		return changed
	}

	// initial pruning
	initSub := map[*Term]*Term{}
	for _, p := range ph {
		for i, t := range init[p] {
			initSub[pv(p, i)] = t
		}
	}
	prune := func() {
		for _, c := range cands {
			if !c.dead && !ex.inductive(c, instC(c, st, initSub)) {
				c.dead = true
				if debug && c.mk != nil {
					fmt.Println("cand dies at entry:", c.desc, instC(c, st, initSub))
				}
			}
		}
	}
	prune()
	elemsTried := false
	var elemBacks []elemBack
	saveBad := ex.inferBad
	ex.inferBad = false
	for round := 0; ; round++ {
		ch := iterate(true)
		if round == 0 {
			// bounds suggested by comparisons on the path conditions
			n0 := len(cands)
			invOf := map[*Term]*Term{}
			for ph, v := range lastSub {
				invOf[v] = ph
			}
			bounds := map[*Term]bool{}
			var boundList []*Term // in order of discovery
			for _, be := range lastBacks {
				for _, c := range be.conds {
					collectVars(c, func(t *Term) {
						if t.sort == sInt && len(t.free) == 0 && !t.isInt() && (t.op == "slen" || t.kind == 'v' || initSelect(t) || t.op == "select" || t.op == "+" || t.op == "-" || strings.HasSuffix(t.op, ".len") || strings.HasSuffix(t.op, "Len")) && ex.loopInvariant(t, lastSub, lastHead) && !bounds[t] {
							bounds[t] = true
							boundList = append(boundList, t)
						}
					})
				}
			}
			if len(bounds) <= 24 {
				for _, p := range ph {
					if init[p] == nil || !isIntPhi(p) {
						continue
					}
					for _, x := range boundList {
						addC(tLe(pv(p, 0), x), "phi <= bound")
						addC(tLt(pv(p, 0), x), "phi < bound")
					}
				}
			}
			// objects written in the loop keep their value, unless a decoding that cannot succeed failed
			unchanged := func(s *State, obj *Term) *Term {
				r := tTrue
				for _, key := range sortedKeys(writes) {
					if key == "bytes" || !writes[key][obj] {
						continue
					}
					keyReg.Range(func(kk, sv any) bool {
						name, srt := kk.(string), sv.(string)
						if keyMatches(name, key) {
							r = tAnd(r, tEq(tSelect(s.h.get(name, srt, false), obj), tSelect(entry.get(name, srt, false), obj)))
						}
						return true
					})
				}
				return r
			}
			var objs []*Term
			for _, key := range sortedKeys(writes) {
				for ref := range writes[key] {
					if ref != nil && key != "bytes" && !slices.Contains(objs, ref) {
						objs = append(objs, ref)
					}
				}
			}
			slices.SortFunc(objs, func(a, b *Term) int { return strings.Compare(a.String(), b.String()) })
			var gs []*Term
			jws := false
			for _, be := range lastBacks {
				for _, c := range be.conds {
					collectVars(c, func(t *Term) {
						jws = jws || t.op == "jws.verifies"
						if t.op == "json.ok" && len(t.free) == 0 && ex.loopInvariant(t, lastSub, lastHead) && !slices.Contains(gs, t) {
							gs = append(gs, t)
						}
					})
				}
			}
			if (jws || len(gs) > 0) && len(gs) <= 4 && len(objs) <= 6 {
				for _, obj := range objs {
					cands = append(cands, &cand{mk: func(s *State, _ map[*Term]*Term) *Term { return unchanged(s, obj) }, desc: "unchanged"})
					for _, g := range gs {
						cands = append(cands, &cand{mk: func(s *State, _ map[*Term]*Term) *Term { return tOr(tNot(g), unchanged(s, obj)) }, desc: "unchanged unless undecodable"})
					}
				}
			}
			if len(cands) > n0 {
				prune()
				ch = true
			}
		}
		if !ch {
			// try search invariants once
			n0 := len(cands)
			if round < 40 {
				ex.searchInvs(ph, init, pv, isIntPhi, func() (bs [][2]any) {
					for _, be := range lastBacks {
						bs = append(bs, [2]any{be.conds, be.news})
					}
					return
				}(), lastSub, lastHead, addC)
				if !elemsTried {
					elemsTried = true
					for _, be := range lastBacks {
						elemBacks = append(elemBacks, elemBack{be.conds, be.news, be.h})
					}
					for _, c := range ex.elemInvs(ph, init, initVal, pv, isIntPhi, elemBacks, lastSub, lastHead) {
						cands = append(cands, c)
					}
				}
			}
			if len(cands) == n0 {
				break
			}
			prune()
		}
		if round > 60 {
			panic(Unsupported{"loop inference does not converge in " + shortFn(st.fr().fn)})
		}
	}
	bad := ex.inferBad
	ex.inferBad = saveBad
	if bad {
		if ex.quiet > 0 {
			ex.inferBad = true
		}
		panic(Unsupported{"loop body not analysable in " + shortFn(st.fr().fn)})
	}
	if ex.quiet == 0 {
		for _, c := range cands {
			if !c.dead {
				ex.invs++
				ex.obl += 2
				ex.disch += 2
				ex.backends["z3"] += 2
			}
		}
	}
	if debug {
		fmt.Printf("loop in %s: writes=%v events=%v\n", shortFn(st.fr().fn), writes, evNames)
		for _, c := range cands {
			if !c.dead {
				if c.mk != nil {
					fmt.Println("   inv", c.desc)
					continue
				}
				fmt.Println("   inv", c.desc, pretty(c.t))
			}
		}
	}
	// final pass: arbitrary iteration under the surviving invariants
	ex.s.Push()
	sub := havocState(st)
	for _, c := range cands {
		if !c.dead {
			ex.assume(st, instC(c, st, sub))
		}
	}
	for n, sg := range evNames {
		st.ev = append(st.ev, &Event{name: n, loop: true, ord: len(st.ev), pre: st.h, post: st.h, sig: sg})
	}
	st.trail = append(st.trail, "loop at "+ex.pos(b.Instrs[len(b.Instrs)-1].Pos())+" abstracted by invariants")
	st.fr().unroll[b] = 0
	st.fr().cuts[b] = func(*State, *ssa.BasicBlock) {}
	ex.guard(st, func() { ex.instrs(st, b, numPhis(b), k) })
	ex.s.Pop()
}

func keyMatches(name, key string) bool {
	if name == key {
		return true
	}
	if strings.HasPrefix(name, key) {
		c := name[len(key)]
		return c == '#' || c == '['
	}
	return false
}

// loopInvariant: t mentions nothing created in the iteration.
func (ex *Exec) loopInvariant(t *Term, sub map[*Term]*Term, head int) bool {
	ok := true
	ph := map[*Term]bool{}
	for _, v := range sub {
		ph[v] = true
	}
	collectVars(t, func(v *Term) {
		if v.kind == 'v' && (ph[v] || varNo(v) > head || strings.HasPrefix(v.op, "H!loop.")) {
			ok = false
		}
	})
	return ok
}

// searchInvs proposes invariants of the form "no earlier index left the loop" and
// "the flag changed iff some earlier index changed it".
func (ex *Exec) searchInvs(ph []*ssa.Phi, init map[*ssa.Phi][]*Term, pv func(*ssa.Phi, int) *Term, isInt func(*ssa.Phi) bool, backs [][2]any, sub map[*Term]*Term, head int, add func(*Term, string)) {
	if len(backs) == 0 || len(backs) > 8 {
		return
	}
	var idx *ssa.Phi
	for _, p := range ph {
		if init[p] == nil || !isInt(p) {
			continue
		}
		good := true
		for _, b := range backs {
			nv := b[1].(map[*Term]*Term)[pv(p, 0)]
			if nv != tAdd(sub[pv(p, 0)], tInt(1)) {
				good = false
			}
		}
		if good {
			idx = p
			break
		}
	}
	if idx == nil {
		return
	}
	iv := sub[pv(idx, 0)]
	v0 := init[idx][0]
	m := tVar("?m", sInt)
	// variables of the iteration other than the index make a conjunct unusable
	usable := func(t *Term, allowed map[*Term]bool) bool {
		ok := true
		phv := map[*Term]bool{}
		for _, v := range sub {
			phv[v] = true
		}
		collectVars(t, func(v *Term) {
			if v.kind != 'v' {
				return
			}
			if allowed[v] || v == iv {
				return
			}
			if phv[v] || varNo(v) > head || strings.HasPrefix(v.op, "H!loop.") {
				ok = false
			}
		})
		return ok
	}
	at := func(t *Term, extra map[*Term]*Term) *Term {
		mm := map[*Term]*Term{iv: tAdd(m, v0)}
		for a, b := range extra {
			mm[a] = b
		}
		return subst(t, mm)
	}
	rng := tAnd(tLe(tInt(0), m), tLt(m, tSub(pv(idx, 0), v0)))
	// plain search
	var ds []*Term
	for _, b := range backs {
		var cs []*Term
		for _, c := range b[0].([]*Term) {
			if usable(c, nil) {
				cs = append(cs, at(c, nil))
			}
		}
		ds = append(ds, tAnd(cs...))
	}
	if body := tOr(ds...); !body.isTrue() {
		add(tForall([]*Term{m}, tImp(rng, body)), "search")
	}
	// flags
	for _, q := range ph {
		if q == idx || init[q] == nil || len(init[q]) != 1 {
			continue
		}
		q0 := init[q][0]
		qv := sub[pv(q, 0)]
		if qv.sort == sInt && !q0.isInt() {
			continue
		}
		al := map[*Term]bool{qv: true}
		ext := map[*Term]*Term{qv: q0}
		var keep, chg []*Term
		okAll := true
		for _, b := range backs {
			var cs []*Term
			for _, c := range b[0].([]*Term) {
				if usable(c, al) {
					cs = append(cs, at(c, ext))
				}
			}
			nv := b[1].(map[*Term]*Term)[pv(q, 0)]
			if !usable(nv, al) {
				okAll = false
				continue
			}
			eq := tEq(at(nv, ext), q0)
			keep = append(keep, tAnd(append(append([]*Term{}, cs...), eq)...))
			chg = append(chg, tAnd(append(append([]*Term{}, cs...), tNot(eq))...))
		}
		g := tEq(pv(q, 0), q0)
		if len(keep) == len(backs) {
			if body := tOr(keep...); !body.isTrue() {
				add(tImp(g, tForall([]*Term{m}, tImp(rng, body))), "flag unchanged")
			}
		}
		if okAll {
			if body := tOr(chg...); !body.isFalse() {
				add(tOr(g, tNot(tForall([]*Term{m}, tNot(tAnd(rng, body))))), "flag changed")
			}
		}
	}
	_ = big.NewInt
}

type elemBack struct {
	conds []*Term
	news  map[*Term]*Term
	h     *Heap
}

// elemInvs proposes, for a slice that grows by one element per iteration, that every
// element satisfies the condition under which it was appended and comes from the
// source it was read from.
func (ex *Exec) elemInvs(ph []*ssa.Phi, init map[*ssa.Phi][]*Term, initVal map[*ssa.Phi]Val, pv func(*ssa.Phi, int) *Term, isInt func(*ssa.Phi) bool, backs []elemBack, sub map[*Term]*Term, head int) (out []*cand) {
	if len(backs) == 0 || len(backs) > 8 {
		return nil
	}
	var idx *ssa.Phi
	for _, p := range ph {
		if init[p] == nil || !isInt(p) {
			continue
		}
		good := true
		for _, b := range backs {
			if b.news[pv(p, 0)] != tAdd(sub[pv(p, 0)], tInt(1)) {
				good = false
			}
		}
		if good {
			idx = p
			break
		}
	}
	phv := map[*Term]bool{}
	for _, v := range sub {
		phv[v] = true
	}
	usable := func(t *Term, allowed map[*Term]bool) bool {
		ok := true
		collectVars(t, func(v *Term) {
			if v.kind != 'v' || allowed[v] {
				return
			}
			if phv[v] || varNo(v) > head || strings.HasPrefix(v.op, "H!loop.") {
				ok = false
			}
		})
		return ok
	}
	for _, p := range ph {
		vs, isS := initVal[p].(VSlice)
		if !isS || init[p] == nil || isByte(vs.elem) || isArrObj(vs.elem) {
			continue
		}
		pbase, plen, poff := pv(p, 0), pv(p, 1), pv(p, 3)
		len0 := init[p][1]
		// the components of the element at position k
		elemAt := func(h *Heap, base, off, k *Term) []*Term {
			r := toTerms(h.loadElem(vs.elem, base, tAdd(off, k)))
			for i := range r {
				r[i] = readStores(r[i], 12)
			}
			return r
		}
		// a trigger for statements about the element at position k
		trig := func(h *Heap, base, off, k *Term) *Term {
			k = tAdd(off, k)
			if isStruct(vs.elem) {
				return subRef("elem:"+typeStr(vs.elem), base, k)
			}
			a := h.elemArr(vs.elem, comps(vs.elem)[0], base)
			for a.kind == 'a' && a.op == "store" {
				a = a.args[0]
			}
			return tSelect(a, k)
		}
		sorts := elemAt(backs[0].h, pbase, poff, tInt(0))
		if len(sorts) == 0 || len(sorts) > 24 {
			continue
		}
		evs := make([]*Term, len(sorts))
		allowEv := map[*Term]bool{}
		for i, t := range sorts {
			evs[i] = tVar(fmt.Sprintf("?elem%d", i), t.sort)
			allowEv[evs[i]] = true
		}
		mv := tVar("?m", sInt)
		eqs := func(xs, ys []*Term) *Term {
			r := tTrue
			for i := range xs {
				r = tAnd(r, tEq(xs[i], ys[i]))
			}
			return r
		}
		var props, srcs, conds []*Term
		var src []*Term // the one source of appended elements, as a function of the index
		ok, full, one := true, idx != nil, idx != nil
		for _, b := range backs {
			nl, ol := b.news[plen], sub[plen]
			if nl == ol {
				continue
			}
			if nl != tAdd(ol, tInt(1)) {
				ok = false
				break
			}
			v := toTerms(b.h.loadElem(vs.elem, b.news[pbase], tAdd(b.news[poff], ol)))
			m := map[*Term]*Term{}
			for i, t := range v {
				if !t.isInt() && !t.isStr() && len(t.args) > 0 {
					m[t] = evs[i]
				}
			}
			var conj []*Term
			for _, c := range b.conds {
				c2 := subst(c, m)
				if c2 != c && usable(c2, allowEv) {
					conj = append(conj, c2)
				}
			}
			props = append(props, tAnd(conj...))
			if idx == nil {
				continue
			}
			iv := sub[pv(idx, 0)]
			toM := map[*Term]*Term{iv: tAdd(mv, init[idx][0])} // mv counts iterations
			var cs []*Term
			for _, c := range b.conds {
				if usable(c, map[*Term]bool{iv: true}) {
					cs = append(cs, subst(c, toM))
				} else {
					full = false
					if debug {
						fmt.Println("not a selection condition:", pretty(c))
					}
				}
			}
			conds = append(conds, tAnd(cs...))
			sv := make([]*Term, len(v))
			good := true
			for i, t := range v {
				good = good && usable(t, map[*Term]bool{iv: true})
				sv[i] = subst(t, toM)
			}
			switch {
			case !good:
				srcs = append(srcs, tTrue)
				one = false
			case src == nil:
				src = sv
				srcs = append(srcs, eqs(evs, sv))
			default:
				one = one && slices.Equal(src, sv)
				srcs = append(srcs, eqs(evs, sv))
			}
		}
		if !ok || len(props) == 0 {
			continue
		}
		// all k in [len0, len): body
		mkAll := func(body func(e []*Term, sb map[*Term]*Term) *Term) func(s *State, sb map[*Term]*Term) *Term {
			return func(s *State, sb map[*Term]*Term) *Term {
				k := tVar("?k", sInt)
				return tForall([]*Term{k}, tImp(tAnd(tLe(len0, k), tLt(k, sb[plen])), body(elemAt(s.h, sb[pbase], sb[poff], k), sb)), trig(s.h, sb[pbase], sb[poff], k))
			}
		}
		with := func(e []*Term) map[*Term]*Term {
			m := map[*Term]*Term{}
			for i := range e {
				m[evs[i]] = e[i]
			}
			return m
		}
		if body := tOr(props...); !body.isTrue() {
			out = append(out, &cand{desc: "elements satisfy", mk: mkAll(func(e []*Term, sb map[*Term]*Term) *Term {
				return subst(body, with(e))
			})})
		}
		if idx == nil {
			continue
		}
		v0 := init[idx][0]
		pidx := pv(idx, 0)
		if body := tOr(srcs...); !body.isTrue() {
			out = append(out, &cand{desc: "elements from source", mk: mkAll(func(e []*Term, sb map[*Term]*Term) *Term {
				return tNot(tForall([]*Term{mv}, tNot(tAnd(tLe(tInt(0), mv), tLt(mv, tSub(sb[pidx], v0)), subst(body, with(e))))))
			})})
		}
		out = append(out, &cand{desc: "not more elements than iterations", t: tLe(tSub(plen, len0), tSub(pidx, v0))})
		if !full || !one || src == nil {
			continue
		}
		appended := tOr(conds...)
		rng := func(sb map[*Term]*Term) *Term { return tAnd(tLe(tInt(0), mv), tLt(mv, tSub(sb[pidx], v0))) }
		out = append(out, &cand{desc: "no selected element is lost", mk: func(s *State, sb map[*Term]*Term) *Term {
			k := tVar("?k", sInt)
			has := tNot(tForall([]*Term{k}, tNot(tAnd(tLe(len0, k), tLt(k, sb[plen]), eqs(elemAt(s.h, sb[pbase], sb[poff], k), src))), trig(s.h, sb[pbase], sb[poff], k)))
			// the last element is a witness worth trying
			last := tSub(sb[plen], tInt(1))
			has = tOr(has, tAnd(tLe(len0, last), eqs(elemAt(s.h, sb[pbase], sb[poff], last), src)))
			for _, t := range src {
				if t.kind != 'a' || t.op != "select" {
					continue
				}
				if x := t.args[1]; x != mv && strings.HasPrefix(x.op, "sub!") {
					t = x
				}
				if t.args[len(t.args)-1] == mv {
					return tForall([]*Term{mv}, tImp(tAnd(rng(sb), appended), has), t)
				}
			}
			return tForall([]*Term{mv}, tImp(tAnd(rng(sb), appended), has))
		}})
		out = append(out, &cand{desc: "all selected, all kept", mk: func(s *State, sb map[*Term]*Term) *Term {
			k := tVar("?k", sInt)
			at := map[*Term]*Term{mv: tSub(k, len0)}
			var es []*Term
			for _, t := range src {
				es = append(es, subst(t, at))
			}
			same := tForall([]*Term{k}, tImp(tAnd(tLe(len0, k), tLt(k, sb[plen])), eqs(elemAt(s.h, sb[pbase], sb[poff], k), es)), trig(s.h, sb[pbase], sb[poff], k))
			return tImp(tForall([]*Term{mv}, tImp(rng(sb), appended)), tAnd(tEq(tSub(sb[plen], len0), tSub(sb[pidx], v0)), same))
		}})
	}
	return out
}

// readStores resolves a read from an array with symbolic updates into a case distinction.
func readStores(t *Term, depth int) *Term {
	if depth == 0 || t.kind != 'a' || t.op != "select" || t.args[0].op != "store" {
		return t
	}
	a, i := t.args[0], t.args[1]
	return tIte(tEq(i, a.args[1]), a.args[2], readStores(tSelect(a.args[0], i), depth-1))
}

// heapCands turns the unit's own contract clauses into candidate invariants for the
// loops of the unit's outermost function.
func (ex *Exec) heapCands(st *State) (out []func(*State, map[*Term]*Term) *Term) {
	if ex.unitEnv == nil || len(st.frames) != ex.unitDepth+1 {
		return nil
	}
	for _, c := range ex.unitClauses {
		c := c
		mk := func(s *State, _ map[*Term]*Term) (r *Term) {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(SpecError); ok {
						r = tFalse
						return
					}
					panic(e)
				}
			}()
			return ex.unitEnv(s).bool(c.E)
		}
		if t := mk(st, nil); !t.isFalse() {
			out = append(out, mk)
		}
	}
	return out
}

// inductive: candidates taken from the contract get a second opinion when the first solver gives none.
func (ex *Exec) inductive(c *cand, t *Term) bool {
	if t.isTrue() || t.isFalse() {
		return t.isTrue()
	}
	nt := ex.refute(t)
	r := ex.s.CheckWith(nt)
	if r == "unknown" && (ex.hard || c.desc == "contract clause") {
		r, _ = ex.s.secondOpinion(nt, 5)
	}
	return r == "unsat"
}

func compsOf(v Val, t types.Type) []comp { return comps(t) }
