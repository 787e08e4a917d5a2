package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- shared containers: go-cache and sync.Map, and the locks protecting them ----

type heldLock struct {
	ref   *Term
	write bool
}

var anyT = types.NewInterfaceType(nil, nil)

const (
	cacheT = "(*github.com/patrickmn/go-cache.cache)."
	smapT  = "(*sync.Map)."
)

// a container keeps its content in three arrays indexed by the container
type container struct {
	kind string // gocache or syncmap
	ref  *Term
	ks   string // key sort
}

func (c container) key(suf string) string { return c.kind + ":" + suf }

func (c container) arr(st *State, suf, srt string) *Term {
	return tSelect(st.h.get(c.key(suf), arrSort(sInt, arrSort(c.ks, srt)), false), c.ref)
}

func (c container) set(ex *Exec, st *State, suf, srt string, a *Term) {
	full := st.h.get(c.key(suf), arrSort(sInt, arrSort(c.ks, srt)), false)
	st.h.m[c.key(suf)] = tStore(full, c.ref, a)
	for _, w := range ex.writes {
		w(c.key(suf), c.ref)
	}
}

var containerSorts = map[string]map[string]string{
	"gocache": {"dom": sBool, "val": sIface, "exp": sInt},
	"syncmap": {"dom": sBool, "val": sIface},
}
var containerKeys = map[string]string{"gocache": sStr, "syncmap": sIface}

// storedFacts: values found in an arbitrary container satisfy the data invariant of the unit.
func (ex *Exec) storedFacts(st *State, c container, k *Term) {
	if ex.target == nil || len(ex.target.Stores) == 0 {
		return
	}
	for _, b := range st.arbVals[c.kind] {
		v := tSelect(tSelect(b, c.ref), k)
		ex.fact(ex.storable(v, true))
	}
}

// storable: v is a non-nil value of a type the containers of the unit may hold.
func (ex *Exec) storable(v *Term, old bool) *Term {
	var r []*Term
	for _, n := range ex.target.Stores {
		t := ex.W.findType(n)
		is := tEq(tApp("ityp", sInt, v), typeID(t))
		if d := dynType(v); d != nil {
			is = tBool(typeStr(types.Unalias(d)) == typeStr(types.Unalias(t)))
		}
		if _, ok := t.Underlying().(*types.Pointer); ok {
			p := ifVal(v, sInt)
			is = tAnd(is, tNot(tEq(p, tInt(0))))
			if old {
				is = tAnd(is, tLe(tInt(0), p))
				for _, a := range ex.callerPtrs {
					is = tAnd(is, tNot(tEq(p, a)))
				}
			} else if !ex.target.panicsOnly(ex.curID) {
				// stored objects are private: no caller keeps a pointer to them
				is = tAnd(is, tBool(p.isInt() && p.big.Sign() < 0))
			}
		}
		r = append(r, is)
	}
	return tOr(r...)
}

// interfere lets other goroutines act on the shared containers, unless a lock held here keeps them out.
func (ex *Exec) interfere(st *State) {
	if ex.target == nil || !ex.target.Concurrent || len(st.held) > 0 {
		return
	}
	st.epoch++
	ex.havocContainers(st)
}

func (ex *Exec) havocContainers(st *State) {
	if st.arbVals == nil {
		st.arbVals = map[string][]*Term{}
	} else {
		m := map[string][]*Term{}
		for k, v := range st.arbVals {
			m[k] = v[:len(v):len(v)]
		}
		st.arbVals = m
	}
	for _, kind := range []string{"gocache", "syncmap"} {
		for _, suf := range []string{"dom", "val", "exp"} {
			srt, ok := containerSorts[kind][suf]
			if !ok {
				continue
			}
			v := tVar("x!"+ex.fresh(kind+suf), arrSort(sInt, arrSort(containerKeys[kind], srt)))
			st.h.m[kind+":"+suf] = v
			if suf == "val" {
				st.arbVals[kind] = append(st.arbVals[kind], v)
			}
		}
	}
}

func (ex *Exec) storeEvent(st *State, name string, c container, k *Term, res []Val, pre *Heap, pos token.Pos) {
	lock := tInt(0)
	if n := len(st.held); n > 0 {
		lock = st.held[n-1].ref
	}
	key := Val(VT{k, nil})
	if c.ks == sIface {
		key = VIface{k, anyT}
	} else {
		key = vstr(k)
	}
	res = append(res, vint(tInt(int64(st.epoch))), vint(lock))
	ex.event(st, "store."+name, nil, []Val{vint(c.ref), key}, res, pre, nil, pos)
}

func (ex *Exec) cacheOf(st *State, v Val, pos token.Pos) (container, bool) {
	p := v.(VPtr)
	if !ex.nilCheck(st, p, pos, "cache") {
		return container{}, false
	}
	return container{"gocache", p.ref, sStr}, true
}

func (ex *Exec) smapOf(v Val) container {
	p := v.(VPtr)
	return container{"syncmap", p.ref, sIface}
}

// has: the entry exists and is not expired at time now.
func (c container) has(st *State, k, now *Term) *Term {
	h := tSelect(c.arr(st, "dom", sBool), k)
	if c.kind == "gocache" {
		e := tSelect(c.arr(st, "exp", sInt), k)
		h = tAnd(h, tOr(tLe(e, tInt(0)), tLe(now, e)))
	}
	return h
}

func (ex *Exec) containerGet(st *State, c container, k *Term, pos token.Pos, found, missing func(*State, *Term)) {
	now := tInt(0)
	if c.kind == "gocache" {
		now = ex.now(st)
	}
	ex.storedFacts(st, c, k)
	v := tSelect(c.arr(st, "val", sIface), k)
	ex.fork(st, c.has(st, k, now), ex.pos(pos)+" entry found", func(st *State) { found(st, v) }, func(st *State) { missing(st, v) })
}

func (ex *Exec) containerSet(st *State, c container, k, v, exp *Term, pos token.Pos) {
	if ex.target != nil && len(ex.target.Stores) > 0 && ex.quiet == 0 {
		ex.prove(st, ex.storable(v, false), ex.curID, "store invariant", "value of an unexpected type or nil stored", pos)
	}
	c.set(ex, st, "dom", sBool, tStore(c.arr(st, "dom", sBool), k, tTrue))
	c.set(ex, st, "val", sIface, tStore(c.arr(st, "val", sIface), k, v))
	if exp != nil {
		c.set(ex, st, "exp", sInt, tStore(c.arr(st, "exp", sInt), k, exp))
	}
}

func (ex *Exec) containerDel(st *State, c container, k *Term) {
	c.set(ex, st, "dom", sBool, tStore(c.arr(st, "dom", sBool), k, tFalse))
}

// expiry of an entry stored now with duration d (go-cache: 0 means the default, negative never)
func (ex *Exec) cacheExpiry(st *State, c container, d *Term) *Term {
	def := term1(st.h.loadKey("gocache:ttl", types.Typ[types.Int64], c.ref))
	d = tIte(tEq(d, tInt(0)), def, d)
	return tIte(tLt(tInt(0), d), tAdd(ex.now(st), d), tInt(0))
}

func storeModels() {
	resT := func(fn *ssa.Function, i int) types.Type { return fn.Signature.Results().At(i).Type() }
	nilAny := func(t types.Type) Val { return VIface{tNilIface, t} }
	models["github.com/patrickmn/go-cache.New"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		et := deref(resT(fn, 0))
		s := et.Underlying().(*types.Struct)
		r, in := ex.alloc(st), ex.alloc(st)
		st.h.storeField(et, 0, r, VPtr{kind: 'o', ref: in, elem: deref(s.Field(0).Type())})
		d := term1(args[0])
		st.h.storeKey("gocache:ttl", types.Typ[types.Int64], in, VT{d, types.Typ[types.Int64]})
		c := container{"gocache", in, sStr}
		c.set(ex, st, "dom", sBool, tConstArr(arrSort(sStr, sBool), tFalse))
		k(st, []Val{VPtr{kind: 'o', ref: r, elem: et}})
	}
	models[cacheT+"Get"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		c, ok := ex.cacheOf(st, args[0], pos)
		if !ok {
			return
		}
		ex.interfere(st)
		key, pre := term1(args[1]), st.h
		ex.containerGet(st, c, key, pos, func(st *State, v *Term) {
			ex.storeEvent(st, "Get", c, key, []Val{vbool(tTrue)}, pre, pos)
			k(st, []Val{VIface{v, resT(fn, 0)}, vbool(tTrue)})
		}, func(st *State, v *Term) {
			ex.storeEvent(st, "Get", c, key, []Val{vbool(tFalse)}, pre, pos)
			k(st, []Val{nilAny(resT(fn, 0)), vbool(tFalse)})
		})
	}
	set := func(d func(ex *Exec, st *State, c container, args []Val) *Term) model {
		return func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			c, ok := ex.cacheOf(st, args[0], pos)
			if !ok {
				return
			}
			ex.interfere(st)
			pre := st.h.clone()
			ex.containerSet(st, c, term1(args[1]), term1(args[2]), d(ex, st, c, args), pos)
			ex.storeEvent(st, "Set", c, term1(args[1]), nil, pre, pos)
			k(st, nil)
		}
	}
	models[cacheT+"Set"] = set(func(ex *Exec, st *State, c container, args []Val) *Term { return ex.cacheExpiry(st, c, term1(args[3])) })
	models[cacheT+"SetDefault"] = set(func(ex *Exec, st *State, c container, args []Val) *Term { return ex.cacheExpiry(st, c, tInt(0)) })
	// Add and Replace look up and store in one critical section of the cache
	cond := func(add bool) model {
		return func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
			c, ok := ex.cacheOf(st, args[0], pos)
			if !ok {
				return
			}
			ex.interfere(st)
			key := term1(args[1])
			e := ex.freshErr()
			do := func(st *State) {
				pre := st.h.clone()
				ex.containerSet(st, c, key, term1(args[2]), ex.cacheExpiry(st, c, term1(args[3])), pos)
				ex.storeEvent(st, "Set", c, key, nil, pre, pos)
				k(st, []Val{verr(tNilIface)})
			}
			ex.containerGet(st, c, key, pos, func(st *State, v *Term) {
				ex.storeEvent(st, "Get", c, key, []Val{vbool(tTrue)}, st.h, pos)
				if add {
					k(st, []Val{verr(e)})
				} else {
					do(st)
				}
			}, func(st *State, v *Term) {
				ex.storeEvent(st, "Get", c, key, []Val{vbool(tFalse)}, st.h, pos)
				if add {
					do(st)
				} else {
					k(st, []Val{verr(e)})
				}
			})
		}
	}
	models[cacheT+"Add"] = cond(true)
	models[cacheT+"Replace"] = cond(false)
	models[cacheT+"Delete"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		c, ok := ex.cacheOf(st, args[0], pos)
		if !ok {
			return
		}
		ex.interfere(st)
		pre := st.h.clone()
		ex.containerDel(st, c, term1(args[1]))
		ex.storeEvent(st, "Delete", c, term1(args[1]), nil, pre, pos)
		k(st, nil)
	}

	// sync.Map
	models[smapT+"Load"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		c := ex.smapOf(args[0])
		ex.interfere(st)
		key, pre := term1(args[1]), st.h
		ex.containerGet(st, c, key, pos, func(st *State, v *Term) {
			ex.storeEvent(st, "Get", c, key, []Val{vbool(tTrue)}, pre, pos)
			k(st, []Val{VIface{v, resT(fn, 0)}, vbool(tTrue)})
		}, func(st *State, v *Term) {
			ex.storeEvent(st, "Get", c, key, []Val{vbool(tFalse)}, pre, pos)
			k(st, []Val{nilAny(resT(fn, 0)), vbool(tFalse)})
		})
	}
	models[smapT+"Store"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		c := ex.smapOf(args[0])
		ex.interfere(st)
		pre := st.h.clone()
		ex.containerSet(st, c, term1(args[1]), term1(args[2]), nil, pos)
		ex.storeEvent(st, "Set", c, term1(args[1]), nil, pre, pos)
		k(st, nil)
	}
	models[smapT+"Delete"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		c := ex.smapOf(args[0])
		ex.interfere(st)
		pre := st.h.clone()
		ex.containerDel(st, c, term1(args[1]))
		ex.storeEvent(st, "Delete", c, term1(args[1]), nil, pre, pos)
		k(st, nil)
	}
	models[smapT+"LoadAndDelete"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		c := ex.smapOf(args[0])
		ex.interfere(st)
		key := term1(args[1])
		ex.containerGet(st, c, key, pos, func(st *State, v *Term) {
			ex.storeEvent(st, "Get", c, key, []Val{vbool(tTrue)}, st.h, pos)
			ex.containerDel(st, c, key)
			ex.storeEvent(st, "Delete", c, key, nil, st.h, pos)
			k(st, []Val{VIface{v, resT(fn, 0)}, vbool(tTrue)})
		}, func(st *State, v *Term) {
			ex.storeEvent(st, "Get", c, key, []Val{vbool(tFalse)}, st.h, pos)
			k(st, []Val{nilAny(resT(fn, 0)), vbool(tFalse)})
		})
	}
	models[smapT+"LoadOrStore"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		c := ex.smapOf(args[0])
		ex.interfere(st)
		key := term1(args[1])
		ex.containerGet(st, c, key, pos, func(st *State, v *Term) {
			ex.storeEvent(st, "Get", c, key, []Val{vbool(tTrue)}, st.h, pos)
			k(st, []Val{VIface{v, resT(fn, 0)}, vbool(tTrue)})
		}, func(st *State, v *Term) {
			ex.storeEvent(st, "Get", c, key, []Val{vbool(tFalse)}, st.h, pos)
			ex.containerSet(st, c, key, term1(args[2]), nil, pos)
			ex.storeEvent(st, "Set", c, key, nil, st.h, pos)
			k(st, []Val{VIface{term1(args[2]), resT(fn, 0)}, vbool(tFalse)})
		})
	}

	// hashes of texts: ideal (collision free), so a digest determines the key and the text
	for _, op := range []string{"blake2b256", "sha256", "hmacsha256"} {
		op := op
		groundFuns[op] = func(u *Term) []*Term {
			var r []*Term
			r = append(r, tEq(tApp("slen", sInt, u), tInt(32)))
			for i, a := range u.args {
				r = append(r, tEq(tApp("inv!"+op+string(rune('0'+i)), sStr, u), a))
			}
			return append(r, catInverse(u.args[len(u.args)-1])...)
		}
	}
	groundFuns["hex"] = func(u *Term) []*Term {
		return []*Term{tEq(tApp("unhex", sStr, u), u.args[0]), tApp("=", sBool, tApp("slen", sInt, u), tMul(tInt(2), tSlen(u.args[0])))}
	}
	models["encoding/hex.EncodeToString"] = func(ex *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos, k kont) {
		k(st, []Val{vstr(tApp("hex", sStr, ex.strArg(st, args[0])))})
	}
}

// catInverse: a concatenation determines its parts, given where the first one ends.
func catInverse(x *Term) []*Term {
	var r []*Term
	for x.kind == 'a' && x.op == "cat" {
		n := tSlen(x.args[0])
		r = append(r, tEq(tApp("cathd", sStr, n, x), x.args[0]), tEq(tApp("cattl", sStr, n, x), x.args[1]))
		x = x.args[1]
	}
	return r
}

// anyHistory puts the shared containers in any state earlier calls can leave (data invariant: "stores" of the unit).
func (ex *Exec) anyHistory(st *State, args []Val) {
	ex.havocContainers(st)
	vs, ok := ex.variadic(st, args[len(args)-1])
	if !ok {
		return
	}
	for _, v := range vs {
		d := dynTypeOf(v)
		if d == nil {
			continue
		}
		p, ok := ex.unIface(st, term1(v), d).(VPtr)
		if !ok || p.kind != 'o' || !isStruct(p.elem) {
			continue
		}
		s := p.elem.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
				m := term1(st.h.loadField(p.elem, i, p.ref))
				ex.havocMap(st, s.Field(i).Type(), m)
				if ex.target != nil && ex.target.Concurrent {
					st.shared = append(st.shared[:len(st.shared):len(st.shared)], sharedMap{ref: m})
				}
			}
		}
	}
}

// a Go map other goroutines use too, and the lock every access must hold
type sharedMap struct{ ref, lock *Term }

// guardMap: maps shared between goroutines are only touched under one lock, exclusively to change them.
func (ex *Exec) guardMap(st *State, m *Term, write bool, pos token.Pos) {
	if ex.target == nil || ex.target.Locks != ex.curID {
		return
	}
	for i, s := range st.shared {
		if s.ref != m {
			continue
		}
		for _, l := range st.held {
			if (l.write || !write) && (s.lock == nil || s.lock == l.ref) {
				st.shared = append([]sharedMap{}, st.shared...)
				st.shared[i].lock = l.ref
				ex.prove(st, tTrue, ex.target.Locks, "data race", "", pos)
				return
			}
		}
		what := "read"
		if write {
			what = "changed"
		}
		ex.prove(st, tFalse, ex.target.Locks, "data race", "map shared between goroutines is "+what+" without its lock", pos)
	}
}

func (ex *Exec) lockOp(st *State, kind string, p VPtr, pos token.Pos) {
	ref := p.ref
	find := func(write bool) int {
		for i, l := range st.held {
			if l.ref == ref && l.write == write {
				return i
			}
		}
		return -1
	}
	switch kind {
	case "lock", "rlock":
		if find(true) >= 0 || (kind == "lock" && find(false) >= 0) {
			ex.panicCheck(st, tFalse, "deadlock: lock already held here", pos)
		}
		ex.interfere(st)
		st.held = append(st.held[:len(st.held):len(st.held)], heldLock{ref, kind == "lock"})
	case "unlock", "runlock":
		i := find(kind == "unlock")
		if i < 0 {
			ex.panicCheck(st, tFalse, "unlock of a lock that is not held", pos)
			break
		}
		h := append([]heldLock{}, st.held[:i]...)
		st.held = append(h, st.held[i+1:]...)
	case "trylock":
		panic(Unsupported{"TryLock"})
	}
	ex.event(st, "sync."+kind, p, nil, nil, st.h, nil, pos)
}

func isLemmaFile(name string) bool { return strings.HasSuffix(name, "zz_verif_lemma.go") }

// sameMsg: the messages a (read in ha) and b (read in hb) have equal exported fields; of nested
// messages and lists only presence and length are compared.
func (ex *Exec) sameMsg(a, b VPtr, ha, hb *Heap) *Term {
	s, ok := a.elem.Underlying().(*types.Struct)
	if !ok || !types.Identical(a.elem, b.elem) {
		panic(SpecError{"same: not messages of one type"})
	}
	var r []*Term
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			continue
		}
		x, y := ha.loadField(a.elem, i, a.ref), hb.loadField(b.elem, i, b.ref)
		switch v := x.(type) {
		case VT:
			r = append(r, tEq(v.t, term1(y)))
		case VPtr:
			w := y.(VPtr)
			r = append(r, tEq(tEq(v.ref, tInt(0)), tEq(w.ref, tInt(0))))
			if _, _, ok := scalarSort(v.elem); ok && !isStruct(v.elem) {
				r = append(r, tImp(tNot(tEq(v.ref, tInt(0))), tEq(term1(ha.load(v)), term1(hb.load(w)))))
			}
		case VSlice:
			r = append(r, tEq(v.len, y.(VSlice).len))
		}
	}
	return tAnd(r...)
}

func init() {
	specExt["same"] = func(env *SpecEnv, a []*SE) Val {
		return vbool(env.ex.sameMsg(env.eval(a[0]).(VPtr), env.eval(a[1]).(VPtr), env.h, env.h))
	}
	specExt["sameold"] = func(env *SpecEnv, a []*SE) Val {
		return vbool(env.ex.sameMsg(env.eval(a[0]).(VPtr), env.eval(a[1]).(VPtr), env.h, env.old))
	}
}

func (t *Target) panicsOnly(id string) bool {
	for _, p := range strings.Fields(t.Panics) {
		if p == id {
			return true
		}
	}
	return false
}
