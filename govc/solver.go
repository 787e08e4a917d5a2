package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

// Solver drives one incremental SMT process. Terms used are declared on demand
// in the scope that first mentions them.
type Solver struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	scopes []*scope
	dead   bool
	log    *os.File
	nq     int64
	t      time.Duration
	ms     int
}

type scope struct {
	decl     map[string]bool
	named    map[*Term]string
	asserted []*Term
}

var totalQueries, totalSolverNs int64

var z3bin = "z3"

func newSolver(ms int) *Solver {
	s := &Solver{ms: ms}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.scopes = []*scope{{decl: map[string]bool{}, named: map[*Term]string{}}}
	if p := os.Getenv("GOVC_SMTLOG"); p != "" {
		f, _ := os.OpenFile(fmt.Sprintf("%s.%d", p, s.cmd.Process.Pid), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
		s.log = f
	}
	s.send("(set-option :auto_config false)")
	s.send("(set-option :smt.mbqi false)")
	s.send(fmt.Sprintf("(set-option :timeout %d)", s.ms))
	s.send("(declare-sort Str 0)")
	s.send("(declare-sort Iface 0)")
}

func (s *Solver) send(l string) {
	if s.dead {
		return
	}
	if s.log != nil {
		fmt.Fprintln(s.log, l)
	}
	if _, err := io.WriteString(s.in, l+"\n"); err != nil {
		s.dead = true
	}
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	if s.log != nil {
		s.log.Close()
	}
}

func (s *Solver) Push() {
	s.send("(push 1)")
	s.scopes = append(s.scopes, &scope{decl: map[string]bool{}, named: map[*Term]string{}})
}

func (s *Solver) Pop() {
	s.send("(pop 1)")
	s.scopes = s.scopes[:len(s.scopes)-1]
}

func (s *Solver) declared(k string) bool {
	for _, sc := range s.scopes {
		if sc.decl[k] {
			return true
		}
	}
	return false
}

func (s *Solver) top() *scope { return s.scopes[len(s.scopes)-1] }

// emit declares everything t needs and returns its rendering.
func (s *Solver) emit(t *Term) string {
	named := map[*Term]string{}
	var order []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for i := len(s.scopes) - 1; i >= 0; i-- {
			if n, ok := s.scopes[i].named[t]; ok {
				named[t] = n
				return
			}
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, a := range t.pats {
			walk(a)
		}
		order = append(order, t)
	}
	walk(t)
	memo := map[*Term]string{}
	lookup := func(u *Term) (string, bool) {
		for i := len(s.scopes) - 1; i >= 0; i-- {
			if n, ok := s.scopes[i].named[u]; ok {
				return n, true
			}
		}
		return "", false
	}
	for _, u := range order {
		// an axiom asserted for an earlier subterm may have named this one
		if n, ok := lookup(u); ok {
			named[u] = n
			delete(memo, u)
			continue
		}
		switch u.kind {
		case 'v':
			if strings.HasPrefix(u.op, "?") {
				continue
			}
			if k := "v" + u.op; !s.declared(k) {
				s.top().decl[k] = true
				s.send(fmt.Sprintf("(declare-const %s %s)", smtSym(u.op), u.sort))
				s.axioms(u)
			}
		case 's':
			if k := "s" + u.op; !s.declared(k) {
				s.top().decl[k] = true
				n := litName(u)
				s.send(fmt.Sprintf("(declare-const %s Str)", n))
				s.declFun("lid", []string{sStr}, sInt)
				s.declFun("slen", []string{sStr}, sInt)
				s.send(fmt.Sprintf("(assert (= (lid %s) %d))", n, u.id))
				s.send(fmt.Sprintf("(assert (= (slen %s) %d))", n, len(u.op)))
			}
		case 'a':
			if !builtinOps[u.op] {
				var as []string
				for _, a := range u.args {
					as = append(as, a.sort)
				}
				s.declFun(u.op, as, u.sort)
			}
			if len(u.free) == 0 && u.op != "not" && u.op != "=" && len(order) > 8 {
				// share big subterms by name
				n := fmt.Sprintf("t!%d", u.id)
				s.send(fmt.Sprintf("(define-fun %s () %s %s)", n, u.sort, u.str(memo, named, 0)))
				named[u] = n
				s.top().named[u] = n
				delete(memo, u)
				s.groundAxioms(u)
				continue
			}
			s.groundAxioms(u)
		}
	}
	return t.str(memo, named, 0)
}

func (s *Solver) declFun(op string, as []string, r string) {
	k := "f" + op
	if s.declared(k) {
		return
	}
	s.top().decl[k] = true
	s.send(fmt.Sprintf("(declare-fun %s (%s) %s)", smtSym(op), strings.Join(as, " "), r))
	if ax, ok := funAxioms[op]; ok {
		for _, a := range ax() {
			s.assertRaw(a)
		}
	}
}

func (s *Solver) assertRaw(t *Term) {
	if t.isTrue() {
		return
	}
	str := s.emit(t)
	s.send("(assert " + str + ")")
}

// axioms attached to variables (typing facts by name prefix)
func (s *Solver) axioms(u *Term) {
	if strings.HasPrefix(u.op, "r!") {
		s.send(fmt.Sprintf("(assert (>= %s 0))", smtSym(u.op)))
	}
}

// groundAxioms asserts instances of axioms for specific terms.
func (s *Solver) groundAxioms(u *Term) {
	if len(u.free) > 0 {
		return
	}
	k := fmt.Sprintf("g%d", u.id)
	switch u.op {
	case "slen":
		if !s.declared(k) {
			s.top().decl[k] = true
			n := s.emit(u)
			s.send(fmt.Sprintf("(assert (>= %s 0))", n))
			if a := u.args[0]; a.kind == 'v' || a.op == "select" {
				s.send(fmt.Sprintf("(assert (<= %s %d))", n, int64(1)<<48))
			}
			// empty string
			s.assertRaw(tEq(tEq(u, tInt(0)), tEq(u.args[0], tStrLit(""))))
		}
	case "at":
		if !s.declared(k) {
			s.top().decl[k] = true
			n := s.emit(u)
			s.send(fmt.Sprintf("(assert (and (>= %s 0) (<= %s 255)))", n, n))
			if c, i := u.args[0], u.args[1]; c.kind == 'a' && c.op == "cat" {
				l := tSlen(c.args[0])
				s.assertRaw(tImp(tAnd(tLe(tInt(0), i), tLt(i, l)), tApp("=", sBool, u, tAt(c.args[0], i))))
				s.assertRaw(tImp(tLe(l, i), tApp("=", sBool, u, tAt(c.args[1], tSub(i, l)))))
			}
		}
	case "select":
		if initSelect(u) && !s.declared(k) {
			s.top().decl[k] = true
			s.send(fmt.Sprintf("(assert (>= %s 0))", s.emit(u)))
		}
	default:
		if strings.HasPrefix(u.op, "sub!") && !s.declared(k) {
			s.top().decl[k] = true
			if nonNeg(u.args[0]) {
				s.assertRaw(tLe(tInt(1), tApp("+", sInt, u, tInt(0))))
			} else {
				// no allocation is a part of another object
				s.assertRaw(tOr(tLe(tInt(1), tApp("+", sInt, u, tInt(0))), tLe(tApp("+", sInt, u, tInt(0)), tInt(-1000000000))))
			}
			for i, a := range u.args {
				s.assertRaw(tApp("=", sBool, tApp(fmt.Sprintf("inv%d%s", i, u.op), sInt, u), a))
			}
		}
		if f, ok := groundFun(u.op); ok && !s.declared(k) {
			s.top().decl[k] = true
			for _, a := range f(u) {
				s.assertRaw(a)
			}
		}
		if n, ok := fixedLen[u.op]; ok && !s.declared(k+"l") {
			s.top().decl[k+"l"] = true
			s.declFun("slen", []string{sStr}, sInt)
			s.send(fmt.Sprintf("(assert (= (slen %s) %d))", s.emit(u), n))
		}
	}
}

// groundFuns yields axiom instances for each ground application of a function.
var groundFuns = map[string]func(*Term) []*Term{}

func groundFun(op string) (func(*Term) []*Term, bool) {
	if strings.HasPrefix(op, "errF") {
		op = "errF"
	}
	f, ok := groundFuns[op]
	return f, ok
}

// funAxioms yields quantified axioms asserted when a function symbol is first declared.
var funAxioms = map[string]func() []*Term{}

func (s *Solver) Assert(t *Term) {
	s.top().asserted = append(s.top().asserted, t)
	s.assertRaw(t)
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return "unknown"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

// Check returns "sat", "unsat" or "unknown".
func (s *Solver) Check() string {
	if s.dead {
		return "unknown"
	}
	t0 := time.Now()
	s.send("(check-sat)")
	r := s.readLine()
	for strings.HasPrefix(r, "(error") {
		fmt.Fprintln(os.Stderr, "solver:", r)
		if strings.Contains(r, "canceled") || s.dead {
			break
		}
		r = s.readLine()
	}
	d := time.Since(t0)
	s.nq++
	s.t += d
	atomic.AddInt64(&totalQueries, 1)
	atomic.AddInt64(&totalSolverNs, int64(d))
	return r
}

// CheckWith checks the current assertions plus t.
func (s *Solver) CheckWith(t *Term) string {
	if t.isTrue() {
		return s.Check()
	}
	if t.isFalse() {
		return "unsat"
	}
	s.Push()
	s.assertRaw(t)
	r := s.Check()
	s.Pop()
	return r
}

// Script renders all current assertions as a standalone script (for other solvers).
func standalone(asserts []*Term) string {
	var sb strings.Builder
	s := &Solver{}
	s.scopes = []*scope{{decl: map[string]bool{}, named: map[*Term]string{}}}
	s.in = nopWC{&sb}
	s.send("(set-logic ALL)")
	s.send("(declare-sort Str 0)")
	s.send("(declare-sort Iface 0)")
	for _, a := range asserts {
		s.assertRaw(a)
	}
	s.send("(check-sat)")
	return sb.String()
}

type nopWC struct{ io.Writer }

func (nopWC) Close() error { return nil }

func (s *Solver) allAsserted() []*Term {
	var r []*Term
	for _, sc := range s.scopes {
		r = append(r, sc.asserted...)
	}
	return r
}

// secondOpinion runs other installed solvers on the current assertions plus t.
func (s *Solver) secondOpinion(t *Term, sec int) (string, string) {
	script := standalone(append(append([]*Term{}, s.allAsserted()...), t))
	type cand struct {
		name string
		args []string
	}
	cands := []cand{{"z3", []string{"-in", "-smt2", fmt.Sprintf("-T:%d", sec)}}, {"z3-new", []string{"-in", "-smt2", fmt.Sprintf("-T:%d", sec)}}, {"cvc5", []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", sec*1000)}}}
	type answer struct{ r, name string }
	ch := make(chan answer, len(cands))
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec+2)*time.Second)
	defer cancel()
	for _, c := range cands {
		go func() {
			cmd := exec.CommandContext(ctx, c.name, c.args...)
			cmd.Stdin = strings.NewReader(script)
			t0 := time.Now()
			out, _ := cmd.Output()
			atomic.AddInt64(&totalSolverNs, int64(time.Since(t0)))
			ch <- answer{strings.TrimSpace(string(out)), c.name}
		}()
	}
	for range cands {
		if a := <-ch; a.r == "unsat" || a.r == "sat" {
			return a.r, a.name
		}
	}
	return "unknown", "z3,z3-new,cvc5"
}

// Model evaluates terms after a sat answer (terms must be declared already).
func (s *Solver) Eval(ts []*Term) map[*Term]string {
	res := map[*Term]string{}
	for _, t := range ts {
		e := s.emit(t)
		s.send("(eval " + e + " :completion true)")
		res[t] = s.readSexp()
	}
	return res
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return sb.String()
		}
		in := false
		for _, c := range l {
			if c == '|' {
				in = !in
			}
			if !in {
				if c == '(' {
					depth++
				}
				if c == ')' {
					depth--
				}
			}
		}
		sb.WriteString(strings.TrimSpace(l))
		if depth <= 0 && strings.TrimSpace(sb.String()) != "" {
			return sb.String()
		}
		sb.WriteByte(' ')
	}
}

// refute builds a term equisatisfiable with the negation of t: outer universal
// quantifiers become fresh constants, and ground terms that occur only below a
// remaining quantifier are mentioned outside it so that E-matching can see them.
func (ex *Exec) refute(t *Term) *Term {
	var touch []*Term
	seen := map[*Term]bool{}
	var inner func(u *Term)
	inner = func(u *Term) {
		if seen[u] {
			return
		}
		seen[u] = true
		if len(u.free) == 0 && u.kind == 'a' && u.sort != sBool && !u.isConst() {
			if u.op == "select" {
				touch = append(touch, tApp("touch!"+u.sort, sBool, u))
			}
			return
		}
		for _, a := range u.args {
			inner(a)
		}
	}
	var neg, pos func(u *Term) *Term
	pos = func(u *Term) *Term { // u is asserted
		switch {
		case u.kind == 'q':
			inner(u.args[0])
			return u
		case u.op == "not":
			return neg(u.args[0])
		case u.kind == 'a' && (u.op == "and" || u.op == "or"):
			var as []*Term
			for _, a := range u.args {
				as = append(as, pos(a))
			}
			if u.op == "and" {
				return tAnd(as...)
			}
			return tOr(as...)
		}
		return u
	}
	neg = func(u *Term) *Term { // not u is asserted
		switch {
		case u.kind == 'q' && len(u.free) == 0:
			m := map[*Term]*Term{}
			for _, v := range u.vars {
				m[v] = tVar("x!"+ex.fresh("sk"), v.sort)
			}
			return neg(subst(u.args[0], m))
		case u.op == "not":
			return pos(u.args[0])
		case u.kind == 'a' && (u.op == "and" || u.op == "or"):
			var as []*Term
			for _, a := range u.args {
				as = append(as, neg(a))
			}
			if u.op == "and" {
				return tOr(as...)
			}
			return tAnd(as...)
		}
		return tNot(u)
	}
	r := neg(t)
	if len(touch) > 0 && len(touch) <= 64 {
		r = tAnd(append([]*Term{r}, touch...)...)
	}
	return r
}
