package main

// SMT back end: one z3 process per executor, fresh scope per query.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	cache   map[string]string
	Queries int
	Spent   time.Duration
	Timeout int // ms
	dead    bool
	Model   map[string]uint64
}

func NewSolver() *Solver {
	s := &Solver{cache: map[string]string{}, Timeout: 10000}
	s.start()
	return s
}

func (s *Solver) start() {
	bin := "z3-new"
	if _, err := exec.LookPath(bin); err != nil {
		bin = "z3"
	}
	s.cmd = exec.Command(bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReader(o)
	if err := s.cmd.Start(); err != nil {
		s.dead = true
	}
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func smtName(n string) string { return "|" + strings.ReplaceAll(n, "|", "_") + "|" }

type smtW struct {
	b     strings.Builder
	done  map[*T]string
	ufs   map[string]bool
	n     int
	vars  []*T
	luts  map[uint64]bool
	bad   bool
	decls strings.Builder
}

func (w *smtW) ref(t *T) string {
	if r, ok := w.done[t]; ok {
		return r
	}
	var r string
	bv := func(v uint64, n uint8) string { return fmt.Sprintf("(_ bv%d %d)", v, n) }
	switch t.op {
	case OConst:
		r = bv(t.k, t.w)
		w.done[t] = r
		return r
	case OVar:
		r = smtName(t.name)
		fmt.Fprintf(&w.decls, "(declare-const %s (_ BitVec %d))\n", r, t.w)
		if t.lo > 0 {
			fmt.Fprintf(&w.decls, "(assert (bvule %s %s))\n", bv(t.lo, t.w), r)
		}
		if t.hi < mask(t.w) {
			fmt.Fprintf(&w.decls, "(assert (bvule %s %s))\n", r, bv(t.hi, t.w))
		}
		w.vars = append(w.vars, t)
		w.done[t] = r
		return r
	}
	var as []string
	for _, a := range t.a {
		as = append(as, w.ref(a))
	}
	bin := func(op string) string { return "(" + op + " " + as[0] + " " + as[1] + ")" }
	b1 := func(e string) string { return "(ite " + e + " #b1 #b0)" }
	zx := func(e string, k int) string { return fmt.Sprintf("((_ zero_extend %d) %s)", k, e) }
	var e string
	W := int(t.w)
	switch t.op {
	case OAnd:
		e = bin("bvand")
	case OOr:
		e = bin("bvor")
	case OXor:
		e = bin("bvxor")
	case OAdd:
		e = bin("bvadd")
	case OSub:
		e = bin("bvsub")
	case OAdc:
		e = fmt.Sprintf("(bvadd (bvadd %s %s) %s)", as[0], as[1], zx(as[2], W-1))
	case OSbb:
		e = fmt.Sprintf("(bvsub (bvsub %s %s) %s)", as[0], as[1], zx(as[2], W-1))
	case OAdcC:
		aw := int(t.a[0].w)
		e = fmt.Sprintf("((_ extract %d %d) (bvadd (bvadd %s %s) %s))", aw, aw, zx(as[0], 1), zx(as[1], 1), zx(as[2], aw))
	case OSbbB:
		aw := int(t.a[0].w)
		e = fmt.Sprintf("((_ extract %d %d) (bvsub (bvsub %s %s) %s))", aw, aw, zx(as[0], 1), zx(as[1], 1), zx(as[2], aw))
	case OMul:
		e = bin("bvmul")
	case OMulHi:
		e = fmt.Sprintf("((_ extract 127 64) (bvmul %s %s))", zx(as[0], 64), zx(as[1], 64))
	case OUdiv:
		e = bin("bvudiv")
	case OUrem:
		e = bin("bvurem")
	case OShlV, OLshrV, OAshrV:
		n := as[1]
		if t.w < 64 {
			// saturate the amount
			lim := bv(uint64(t.w), 64)
			n = fmt.Sprintf("((_ extract %d 0) (ite (bvult %s %s) %s %s))", W-1, n, lim, n, lim)
		}
		e = "(" + map[Op]string{OShlV: "bvshl", OLshrV: "bvlshr", OAshrV: "bvashr"}[t.op] + " " + as[0] + " " + n + ")"
	case ORotl:
		e = fmt.Sprintf("((_ rotate_left %d) %s)", t.k, as[0])
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, as[0])
	case OConcat:
		e = as[0]
		for _, a := range as[1:] {
			e = "(concat " + e + " " + a + ")"
		}
	case OSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", W-int(t.a[0].w), as[0])
	case OEq:
		e = b1(bin("="))
	case OUlt:
		e = b1(bin("bvult"))
	case OSlt:
		e = b1(bin("bvslt"))
	case OIte:
		e = fmt.Sprintf("(ite (= %s #b1) %s %s)", as[0], as[1], as[2])
	case OLut, OUF:
		name := t.name
		if t.op == OLut {
			name = fmt.Sprintf("lut%d_%d", t.k, t.w)
		} else {
			name = fmt.Sprintf("%s/%d/%d", name, len(t.a), t.w)
		}
		if len(as) == 0 {
			name = smtName(name)
			if !w.ufs[name] {
				w.ufs[name] = true
				fmt.Fprintf(&w.decls, "(declare-const %s (_ BitVec %d))\n", name, t.w)
			}
			e = name
			break
		}
		for _, a := range t.a {
			name += fmt.Sprintf(".%d", a.w)
		}
		name = smtName(name)
		if !w.ufs[name] {
			w.ufs[name] = true
			fmt.Fprintf(&w.decls, "(declare-fun %s (", name)
			for _, a := range t.a {
				fmt.Fprintf(&w.decls, "(_ BitVec %d) ", a.w)
			}
			fmt.Fprintf(&w.decls, ") (_ BitVec %d))\n", t.w)
		}
		e = "(" + name + " " + strings.Join(as, " ") + ")"
	default:
		w.bad = true
		e = "#b0"
	}
	w.n++
	r = fmt.Sprintf("t%d", w.n)
	fmt.Fprintf(&w.b, "(define-fun %s () (_ BitVec %d) %s)\n", r, t.w, e)
	w.done[t] = r
	return r
}

// Check decides satisfiability of the conjunction of 1-bit terms.
func (s *Solver) Check(cs []*T) string { return s.CheckModel(cs, false) }

func (s *Solver) CheckModel(cs []*T, model bool) string {
	ids := make([]int, 0, len(cs))
	for _, c := range cs {
		if c.isCV(0) {
			return "unsat"
		}
		if !c.isCV(1) {
			ids = append(ids, int(c.id))
		}
	}
	if len(ids) == 0 && !model {
		return "sat"
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids)
	if !model {
		if r, ok := s.cache[key]; ok {
			return r
		}
	}
	if s.dead {
		return "unknown"
	}
	t0 := time.Now()
	w := &smtW{done: map[*T]string{}, ufs: map[string]bool{}, luts: map[uint64]bool{}}
	var as strings.Builder
	for _, c := range cs {
		fmt.Fprintf(&as, "(assert (= %s #b1))\n", w.ref(c))
	}
	if w.bad {
		return "unknown"
	}
	s.Queries++
	fmt.Fprintf(s.in, "(reset)\n(set-option :timeout %d)\n%s%s%s(check-sat)\n", s.Timeout, w.decls.String(), w.b.String(), as.String())
	r := s.line()
	if r == "sat" && model && len(w.vars) > 0 {
		s.Model = map[string]uint64{}
		for _, v := range w.vars {
			fmt.Fprintf(s.in, "(get-value (%s))\n", smtName(v.name))
			l := s.line()
			i := strings.LastIndexAny(l, "#")
			if i >= 0 {
				val := strings.TrimRight(l[i:], ")")
				var u uint64
				if strings.HasPrefix(val, "#x") {
					fmt.Sscanf(val[2:], "%x", &u)
				} else {
					for _, ch := range val[2:] {
						u = u<<1 | uint64(ch-'0')
					}
				}
				s.Model[v.name] = u
			}
		}
	}
	if r != "sat" && r != "unsat" {
		r = "unknown"
	}
	s.Spent += time.Since(t0)
	s.cache[key] = r
	return r
}

func (s *Solver) line() string {
	type res struct {
		l   string
		err error
	}
	ch := make(chan res, 1)
	go func() {
		l, err := s.out.ReadString('\n')
		ch <- res{l, err}
	}()
	select {
	case r := <-ch:
		if r.err != nil {
			s.dead = true
			return "error"
		}
		return strings.TrimSpace(r.l)
	case <-time.After(time.Duration(s.Timeout)*time.Millisecond + 20*time.Second):
		s.Close()
		s.dead = true
		return "timeout"
	}
}
