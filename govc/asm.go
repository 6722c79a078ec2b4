package main

// Symbolic execution of Plan 9 amd64 assembly as listed by "go tool asm -S".

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type machine struct {
	r              map[string]Value
	xm             map[string][]*T // 16 bytes
	cf, of, zf, sf *T
	stack          *Obj
	steps          int
	args           []asmArg
	fn             *AsmFunc
	file           *AsmFile
	pkg            *ssa.Package
	pc             int
	calls          []asmRet
}
type asmRet struct {
	fn *AsmFunc
	pc int
}

type asmArg struct {
	off, n int64
	v      Value
	res    bool
	t      types.Type
	name   string
}

func (m *machine) clone() *machine {
	n := *m
	n.r = map[string]Value{}
	for k, v := range m.r {
		n.r[k] = v
	}
	n.xm = map[string][]*T{}
	for k, v := range m.xm {
		n.xm[k] = append([]*T(nil), v...)
	}
	n.args = append([]asmArg(nil), m.args...)
	n.calls = append([]asmRet(nil), m.calls...)
	return &n
}

func (x *Exec) runAsm(st *State, fn *ssa.Function, af *AsmFunc, args []Value) []Alt {
	x.fnHits["[asm] "+fn.String()]++
	m := &machine{r: map[string]Value{}, xm: map[string][]*T{}, fn: af, pkg: fn.Pkg, file: x.P.asmFile(x.P.src[fn.Pkg.Pkg.Path()])}
	off := int64(0)
	sig := fn.Signature
	add := func(t types.Type, v Value, res bool, name string) {
		al := x.P.sizes.Alignof(t)
		off = (off + al - 1) / al * al
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if s, ok := v.(Slice); ok {
				m.args = append(m.args, asmArg{off, 8, s.p, res, t, name}, asmArg{off + 8, 8, s.len, res, t, name}, asmArg{off + 16, 8, s.cap, res, t, name})
			} else {
				unsup("asm slice result")
			}
		default:
			_ = u
			m.args = append(m.args, asmArg{off, x.sizeof(t), v, res, t, name})
		}
		off += x.sizeof(t)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		add(sig.Params().At(i).Type(), args[i], false, sig.Params().At(i).Name())
	}
	off = (off + 7) / 8 * 8
	for i := 0; i < sig.Results().Len(); i++ {
		add(sig.Results().At(i).Type(), nil, true, sig.Results().At(i).Name())
	}
	m.stack = x.NewObj(st, "stack", 2048)
	m.r["SP"] = Ptr{m.stack, x.C.I(2040)}
	for _, r := range []string{"AX", "BX", "CX", "DX", "SI", "DI", "BP", "R8", "R9", "R10", "R11", "R12", "R13", "R14", "R15"} {
		m.r[r] = x.C.Var(64, "undef!"+r)
	}
	type job struct {
		st *State
		m  *machine
	}
	work := []job{{st, m}}
	var alts []Alt
	for len(work) > 0 {
		j := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if j.m.pc >= len(j.m.fn.ins) {
				unsup("asm: fell off %s", j.m.fn.name)
			}
			in := j.m.fn.ins[j.m.pc]
			j.m.steps++
			if j.m.steps > 2000000 {
				unsup("asm: step limit in %s", af.name)
			}
			if in.op == "RET" {
				if n := len(j.m.calls); n > 0 {
					c := j.m.calls[n-1]
					j.m.calls = j.m.calls[:n-1]
					j.m.fn, j.m.pc = c.fn, c.pc
					continue
				}
				var v Value
				var tp Tuple
				for _, a := range j.m.args {
					if a.res {
						if a.v == nil {
							unsup("asm: result %s not set", a.name)
						}
						tp = append(tp, a.v)
					}
				}
				if len(tp) == 1 {
					v = tp[0]
				} else if len(tp) > 1 {
					v = tp
				}
				alts = append(alts, Alt{st: j.st, v: v})
				break
			}
			cond := x.asmStep(j.st, j.m, in)
			if cond == nil {
				j.m.pc++
				continue
			}
			// conditional or unconditional jump
			tgt, err := strconv.Atoi(in.args[len(in.args)-1])
			if err != nil && cond.isC() && cond.k == 1 && strings.HasSuffix(in.args[0], "(SB)") {
				n := strings.TrimPrefix(strings.TrimSuffix(strings.TrimSuffix(in.args[0], "(SB)"), "<>"), "x.")
				if f := j.m.file.fns[n]; f != nil {
					j.m.fn, j.m.pc = f, 0 // tail jump to another symbol
					continue
				}
			}
			if err != nil {
				unsup("asm: jump target %v", in.args)
			}
			ti, ok := j.m.fn.byPC[tgt]
			if !ok {
				// target is a dropped pseudo instruction: next real one
				for k := 0; k < 64 && !ok; k++ {
					ti, ok = j.m.fn.byPC[tgt+k]
				}
				if !ok {
					unsup("asm: jump target %d", tgt)
				}
			}
			if cond.isC() {
				if cond.k == 1 {
					j.m.pc = ti
				} else {
					j.m.pc++
				}
				continue
			}
			ft, ff := x.Feasible(j.st, cond), x.Feasible(j.st, x.C.Not(cond))
			if ft && ff {
				s2, m2 := j.st.Clone(), j.m.clone()
				s2.Assume(cond)
				m2.pc = ti
				work = append(work, job{s2, m2})
				j.st.Assume(x.C.Not(cond))
				j.m.pc++
			} else if ft {
				j.m.pc = ti
			} else {
				j.m.pc++
			}
		}
	}
	return alts
}

var reg8 = map[string]string{"AL": "AX", "BL": "BX", "CL": "CX", "DL": "DX"}

func (x *Exec) asmStep(st *State, m *machine, in AsmInstr) *T {
	if in.op == "VNOP" {
		return nil
	}
	C := x.C
	a := in.args
	isX := func(s string) bool {
		return len(s) >= 2 && s[0] == 'X' && s[1] >= '0' && s[1] <= '9'
	}
	imm := func(s string) uint64 {
		s = strings.TrimPrefix(s, "$")
		if v, err := strconv.ParseInt(s, 0, 64); err == nil {
			return uint64(v)
		}
		v, err := strconv.ParseUint(s, 0, 64)
		if err != nil {
			unsup("asm: immediate %q", s)
		}
		return v
	}
	// memory operand -> pointer, or FP argument
	mem := func(s string) (Ptr, *asmArg) {
		i := strings.IndexByte(s, '(')
		if i < 0 {
			unsup("asm: operand %q", s)
		}
		pre := s[:i]
		rest := s[i:]
		base := strings.TrimSuffix(strings.TrimPrefix(strings.SplitN(rest, ")", 2)[0], "("), ")")
		tail := strings.SplitN(rest, ")", 2)[1]
		if base == "FP" {
			k := strings.LastIndexAny(pre, "+-")
			o, _ := strconv.ParseInt(pre[k:], 10, 64)
			o -= m.fn.frame + 8
			for n := range m.args {
				if m.args[n].off == o {
					return Ptr{}, &m.args[n]
				}
			}
			unsup("asm: argument %s", s)
		}
		if base == "SB" {
			off := int64(0)
			name := pre
			if k := strings.LastIndexAny(pre, "+-"); k > 0 {
				off, _ = strconv.ParseInt(pre[k:], 10, 64)
				name = pre[:k]
			}
			name = strings.TrimPrefix(name, "x.")
			if k := strings.LastIndexByte(name, '.'); k >= 0 {
				name = name[k+1:]
			}
			name = strings.TrimSuffix(name, "<>")
			g, _ := m.pkg.Members[name].(*ssa.Global)
			if g == nil {
				unsup("asm: symbol %s", s)
			}
			o := x.globals[g]
			if o == nil {
				unsup("asm: symbol %s not initialised", s)
			}
			return Ptr{o, C.I(off)}, nil
		}
		if base == "TLS" {
			return Ptr{}, nil
		}
		off := int64(0)
		if pre != "" {
			var err error
			off, err = strconv.ParseInt(pre, 10, 64)
			if err != nil {
				unsup("asm: operand %q", s)
			}
		}
		p, ok := m.r[base].(Ptr)
		if !ok {
			unsup("asm: %s is not a pointer in %s (%s)", base, s, in.line)
		}
		r := Ptr{p.obj, C.Add(p.off, C.I(off))}
		if tail != "" { // (R*scale)
			t := strings.Trim(tail, "()")
			sc := int64(1)
			if k := strings.IndexByte(t, '*'); k >= 0 {
				sc, _ = strconv.ParseInt(t[k+1:], 10, 64)
				t = t[:k]
			}
			iv, ok := m.r[t].(*T)
			if !ok {
				unsup("asm: index %s", s)
			}
			r.off = C.Add(r.off, C.Mul(iv, C.I(sc)))
		}
		if r.obj == nil {
			unsup("asm: nil pointer in %s", s)
		}
		if r.obj.size >= 0 && r.off.isC() && (int64(r.off.k) < 0 || int64(r.off.k) >= r.obj.size) {
			unsup("asm: access outside %s in %s (%s)", r.obj.name, s, in.line)
		}
		return r, nil
	}
	isReg := func(s string) bool {
		if _, ok := m.r[s]; ok {
			return true
		}
		_, ok := reg8[s]
		return ok
	}
	get := func(s string, n int64) Value {
		if s[0] == '$' {
			return C.Const(uint8(8*n), imm(s))
		}
		if isReg(s) {
			if b, ok := reg8[s]; ok {
				s = b
			}
			v := m.r[s]
			if t, ok := v.(*T); ok && n < 8 {
				return C.Extract(t, 0, uint8(8*n))
			}
			return v
		}
		p, arg := mem(s)
		if arg != nil {
			if arg.v == nil {
				unsup("asm: read of unset result %s", s)
			}
			if t, ok := arg.v.(*T); ok {
				if t.w == 1 {
					t = C.Zext(t, 8)
				}
				if int64(t.w) > 8*n {
					return C.Extract(t, 0, uint8(8*n))
				}
				if int64(t.w) < 8*n {
					// reads past the argument: upper bytes undefined
					return C.Concat(C.Fresh(uint8(8*n)-t.w, "undefarg"), t)
				}
				return t
			}
			return arg.v
		}
		if p.obj.size < 0 {
			return x.load(st, p, map[int64]types.Type{1: types.Typ[types.Uint8], 4: types.Typ[types.Uint32], 8: types.Typ[types.Uint64]}[n])
		}
		if !p.off.isC() {
			unsup("asm: symbolic address %s", s)
		}
		c := st.os(p.obj).cells[p.off.k]
		if int64(c.n) == n {
			if pv, ok := c.v.(Ptr); ok {
				return pv
			}
		}
		return x.loadBits(st, p.obj, int64(p.off.k), n)
	}
	set := func(s string, n int64, v Value) {
		if isReg(s) {
			if b, ok := reg8[s]; ok {
				s = b
			}
			t, ok := v.(*T)
			if ok && n == 4 {
				t = C.Zext(t, 64)
				v = t
			} else if ok && n < 4 {
				o, ok2 := m.r[s].(*T)
				if !ok2 {
					o = C.Var(64, "undef!"+s)
				}
				v = C.Concat(C.Extract(o, uint8(8*n), uint8(64-8*n)), t)
			}
			m.r[s] = v
			return
		}
		p, arg := mem(s)
		if arg != nil {
			if t, ok := v.(*T); ok && int64(t.w) != arg.n*8 {
				unsup("asm: result width %s", s)
			}
			arg.v = v
			return
		}
		if p.obj.size < 0 {
			x.symWriteBytes(st, p, splitBytes(C, v.(*T)))
			return
		}
		if !p.off.isC() {
			unsup("asm: symbolic address %s", s)
		}
		x.storeAt(st, p.obj, int64(p.off.k), n, v)
	}
	T64 := func(v Value) *T {
		t, ok := v.(*T)
		if !ok {
			unsup("asm: pointer in arithmetic %s %v (%s)", in.op, a, in.line)
		}
		return t
	}
	flagsZ := func(t *T) {
		m.zf = C.Eq(t, C.Const(t.w, 0))
		m.sf = C.Extract(t, t.w-1, 1)
	}
	need := func(t *T) *T {
		if t == nil {
			unsup("asm: undefined flag used at %s", in.line)
		}
		return t
	}
	zero1 := C.Bool(false)
	op := in.op
	n := int64(8)
	if len(op) > 3 {
		switch op[len(op)-1] {
		case 'L':
			n = 4
		case 'B':
			n = 1
		case 'W':
			n = 2
		}
	}
	// 16-byte operands
	getX := func(s string) []*T {
		if isX(s) {
			v := m.xm[s]
			if v == nil {
				v = make([]*T, 16)
				for i := range v {
					v[i] = C.Var(8, "undef!"+s+"."+strconv.Itoa(i))
				}
				m.xm[s] = v
			}
			return v
		}
		p, _ := mem(s)
		return x.readBytes(st, p, 16)
	}
	setX := func(s string, v []*T) {
		if isX(s) {
			m.xm[s] = v
			return
		}
		p, _ := mem(s)
		if p.obj.size >= 0 && p.off.isC() && int64(p.off.k)+16 > p.obj.size {
			unsup("asm: 16-byte store outside %s (%s)", p.obj.name, in.line)
		}
		x.writeBytes(st, p, v)
	}
	feat := ""
	switch {
	case op == "MULXQ":
		feat = "HasBMI2"
	case op == "ADCXQ" || op == "ADOXQ":
		feat = "HasADX"
	case strings.HasPrefix(op, "AES"):
		feat = "HasAES"
	}
	if feat != "" {
		x.feats[feat] = true
		if b, ok := x.cpuFlags[feat]; ok && !b {
			x.illegal = append(x.illegal, feat+" instruction "+op+" executed without the feature at "+in.line)
		}
	}
	switch op {
	case "MOVQ", "MOVL", "MOVB", "MOVW":
		if a[0] == "(TLS)" {
			m.r[a[1]] = C.Var(64, "undef!tls")
			return nil
		}
		if isX(a[1]) || isX(a[0]) {
			if isX(a[1]) {
				v := T64(get(a[0], 8))
				b := append(splitBytes(C, v), make([]*T, 8)...)
				for i := 8; i < 16; i++ {
					b[i] = C.Const(8, 0)
				}
				setX(a[1], b)
				return nil
			}
			b := getX(a[0])
			set(a[1], 8, joinBytes(C, b[:8]))
			return nil
		}
		set(a[1], n, get(a[0], n))
	case "MOVBLZX", "MOVBQZX":
		set(a[1], 8, C.Zext(T64(get(a[0], 1)), 64))
	case "MOVBLSX", "MOVBQSX":
		w := uint8(64)
		if op == "MOVBLSX" {
			w = 32
		}
		set(a[1], int64(w/8), C.Sext(T64(get(a[0], 1)), w))
	case "MOVLQZX":
		set(a[1], 8, C.Zext(T64(get(a[0], 4)), 64))
	case "LEAQ":
		if strings.HasSuffix(a[0], "(SP)") && len(m.calls) == 0 {
			pr := strings.TrimSuffix(a[0], "(SP)")
			off, _ := strconv.ParseInt(pr, 10, 64)
			p := m.r["SP"].(Ptr)
			set(a[1], 8, Ptr{p.obj, C.Add(p.off, C.I(off))})
			return nil
		}
		p, arg := mem(a[0])
		if arg != nil {
			unsup("asm: address of argument")
		}
		set(a[1], 8, p)
	case "XORQ", "ANDQ", "ORQ", "XORL", "ANDL", "ORL":
		var r *T
		if op[:3] == "XOR" && a[0] == a[1] {
			r = C.Const(uint8(8*n), 0)
		} else {
			u, v := T64(get(a[0], n)), T64(get(a[1], n))
			switch op[:2] {
			case "XO":
				r = C.Xor(u, v)
			case "AN":
				r = C.And(u, v)
			case "OR":
				r = C.Or(u, v)
			}
		}
		set(a[1], n, r)
		m.cf, m.of = zero1, zero1
		flagsZ(r)
	case "TESTQ", "TESTB", "TESTL":
		r := C.And(T64(get(a[0], n)), T64(get(a[1], n)))
		m.cf, m.of = zero1, zero1
		flagsZ(r)
	case "NOTQ":
		set(a[0], 8, C.Not(T64(get(a[0], 8))))
	case "ROLQ", "RORQ":
		if a[0][0] != '$' {
			unsup("asm: variable rotate")
		}
		k := imm(a[0]) & 63
		if op == "RORQ" {
			k = (64 - k) & 63
		}
		set(a[1], 8, C.Rotl(T64(get(a[1], 8)), k))
		m.cf, m.of = nil, nil
	case "SHLQ", "SHRQ", "SARQ", "SHLL", "SHRL":
		if a[0][0] != '$' {
			unsup("asm: variable shift")
		}
		k := imm(a[0]) & 63
		if len(a) == 3 { // double shift: SHLQ $k, src, dst
			s, d := T64(get(a[1], 8)), T64(get(a[2], 8))
			var r *T
			if op == "SHLQ" {
				r = C.Or(C.ShlK(d, k), C.LshrK(s, 64-k))
			} else {
				r = C.Or(C.LshrK(d, k), C.ShlK(s, 64-k))
			}
			set(a[2], 8, r)
			m.cf, m.of = nil, nil
			flagsZ(r)
			return nil
		}
		v := T64(get(a[1], n))
		var r *T
		switch op[:3] {
		case "SHL":
			r = C.ShlK(v, k)
			if k > 0 && k <= uint64(v.w) {
				m.cf = C.Extract(v, v.w-uint8(k), 1)
			}
		case "SHR":
			r = C.LshrK(v, k)
			if k > 0 && k <= uint64(v.w) {
				m.cf = C.Extract(v, uint8(k-1), 1)
			}
		default:
			r = C.AshrK(v, k)
			if k > 0 && k <= uint64(v.w) {
				m.cf = C.Extract(v, uint8(k-1), 1)
			}
		}
		set(a[1], n, r)
		m.of = nil
		flagsZ(r)
	case "ADDQ", "SUBQ", "ADDL", "SUBL":
		u, v := get(a[0], n), get(a[1], n)
		if p, ok := v.(Ptr); ok {
			if op == "ADDQ" {
				set(a[1], 8, Ptr{p.obj, C.Add(p.off, T64(u))})
			} else {
				set(a[1], 8, Ptr{p.obj, C.Sub(p.off, T64(u))})
			}
			m.cf, m.of, m.zf = nil, nil, nil
			return nil
		}
		if p, ok := u.(Ptr); ok && op == "ADDQ" {
			set(a[1], 8, Ptr{p.obj, C.Add(p.off, T64(v))})
			m.cf, m.of, m.zf = nil, nil, nil
			return nil
		}
		var r, c *T
		if op[:3] == "ADD" {
			r, c = C.Adc(T64(v), T64(u), zero1)
		} else {
			if a[0] == a[1] {
				r, c = C.Const(uint8(8*n), 0), zero1
			} else {
				r, c = C.Sbb(T64(v), T64(u), zero1)
			}
		}
		set(a[1], n, r)
		m.cf, m.of = c, nil
		flagsZ(r)
	case "ADCQ", "ADCXQ", "ADOXQ":
		u, v := T64(get(a[0], 8)), T64(get(a[1], 8))
		cin := m.cf
		if op == "ADOXQ" {
			cin = m.of
		}
		r, c := C.Adc(v, u, need(cin))
		set(a[1], 8, r)
		switch op {
		case "ADCQ":
			m.cf, m.of = c, nil
			flagsZ(r)
		case "ADCXQ":
			m.cf = c
		case "ADOXQ":
			m.of = c
		}
	case "SBBQ":
		var r, c *T
		if a[0] == a[1] {
			r, c = C.Sext(need(m.cf), 64), need(m.cf)
		} else {
			r, c = C.Sbb(T64(get(a[1], 8)), T64(get(a[0], 8)), need(m.cf))
		}
		set(a[1], 8, r)
		m.cf, m.of = c, nil
		flagsZ(r)
	case "NEGQ":
		v := T64(get(a[0], 8))
		r := C.Neg(v)
		m.cf = C.Not(C.Eq(v, C.Const(64, 0)))
		m.of = nil
		set(a[0], 8, r)
		flagsZ(r)
	case "DECQ", "INCQ":
		v := get(a[0], 8)
		d := C.U64(1)
		if p, ok := v.(Ptr); ok {
			if op == "DECQ" {
				set(a[0], 8, Ptr{p.obj, C.Sub(p.off, d)})
			} else {
				set(a[0], 8, Ptr{p.obj, C.Add(p.off, d)})
			}
			return nil
		}
		var r *T
		if op == "DECQ" {
			r = C.Sub(T64(v), d)
		} else {
			r = C.Add(T64(v), d)
		}
		set(a[0], 8, r)
		m.of = nil
		flagsZ(r)
	case "MULQ":
		u, v := T64(get(a[0], 8)), T64(m.r["AX"])
		m.r["AX"], m.r["DX"] = C.Mul(u, v), C.MulHi(u, v)
		m.cf, m.of, m.zf, m.sf = nil, nil, nil, nil
	case "IMULQ":
		if len(a) == 2 {
			set(a[1], 8, C.Mul(T64(get(a[0], 8)), T64(get(a[1], 8))))
		} else if len(a) == 3 {
			set(a[2], 8, C.Mul(T64(get(a[0], 8)), T64(get(a[1], 8))))
		} else {
			unsup("asm: IMULQ form")
		}
		m.cf, m.of, m.zf, m.sf = nil, nil, nil, nil
	case "MULXQ":
		u, v := T64(get(a[0], 8)), T64(m.r["DX"])
		lo, hi := C.Mul(u, v), C.MulHi(u, v)
		set(a[1], 8, lo)
		set(a[2], 8, hi)
	case "CMPQ", "CMPB", "CMPL":
		u, v := get(a[0], n), get(a[1], n)
		if pu, ok := u.(Ptr); ok {
			if pv, ok := v.(Ptr); ok && pu.obj == pv.obj {
				u, v = pu.off, pv.off
			} else if in.op == "CMPQ" && a[1] == "16(R14)" {
				unsup("asm: stack check")
			}
		}
		r, c := C.Sbb(T64(u), T64(v), zero1)
		if c.op != OConst {
			c = C.Ult(T64(u), T64(v))
		}
		m.cf = c
		m.of = nil
		m.zf = C.Eq(T64(u), T64(v))
		m.sf = C.Extract(r, r.w-1, 1)
	case "BTQ":
		if a[0][0] != '$' {
			unsup("asm: BTQ form")
		}
		m.cf = C.Extract(T64(get(a[1], 8)), uint8(imm(a[0])&63), 1)
	case "SETCS", "SETEQ", "SETNE", "SETCC":
		f := map[string]*T{"SETCS": m.cf, "SETEQ": m.zf, "SETNE": m.zf, "SETCC": m.cf}[op]
		f = need(f)
		if op == "SETNE" || op == "SETCC" {
			f = C.Not(f)
		}
		set(a[0], 1, C.Zext(f, 8))
	case "CMOVQCS", "CMOVQCC", "CMOVQEQ", "CMOVQNE":
		f := m.zf
		if strings.HasPrefix(op, "CMOVQC") {
			f = m.cf
		}
		f = need(f)
		if op == "CMOVQCC" || op == "CMOVQNE" {
			f = C.Not(f)
		}
		set(a[1], 8, C.Ite(f, T64(get(a[0], 8)), T64(get(a[1], 8))))
	case "JEQ":
		return need(m.zf)
	case "JNE":
		return C.Not(need(m.zf))
	case "JMP":
		return C.Bool(true)
	case "JCS":
		return need(m.cf)
	case "JCC":
		return C.Not(need(m.cf))
	case "JLS":
		return C.Or(need(m.cf), need(m.zf))
	case "JHI":
		return C.Not(C.Or(need(m.cf), need(m.zf)))
	case "PUSHQ":
		p := m.r["SP"].(Ptr)
		p = Ptr{p.obj, C.Sub(p.off, C.I(8))}
		m.r["SP"] = p
		x.storeAt(st, p.obj, int64(p.off.k), 8, get(a[0], 8))
	case "POPQ":
		p := m.r["SP"].(Ptr)
		v := st.os(p.obj).cells[p.off.k].v
		m.r["SP"] = Ptr{p.obj, C.Add(p.off, C.I(8))}
		set(a[0], 8, v)
	case "CALL":
		n := strings.TrimSuffix(strings.TrimSuffix(a[0], "(SB)"), "<>")
		n = strings.TrimPrefix(n, "x.")
		f := m.file.fns[n]
		if f == nil {
			unsup("asm: call of %s", a[0])
		}
		m.calls = append(m.calls, asmRet{m.fn, m.pc + 1})
		if len(m.calls) > 20 {
			unsup("asm: call depth")
		}
		m.fn = f
		m.pc = -1
	case "MOVOU", "MOVO", "MOVUPS", "MOVAPS", "MOVOA", "MOVUPD", "MOVAPD":
		setX(a[1], append([]*T(nil), getX(a[0])...))
	case "PXOR", "PAND", "POR", "PANDN":
		if op == "PXOR" && a[0] == a[1] {
			z := make([]*T, 16)
			for i := range z {
				z[i] = C.Const(8, 0)
			}
			setX(a[1], z)
			return nil
		}
		u, v := getX(a[0]), getX(a[1])
		r := make([]*T, 16)
		for i := range r {
			switch op {
			case "PXOR":
				r[i] = C.Xor(u[i], v[i])
			case "PAND":
				r[i] = C.And(u[i], v[i])
			case "POR":
				r[i] = C.Or(u[i], v[i])
			default:
				r[i] = C.And(u[i], C.Not(v[i]))
			}
		}
		setX(a[1], r)
	case "PSHUFD":
		k := imm(a[0])
		s := getX(a[1])
		r := make([]*T, 16)
		for i := 0; i < 4; i++ {
			j := int(k>>(2*i)) & 3
			copy(r[4*i:4*i+4], s[4*j:4*j+4])
		}
		setX(a[2], r)
	case "SHUFPS":
		k := imm(a[0])
		s, d := getX(a[1]), getX(a[2])
		r := make([]*T, 16)
		for i := 0; i < 4; i++ {
			j := int(k>>(2*i)) & 3
			src := d
			if i >= 2 {
				src = s
			}
			copy(r[4*i:4*i+4], src[4*j:4*j+4])
		}
		setX(a[2], r)
	case "PSLLO", "PSLLDQ", "PSRLO", "PSRLDQ":
		k := int(imm(a[0]))
		s := getX(a[1])
		r := make([]*T, 16)
		for i := range r {
			j := i - k
			if strings.HasPrefix(op, "PSR") {
				j = i + k
			}
			if j >= 0 && j < 16 {
				r[i] = s[j]
			} else {
				r[i] = C.Const(8, 0)
			}
		}
		setX(a[1], r)
	case "AESENC", "AESENCLAST", "AESDEC", "AESDECLAST":
		k, s := getX(a[0]), getX(a[1])
		var r []*T
		switch op {
		case "AESENC":
			r = aesMix(C, aesSub(C, aesShift(s, false), false), false)
		case "AESENCLAST":
			r = aesSub(C, aesShift(s, false), false)
		case "AESDEC":
			r = aesMix(C, aesSub(C, aesShift(s, true), true), true)
		default:
			r = aesSub(C, aesShift(s, true), true)
		}
		o := make([]*T, 16)
		for i := range o {
			o[i] = C.Xor(r[i], k[i])
		}
		setX(a[1], o)
	case "AESIMC":
		setX(a[1], aesMix(C, getX(a[0]), true))
	case "AESKEYGENASSIST":
		rc := byte(imm(a[0]))
		s := getX(a[1])
		r := make([]*T, 16)
		for h := 0; h < 2; h++ {
			w := aesSub(C, s[4+8*h:8+8*h], false)
			copy(r[8*h:], w)
			rot := []*T{w[1], w[2], w[3], w[0]}
			rot[0] = C.Xor(rot[0], C.Const(8, uint64(rc)))
			copy(r[8*h+4:], rot)
		}
		setX(a[2], r)
	case "CPUID":
		ax, ok1 := m.r["AX"].(*T)
		cx, ok2 := m.r["CX"].(*T)
		if !ok1 || !ok2 {
			unsup("asm: CPUID operands")
		}
		lf, sub := C.Extract(ax, 0, 32), C.Extract(cx, 0, 32)
		if lf.isCV(0) || lf.isCV(1) {
			sub = C.Const(32, 0) // these leaves have no subleaves
		}
		for _, r := range []string{"AX", "BX", "CX", "DX"} {
			m.r[r] = C.Zext(C.UF(32, "cpuid."+r, lf, sub), 64)
		}
	default:
		unsup("asm: instruction %s (%s)", op, in.line)
	}
	return nil
}

func splitBytes(c *Ctx, t *T) []*T {
	b := make([]*T, t.w/8)
	for i := range b {
		b[i] = c.Extract(t, uint8(8*i), 8)
	}
	return b
}
func joinBytes(c *Ctx, b []*T) *T {
	r := make([]*T, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return c.Concat(r...)
}

// ---- FIPS 197 primitives over byte terms (also used by the AES specification)

var aesS, aesI [256]byte
var aesSLut, aesILut, aes2Lut LutTab
var aesMulLut [16]LutTab

func gmul(a, b byte) byte {
	var p byte
	for i := 0; i < 8; i++ {
		if b&1 == 1 {
			p ^= a
		}
		h := a & 0x80
		a <<= 1
		if h != 0 {
			a ^= 0x1b
		}
		b >>= 1
	}
	return p
}

func init() {
	// S-box from its definition: inverse in GF(2^8), then the affine map
	for i := 0; i < 256; i++ {
		var inv byte
		for j := 1; j < 256; j++ {
			if gmul(byte(i), byte(j)) == 1 {
				inv = byte(j)
			}
		}
		s := inv
		for k := 1; k <= 4; k++ {
			s ^= inv<<k | inv>>(8-k)
		}
		s ^= 0x63
		aesS[i] = s
		aesI[s] = byte(i)
	}
	aesSLut.w, aesILut.w = 8, 8
	for i := 0; i < 256; i++ {
		aesSLut.tab[i] = uint64(aesS[i])
		aesILut.tab[i] = uint64(aesI[i])
	}
	for m := 0; m < 16; m++ {
		aesMulLut[m].w = 8
		for i := 0; i < 256; i++ {
			aesMulLut[m].tab[i] = uint64(gmul(byte(i), byte(m)))
		}
	}
}

func aesShift(s []*T, inv bool) []*T {
	r := make([]*T, 16)
	for c := 0; c < 4; c++ {
		for row := 0; row < 4; row++ {
			src := (c + row) % 4
			if inv {
				src = (c - row + 4) % 4
			}
			r[4*c+row] = s[4*src+row]
		}
	}
	return r
}
func aesSub(c *Ctx, s []*T, inv bool) []*T {
	r := make([]*T, len(s))
	for i := range s {
		if inv {
			r[i] = c.Lut(&aesILut, s[i])
		} else {
			r[i] = c.Lut(&aesSLut, s[i])
		}
	}
	return r
}
func aesMix(c *Ctx, s []*T, inv bool) []*T {
	co := [4]int{2, 3, 1, 1}
	if inv {
		co = [4]int{14, 11, 13, 9}
	}
	r := make([]*T, 16)
	for k := 0; k < 4; k++ {
		for i := 0; i < 4; i++ {
			v := c.Const(8, 0)
			for j := 0; j < 4; j++ {
				v = c.Xor(v, c.Lut(&aesMulLut[co[(j-i+4)%4]], s[4*k+j]))
			}
			r[4*k+i] = v
		}
	}
	return r
}
