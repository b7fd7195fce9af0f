package main

// SMT-LIB2 back end: one long-lived solver process per worker (and per floating
// point mode), driven incrementally with push/pop.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

func (r SatResult) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, Sat, Unsat, Unknown int
	Time                         time.Duration
	Restarts                     int
	Cached                       int // answered before
	Witness                      int // satisfied by a nearby assignment
	Order                        int // refuted without the solver, by transitivity
}

type Solver struct {
	tb      *TB
	exps    bool // lemmas about exponents
	precise bool // floating point operators have IEEE semantics (else uninterpreted + lemmas)
	cmdline []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	emitted map[int32]bool
	lemmas  [][]int32 // per level lemmas asserted
	lemmaAt map[int32]bool
	mono    [][]int32 // per level terms of monotone functions
	monoT   map[int32]*Term
	needBV  map[int32]bool // terms whose bits are referred to (precise mode)
	stack   []*Term
	stats   *SolverStats
	timeout int // ms
	log     io.Writer
	dead    bool
	nq      int
	cache   map[string][]uint64 // results of sliced queries
	acc     time.Duration
}

var dbgSlow = os.Getenv("SYM_SLOW") != ""

func NewSolver(tb *TB, precise, exps bool, timeoutMs int, cmdline []string, stats *SolverStats) *Solver {
	s := &Solver{tb: tb, precise: precise, exps: exps, cmdline: cmdline, stats: stats, timeout: timeoutMs}
	s.start()
	return s
}

const prelude = `
(define-fun isnan32 ((a (_ BitVec 32))) Bool (bvult #x7f800000 (bvand a #x7fffffff)))
(define-fun isnan64 ((a (_ BitVec 64))) Bool (bvult #x7ff0000000000000 (bvand a #x7fffffffffffffff)))
(define-fun iszero32 ((a (_ BitVec 32))) Bool (= (bvand a #x7fffffff) #x00000000))
(define-fun iszero64 ((a (_ BitVec 64))) Bool (= (bvand a #x7fffffffffffffff) #x0000000000000000))
(define-fun sgn32 ((a (_ BitVec 32))) Bool (= ((_ extract 31 31) a) #b1))
(define-fun sgn64 ((a (_ BitVec 64))) Bool (= ((_ extract 63 63) a) #b1))
(define-fun fltu32 ((a (_ BitVec 32)) (b (_ BitVec 32))) Bool (and (not (isnan32 a)) (not (isnan32 b)) (not (and (iszero32 a) (iszero32 b)))
  (ite (sgn32 a) (ite (sgn32 b) (bvult b a) true) (ite (sgn32 b) false (bvult a b)))))
(define-fun fltu64 ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (and (not (isnan64 a)) (not (isnan64 b)) (not (and (iszero64 a) (iszero64 b)))
  (ite (sgn64 a) (ite (sgn64 b) (bvult b a) true) (ite (sgn64 b) false (bvult a b)))))
(define-fun feqt32 ((a (_ BitVec 32)) (b (_ BitVec 32))) Bool (and (not (isnan32 a)) (not (isnan32 b)) (or (= a b) (and (iszero32 a) (iszero32 b)))))
(define-fun feqt64 ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (and (not (isnan64 a)) (not (isnan64 b)) (or (= a b) (and (iszero64 a) (iszero64 b)))))
(define-fun fleu32 ((a (_ BitVec 32)) (b (_ BitVec 32))) Bool (or (fltu32 a b) (feqt32 a b)))
(define-fun fleu64 ((a (_ BitVec 64)) (b (_ BitVec 64))) Bool (or (fltu64 a b) (feqt64 a b)))
`

const preludeUF = `
(declare-fun fadd32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun fsub32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun fmul32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun fdiv32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun fsqrt32 ((_ BitVec 32)) (_ BitVec 32))
(declare-fun fadd64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun fsub64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun fmul64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun fdiv64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
(declare-fun fsqrt64 ((_ BitVec 64)) (_ BitVec 64))
(declare-fun ffloor64 ((_ BitVec 64)) (_ BitVec 64))
(declare-fun fceil64 ((_ BitVec 64)) (_ BitVec 64))
(declare-fun ftrunc64 ((_ BitVec 64)) (_ BitVec 64))
(declare-fun ffloor32 ((_ BitVec 32)) (_ BitVec 32))
(declare-fun fceil32 ((_ BitVec 32)) (_ BitVec 32))
(declare-fun ftrunc32 ((_ BitVec 32)) (_ BitVec 32))
(declare-fun f2f32_64 ((_ BitVec 32)) (_ BitVec 64))
(declare-fun f2f64_32 ((_ BitVec 64)) (_ BitVec 32))
`

// exponents: ex is the biased exponent (at least 1) with 16 bits, fin finite, nor normal
const preludeExp = `
(define-fun xr32 ((a (_ BitVec 32))) (_ BitVec 16) (concat #x00 ((_ extract 30 23) a)))
(define-fun xr64 ((a (_ BitVec 64))) (_ BitVec 16) (concat #b00000 ((_ extract 62 52) a)))
(define-fun ex32 ((a (_ BitVec 32))) (_ BitVec 16) (ite (= (xr32 a) #x0000) #x0001 (xr32 a)))
(define-fun ex64 ((a (_ BitVec 64))) (_ BitVec 16) (ite (= (xr64 a) #x0000) #x0001 (xr64 a)))
(define-fun fin32 ((a (_ BitVec 32))) Bool (bvult (xr32 a) #x00ff))
(define-fun fin64 ((a (_ BitVec 64))) Bool (bvult (xr64 a) #x07ff))
(define-fun nor32 ((a (_ BitVec 32))) Bool (and (fin32 a) (not (= (xr32 a) #x0000))))
(define-fun nor64 ((a (_ BitVec 64))) Bool (and (fin64 a) (not (= (xr64 a) #x0000))))
(define-fun mx16 ((a (_ BitVec 16)) (b (_ BitVec 16))) (_ BitVec 16) (ite (bvslt a b) b a))
(define-fun upto32 ((n (_ BitVec 32)) (s (_ BitVec 16))) Bool (=> (bvsle s #x00fe) (bvsle (xr32 n) (mx16 s #x0001))))
(define-fun upto64 ((n (_ BitVec 64)) (s (_ BitVec 16))) Bool (=> (bvsle s #x07fe) (bvsle (xr64 n) (mx16 s #x0001))))
(define-fun from32c ((n (_ BitVec 32)) (s (_ BitVec 16))) Bool (=> (bvsge s #x0001) (bvsge (xr32 n) (ite (bvsgt s #x00ff) #x00ff s))))
(define-fun from64c ((n (_ BitVec 64)) (s (_ BitVec 16))) Bool (=> (bvsge s #x0001) (bvsge (xr64 n) (ite (bvsgt s #x07ff) #x07ff s))))
(define-fun xmul32 ((n (_ BitVec 32)) (a (_ BitVec 32)) (b (_ BitVec 32))) Bool (let ((s (bvsub (bvadd (ex32 a) (ex32 b)) #x007f)))
  (=> (and (fin32 a) (fin32 b)) (and (not (isnan32 n)) (upto32 n (bvadd s #x0001)) (=> (and (nor32 a) (nor32 b)) (from32c n s))))))
(define-fun xmul64 ((n (_ BitVec 64)) (a (_ BitVec 64)) (b (_ BitVec 64))) Bool (let ((s (bvsub (bvadd (ex64 a) (ex64 b)) #x03ff)))
  (=> (and (fin64 a) (fin64 b)) (and (not (isnan64 n)) (upto64 n (bvadd s #x0001)) (=> (and (nor64 a) (nor64 b)) (from64c n s))))))
(define-fun xdiv32 ((n (_ BitVec 32)) (a (_ BitVec 32)) (b (_ BitVec 32))) Bool (let ((s (bvadd (bvsub (ex32 a) (ex32 b)) #x007f)))
  (=> (and (fin32 a) (fin32 b) (not (iszero32 b))) (and (not (isnan32 n)) (=> (nor32 b) (upto32 n s)) (=> (and (nor32 a) (nor32 b)) (from32c n (bvsub s #x0001)))))))
(define-fun xdiv64 ((n (_ BitVec 64)) (a (_ BitVec 64)) (b (_ BitVec 64))) Bool (let ((s (bvadd (bvsub (ex64 a) (ex64 b)) #x03ff)))
  (=> (and (fin64 a) (fin64 b) (not (iszero64 b))) (and (not (isnan64 n)) (=> (nor64 b) (upto64 n s)) (=> (and (nor64 a) (nor64 b)) (from64c n (bvsub s #x0001)))))))
(define-fun xadd32 ((n (_ BitVec 32)) (a (_ BitVec 32)) (b (_ BitVec 32)) (same Bool)) Bool (let ((m (mx16 (ex32 a) (ex32 b))))
  (=> (and (fin32 a) (fin32 b)) (and (not (isnan32 n)) (upto32 n (bvadd m #x0001)) (=> (and same (nor32 a)) (from32c n (ex32 a))) (=> (and same (nor32 b)) (from32c n (ex32 b)))
    (=> (iszero32 a) (= (bvand n #x7fffffff) (bvand b #x7fffffff))) (=> (iszero32 b) (= (bvand n #x7fffffff) (bvand a #x7fffffff)))))))
(define-fun xadd64 ((n (_ BitVec 64)) (a (_ BitVec 64)) (b (_ BitVec 64)) (same Bool)) Bool (let ((m (mx16 (ex64 a) (ex64 b))))
  (=> (and (fin64 a) (fin64 b)) (and (not (isnan64 n)) (upto64 n (bvadd m #x0001)) (=> (and same (nor64 a)) (from64c n (ex64 a))) (=> (and same (nor64 b)) (from64c n (ex64 b)))
    (=> (iszero64 a) (= (bvand n #x7fffffffffffffff) (bvand b #x7fffffffffffffff))) (=> (iszero64 b) (= (bvand n #x7fffffffffffffff) (bvand a #x7fffffffffffffff)))))))
(define-fun xsqrt32 ((n (_ BitVec 32)) (a (_ BitVec 32))) Bool (=> (and (fin32 a) (not (iszero32 a)) (not (sgn32 a))) (ite (nor32 a) (= (xr32 n) (bvlshr (bvadd (xr32 a) #x007f) #x0001))
  (and (bvuge (xr32 n) #x0034) (bvule (xr32 n) #x0040)))))
(define-fun xsqrt64 ((n (_ BitVec 64)) (a (_ BitVec 64))) Bool (=> (and (fin64 a) (not (iszero64 a)) (not (sgn64 a))) (ite (nor64 a) (= (xr64 n) (bvlshr (bvadd (xr64 a) #x03ff) #x0001))
  (and (bvuge (xr64 n) #x01e6) (bvule (xr64 n) #x0200)))))
(define-fun xf2f32_64 ((n (_ BitVec 64)) (a (_ BitVec 32))) Bool (and (= (fin32 a) (fin64 n)) (=> (nor32 a) (= (xr64 n) (bvadd (xr32 a) #x0380))) (=> (and (fin32 a) (not (nor32 a))) (bvsle (xr64 n) #x0380))))
(define-fun xf2f64_32 ((n (_ BitVec 32)) (a (_ BitVec 64))) Bool (let ((s (bvsub (ex64 a) #x0380)))
  (=> (fin64 a) (and (upto32 n (bvadd s #x0001)) (=> (nor64 a) (from32c n s))))))
`

const preludePow = `
(declare-fun fpow32 ((_ BitVec 32) (_ BitVec 32)) (_ BitVec 32))
(declare-fun fpow64 ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))
`

func (s *Solver) start() {
	args := append([]string{}, s.cmdline[1:]...)
	if strings.Contains(s.cmdline[0], "cvc5") {
		args = append(args, fmt.Sprintf("--tlimit-per=%d", s.timeout))
	}
	s.cmd = exec.Command(s.cmdline[0], args...)
	stdin, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	stdout, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver: %v", err))
	}
	s.in = bufio.NewWriterSize(stdin, 1<<16)
	s.out = bufio.NewReaderSize(stdout, 1<<16)
	s.emitted = map[int32]bool{}
	s.lemmaAt = map[int32]bool{}
	s.needBV = map[int32]bool{}
	s.lemmas = [][]int32{nil}
	s.mono = [][]int32{nil}
	s.monoT = map[int32]*Term{}
	s.stack = nil
	s.dead = false
	s.send("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.cmdline[0], "z3") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	} else {
		s.send("(set-logic ALL)\n")
	}
	s.send(prelude)
	s.send(preludePow)
	if !s.precise {
		s.send(preludeUF)
		s.send(preludeExp)
	}
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.stats.Restarts++
	s.start()
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

func bvlit(w uint8, v uint64) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func fpfmt(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func smtName(t *Term) string {
	if t.op == OpVar {
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

// ref returns the SMT expression denoting t, emitting definitions first.
func (s *Solver) ref(t *Term) string {
	if t.op == OpConst {
		return bvlit(t.w, t.val)
	}
	if s.precise && isFArith(t.op) {
		s.needBV[t.id] = true
	}
	if !s.emitted[t.id] {
		s.emit(t)
	}
	return smtName(t)
}

func isFArith(op Op) bool {
	switch op {
	case OpFAdd, OpFSub, OpFMul, OpFDiv, OpFSqrt, OpF2F, OpS2F, OpU2F, OpFFloor, OpFCeil, OpFTrunc:
		return true
	}
	return false
}

// fref returns an FP-sorted expression (precise mode).
func (s *Solver) fref(t *Term) string {
	if t.op != OpConst && isFArith(t.op) {
		if !s.emitted[t.id] {
			s.emit(t)
		}
		return "f" + strconv.Itoa(int(t.id))
	}
	if t.op == OpIte && t.fp {
		return fmt.Sprintf("(ite %s %s %s)", s.ref(t.a), s.fref(t.b), s.fref(t.c))
	}
	return fmt.Sprintf("((_ to_fp %s) %s)", fpfmt(t.w), s.ref(t))
}

func (s *Solver) emit(t *Term) {
	// emit children first (iteratively deep graphs are fine with recursion in Go)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil && x.op != OpConst && !s.emitted[x.id] {
			s.emit(x)
		}
	}
	s.emitted[t.id] = true
	if t.op == OpVar {
		s.send(fmt.Sprintf("(declare-const |%s| %s)\n", t.name, sortName(t.w)))
		return
	}
	name := smtName(t)
	var e string
	r := s.ref
	cvc := s.precise && strings.Contains(s.cmdline[0], "cvc5")
	switch t.op {
	case OpNot, OpAnd, OpOr, OpIte, OpEq, OpAdd, OpSub, OpMul, OpUDiv, OpURem, OpSDiv, OpSRem, OpBAnd, OpBOr, OpBXor,
		OpShl, OpLShr, OpAShr, OpULt, OpULe, OpSLt, OpSLe, OpConcat:
		var sb strings.Builder
		sb.WriteString("(" + opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" " + r(x))
			}
		}
		sb.WriteString(")")
		e = sb.String()
	case OpExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.val>>8, t.val&255, r(t.a))
	case OpZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, r(t.a))
	case OpSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, r(t.a))
	case OpFLt, OpFLe, OpFEq:
		if s.precise && (t.a.fp || t.b.fp) {
			n := map[Op]string{OpFLt: "fp.lt", OpFLe: "fp.leq", OpFEq: "fp.eq"}[t.op]
			e = fmt.Sprintf("(%s %s %s)", n, s.fref(t.a), s.fref(t.b))
		} else {
			n := map[Op]string{OpFLt: "fltu", OpFLe: "fleu", OpFEq: "feqt"}[t.op]
			e = fmt.Sprintf("(%s%d %s %s)", n, t.a.w, r(t.a), r(t.b))
		}
	case OpFPow:
		e = fmt.Sprintf("(fpow%d %s %s)", t.w, r(t.a), r(t.b))
	case OpF2S, OpF2U:
		n := "fp.to_sbv"
		if t.op == OpF2U {
			n = "fp.to_ubv"
		}
		e = fmt.Sprintf("((_ %s %d) RTZ %s)", n, t.w, s.fref2(t.a))
	default:
		if s.precise {
			var f string
			switch t.op {
			case OpFAdd:
				f = fmt.Sprintf("(fp.add RNE %s %s)", s.fref(t.a), s.fref(t.b))
			case OpFSub:
				f = fmt.Sprintf("(fp.sub RNE %s %s)", s.fref(t.a), s.fref(t.b))
			case OpFMul:
				f = fmt.Sprintf("(fp.mul RNE %s %s)", s.fref(t.a), s.fref(t.b))
			case OpFDiv:
				f = fmt.Sprintf("(fp.div RNE %s %s)", s.fref(t.a), s.fref(t.b))
			case OpFSqrt:
				f = fmt.Sprintf("(fp.sqrt RNE %s)", s.fref(t.a))
			case OpF2F:
				f = fmt.Sprintf("((_ to_fp %s) RNE %s)", fpfmt(t.w), s.fref(t.a))
			case OpS2F:
				f = fmt.Sprintf("((_ to_fp %s) RNE %s)", fpfmt(t.w), r(t.a))
			case OpU2F:
				f = fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpfmt(t.w), r(t.a))
			case OpFFloor:
				f = fmt.Sprintf("(fp.roundToIntegral RTN %s)", s.fref(t.a))
			case OpFCeil:
				f = fmt.Sprintf("(fp.roundToIntegral RTP %s)", s.fref(t.a))
			case OpFTrunc:
				f = fmt.Sprintf("(fp.roundToIntegral RTZ %s)", s.fref(t.a))
			default:
				panic("emit " + opNames[t.op])
			}
			s.send(fmt.Sprintf("(define-fun f%d () (_ FloatingPoint %s) %s)\n", t.id, fpfmt(t.w), f))
			if cvc {
				// no fp.to_ieee_bv: the bits are a constant defined by a lemma
				s.send(fmt.Sprintf("(declare-const %s %s)\n", name, sortName(t.w)))
				return
			}
			e = fmt.Sprintf("(fp.to_ieee_bv f%d)", t.id)
		} else {
			switch t.op {
			case OpF2F:
				e = fmt.Sprintf("(f2f%d_%d %s)", t.a.w, t.w, r(t.a))
			case OpS2F, OpU2F:
				// conversions of integers are kept precise
				n := "to_fp"
				if t.op == OpU2F {
					n = "to_fp_unsigned"
				}
				if cvc5 := strings.Contains(s.cmdline[0], "cvc5"); cvc5 {
					s.send(fmt.Sprintf("(define-fun f%d () (_ FloatingPoint %s) ((_ %s %s) RNE %s))\n(declare-const %s %s)\n", t.id, fpfmt(t.w), n, fpfmt(t.w), r(t.a), name, sortName(t.w)))
					return
				}
				e = fmt.Sprintf("(fp.to_ieee_bv ((_ %s %s) RNE %s))", n, fpfmt(t.w), r(t.a))
			default:
				if t.b != nil {
					e = fmt.Sprintf("(%s%d %s %s)", opNames[t.op], t.w, r(t.a), r(t.b))
				} else {
					e = fmt.Sprintf("(%s%d %s)", opNames[t.op], t.w, r(t.a))
				}
			}
		}
	}
	s.send(fmt.Sprintf("(define-fun %s () %s %s)\n", name, sortName(t.w), e))
}

func (s *Solver) fref2(t *Term) string {
	if s.precise {
		return s.fref(t)
	}
	return fmt.Sprintf("((_ to_fp %s) %s)", fpfmt(t.w), s.ref(t))
}

// lemma facts about uninterpreted FP applications (all are IEEE-754 facts).
func (s *Solver) lemma0(t *Term) string {
	w := t.w
	n := smtName(t)
	f := func(fs string, args ...any) string { return fmt.Sprintf(fs, args...) }
	switch t.op {
	case OpS2F, OpU2F:
		if strings.Contains(s.cmdline[0], "cvc5") {
			return f("(= ((_ to_fp %s) %s) f%d)", fpfmt(w), n, t.id)
		}
	case OpFSqrt:
		a := s.ref(t.a)
		return f("(and (= (isnan%d %s) (or (isnan%d %s) (and (sgn%d %s) (not (iszero%d %s))))) (=> (not (isnan%d %s)) (and (= (sgn%d %s) (sgn%d %s)) (= (iszero%d %s) (iszero%d %s)))))",
			w, n, w, a, w, a, w, a, w, n, w, n, w, a, w, n, w, a)
	case OpF2F:
		a := s.ref(t.a)
		wa := t.a.w
		l := f("(and (= (isnan%d %s) (isnan%d %s)) (=> (not (isnan%d %s)) (= (sgn%d %s) (sgn%d %s))) (=> (iszero%d %s) (iszero%d %s))", w, n, wa, a, w, n, w, n, wa, a, wa, a, w, n)
		if w == 64 {
			l += f(" (= (iszero%d %s) (iszero%d %s))", w, n, wa, a)
		}
		return l + ")"
	case OpFMul, OpFDiv:
		a, b := s.ref(t.a), s.ref(t.b)
		l := f("(and (=> (or (isnan%d %s) (isnan%d %s)) (isnan%d %s)) (=> (not (isnan%d %s)) (= (sgn%d %s) (xor (sgn%d %s) (sgn%d %s))))", w, a, w, b, w, n, w, n, w, n, w, a, w, b)
		if t.op == OpFMul {
			l += f(" (=> (and (or (iszero%d %s) (iszero%d %s)) (not (isnan%d %s))) (iszero%d %s))", w, a, w, b, w, n, w, n)
		} else {
			l += f(" (=> (and (iszero%d %s) (not (isnan%d %s))) (iszero%d %s))", w, a, w, n, w, n)
		}
		if t.op == OpFMul && t.a == t.b {
			l += f(" (= (isnan%d %s) (isnan%d %s)) (=> (iszero%d %s) (iszero%d %s))", w, n, w, a, w, a, w, n)
		}
		return l + ")"
	case OpFAdd:
		a, b := s.ref(t.a), s.ref(t.b)
		return f("(and (=> (or (isnan%d %s) (isnan%d %s)) (isnan%d %s)) (=> (and (not (isnan%d %s)) (not (isnan%d %s)) (= (sgn%d %s) (sgn%d %s))) (and (not (isnan%d %s)) (= (sgn%d %s) (sgn%d %s)))))",
			w, a, w, b, w, n, w, a, w, b, w, a, w, b, w, n, w, n, w, a)
	case OpFSub:
		a, b := s.ref(t.a), s.ref(t.b)
		return f("(=> (or (isnan%d %s) (isnan%d %s)) (isnan%d %s))", w, a, w, b, w, n)
	}
	return ""
}

// lemma adds facts about the exponent of the result.
func (s *Solver) lemma(t *Term) string {
	l := s.lemma0(t)
	w := t.w
	n := smtName(t)
	x := ""
	switch t.op {
	case OpFMul:
		x = fmt.Sprintf("(xmul%d %s %s %s)", w, n, s.ref(t.a), s.ref(t.b))
	case OpFDiv:
		x = fmt.Sprintf("(xdiv%d %s %s %s)", w, n, s.ref(t.a), s.ref(t.b))
	case OpFAdd, OpFSub:
		a, b := s.ref(t.a), s.ref(t.b)
		q := fmt.Sprintf("(= (sgn%d %s) (sgn%d %s))", w, a, w, b)
		if t.op == OpFSub {
			q = "(not " + q + ")"
		}
		x = fmt.Sprintf("(xadd%d %s %s %s %s)", w, n, a, b, q)
	case OpFSqrt:
		x = fmt.Sprintf("(xsqrt%d %s %s)", w, n, s.ref(t.a))
	case OpF2F:
		if t.a.w != w {
			x = fmt.Sprintf("(xf2f%d_%d %s %s)", t.a.w, w, n, s.ref(t.a))
		}
	}
	if x == "" || !s.exps {
		return l
	}
	if l == "" {
		return x
	}
	return "(and " + l + " " + x + ")"
}

func (s *Solver) addLemmas(t *Term) {
	if !t.fp || s.lemmaAt[t.id] || s.precise && !strings.Contains(s.cmdline[0], "cvc5") {
		return
	}
	s.lemmaAt[t.id] = true
	lv := len(s.lemmas) - 1
	s.lemmas[lv] = append(s.lemmas[lv], t.id)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s.addLemmas(x)
		}
	}
	if s.precise {
		if s.needBV[t.id] && isFArith(t.op) {
			n := map[uint8]string{32: "#x7fc00000", 64: "#x7ff8000000000001"}[t.w]
			s.send(fmt.Sprintf("(assert (and (= ((_ to_fp %s) %s) f%d) (=> (fp.isNaN f%d) (= %s %s))))\n", fpfmt(t.w), smtName(t), t.id, t.id, smtName(t), n))
		}
		return
	}
	s.ref(t)
	if l := s.lemma(t); l != "" {
		s.send("(assert " + l + ")\n")
	}
	if s.exps && (t.op == OpFSqrt || t.op == OpF2F && t.a.w != t.w) {
		// correctly rounded functions are monotone
		for _, m := range s.mono {
			for _, id := range m {
				if u := s.monoT[id]; u.op == t.op && u.w == t.w && u.a.w == t.a.w {
					for _, p := range [][2]*Term{{t, u}, {u, t}} {
						s.send(fmt.Sprintf("(assert (=> (fleu%d %s %s) (or (isnan%d %s) (isnan%d %s) (fleu%d %s %s))))\n", t.a.w, s.ref(p[0].a), s.ref(p[1].a),
							t.w, smtName(p[0]), t.w, smtName(p[1]), t.w, smtName(p[0]), smtName(p[1])))
					}
				}
			}
		}
		s.mono[len(s.mono)-1] = append(s.mono[len(s.mono)-1], t.id)
		s.monoT[t.id] = t
	}
}

func (s *Solver) push() {
	s.send("(push 1)\n")
	s.lemmas = append(s.lemmas, nil)
	s.mono = append(s.mono, nil)
}

func (s *Solver) pop(n int) {
	if n == 0 {
		return
	}
	s.send(fmt.Sprintf("(pop %d)\n", n))
	for i := 0; i < n; i++ {
		l := s.lemmas[len(s.lemmas)-1]
		for _, id := range l {
			delete(s.lemmaAt, id)
		}
		s.lemmas = s.lemmas[:len(s.lemmas)-1]
		s.mono = s.mono[:len(s.mono)-1]
	}
}

func (s *Solver) assert(t *Term) {
	e := s.ref(t)
	s.addLemmas(t)
	s.send("(assert " + e + ")\n")
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && s.stack[n] == pc[n] {
		n++
	}
	if n < len(s.stack) {
		s.pop(len(s.stack) - n)
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.push()
		s.assert(pc[n])
		s.stack = append(s.stack, pc[n])
	}
}

// Check decides pc /\ extra. On Sat the model assigns the given variables.
func (s *Solver) Check(pc []*Term, extra []*Term, vars []*Term) (SatResult, []uint64) {
	t0 := time.Now()
	defer func() {
		s.stats.Time += time.Since(t0)
		if dbgSlow {
			s.nq++
			s.acc += time.Since(t0)
			if s.nq%200 == 0 {
				fmt.Fprintln(os.Stderr, "SLOW", s.nq, s.acc/200)
				s.acc = 0
			}
		}
	}()
	s.stats.Queries++
	if s.dead {
		s.restart()
	}
	s.sync(pc)
	s.push()
	for _, x := range extra {
		s.assert(x)
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine()
	if err != nil {
		s.dead = true
		s.stats.Unknown++
		return Unknown, nil
	}
	var res SatResult
	switch line {
	case "sat":
		res = Sat
		s.stats.Sat++
	case "unsat":
		res = Unsat
		s.stats.Unsat++
	case "unknown", "timeout":
		res = Unknown
		s.stats.Unknown++
		if dbgSlow {
			for _, x := range pc {
				fmt.Fprintln(os.Stderr, "PC", x)
			}
			for _, x := range extra {
				fmt.Fprintln(os.Stderr, "UNKNOWN", x)
			}
		}
	default:
		if os.Getenv("SYMGO_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver:", line)
		}
		// any error line makes the answer inconclusive; resynchronise by restarting
		s.dead = true
		s.stats.Unknown++
		return Unknown, nil
	}
	var model []uint64
	if res == Sat {
		model = make([]uint64, len(s.tb.vars))
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			any := false
			for _, v := range vars {
				if s.emitted[v.id] {
					sb.WriteString(" |" + v.name + "|")
					any = true
				}
			}
			sb.WriteString("))\n")
			if any {
				s.send(sb.String())
				s.in.Flush()
				if err := s.readModel(vars, model); err != nil {
					s.dead = true
					return Unknown, nil
				}
			}
		}
	}
	s.pop(1)
	return res, model
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readModel(vars []*Term, model []uint64) error {
	// ((|a| #x00) (|b| true) ...)
	depth := 0
	var sb strings.Builder
	inq := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return err
		}
		sb.WriteByte(c)
		if c == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := sb.String()
	if strings.Contains(txt, "(error") {
		return fmt.Errorf("solver error: %s", txt)
	}
	i := 0
	for {
		j := strings.IndexByte(txt[i:], '|')
		if j < 0 {
			break
		}
		// z3 may print simple symbols without quotes, handled below
		i += j + 1
		k := strings.IndexByte(txt[i:], '|')
		if k < 0 {
			return fmt.Errorf("bad model")
		}
		name := txt[i : i+k]
		i += k + 1
		v, n, err := parseVal(txt[i:])
		if err != nil {
			return err
		}
		i += n
		t := s.tb.varBy[name]
		if t == nil {
			return fmt.Errorf("unknown var %s", name)
		}
		model[t.val] = v
	}
	return nil
}

func parseVal(s string) (uint64, int, error) {
	i := 0
	for i < len(s) && (s[i] == ' ' || s[i] == '\n') {
		i++
	}
	j := i
	for j < len(s) && s[j] != ')' && s[j] != ' ' && s[j] != '\n' {
		j++
	}
	tok := s[i:j]
	switch {
	case tok == "true":
		return 1, j, nil
	case tok == "false":
		return 0, j, nil
	case strings.HasPrefix(tok, "#x"):
		v, err := strconv.ParseUint(tok[2:], 16, 64)
		return v, j, err
	case strings.HasPrefix(tok, "#b"):
		v, err := strconv.ParseUint(tok[2:], 2, 64)
		return v, j, err
	}
	return 0, 0, fmt.Errorf("bad value %q", tok)
}

// CheckVal decides pc and returns the value of t in the model.
func (s *Solver) CheckVal(pc []*Term, t *Term, vars []*Term) (SatResult, []uint64, uint64) {
	nm := fmt.Sprintf("val:%d", t.id)
	v := s.tb.Var(nm, t.w)
	r, m := s.Check(pc, []*Term{s.tb.Eq(v, t)}, append(append([]*Term{}, vars...), v))
	if r != Sat {
		return r, nil, 0
	}
	return r, m, m[v.val]
}
