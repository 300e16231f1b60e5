package main

// Symbolic expressions: hash-consed bit-vector / boolean terms, with constant folding, concrete
// evaluation under a model, and printing as SMT-LIB 2.

import (
	"fmt"
	"math"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // bit vector constant (w>0) or boolean constant (w==0, val 0/1)
	OVar
	ONot // boolean
	OAnd
	OOr
	OEq // on bit vectors or booleans
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OBand
	OBor
	OBxor
	OBnot
	ONeg
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OTrunc
	OIte
	OTable // table[a], table entries of width w; index out of range yields 0
	OFeq   // floating point equality of two bit patterns
	OFlt
	OFle
	OS2F // signed integer to floating point
	OF2S // floating point to signed integer of 64 bits, truncating
	OF2F // floating point to floating point of other size
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt",
	OSle: "bvsle", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OSdiv: "bvsdiv",
	OUrem: "bvurem", OSrem: "bvsrem", OBand: "bvand", OBor: "bvor", OBxor: "bvxor",
	OBnot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OIte: "ite",
	OFeq: "fp.eq", OFlt: "fp.lt", OFle: "fp.leq",
}

// Expr is a node of the term DAG. Width zero means boolean.
type Expr struct {
	op      Op
	w       uint8
	a, b, c *Expr
	val     uint64
	name    string
	tab     []uint64
	id      int

	// evaluation cache
	evEpoch int
	evVal   uint64

	// printing cache
	prEpoch int
}

type exprKey struct {
	op      Op
	w       uint8
	a, b, c int
	val     uint64
	name    string
}

// Ctx is the per worker term arena.
type Ctx struct {
	tab   map[exprKey]*Expr
	next  int
	tTrue *Expr
	tFals *Expr
	vars  map[int]*Expr
}

func NewCtx() *Ctx {
	c := &Ctx{}
	c.Reset()
	return c
}

// Reset drops all the terms.
func (c *Ctx) Reset() {
	c.tab = map[exprKey]*Expr{}
	c.vars = map[int]*Expr{}
	c.tTrue = c.mk(Expr{op: OConst, w: 0, val: 1})
	c.tFals = c.mk(Expr{op: OConst, w: 0, val: 0})
}

func eid(e *Expr) int {
	if e == nil {
		return -1
	}
	return e.id
}

func (c *Ctx) mk(e Expr) *Expr {
	k := exprKey{e.op, e.w, eid(e.a), eid(e.b), eid(e.c), e.val, e.name}
	if e.tab != nil {
		var sb strings.Builder
		for _, v := range e.tab {
			fmt.Fprintf(&sb, "%x,", v)
		}
		k.name = sb.String()
	}
	if r, ok := c.tab[k]; ok {
		return r
	}
	n := new(Expr)
	*n = e
	c.next++
	n.id = c.next
	c.tab[k] = n
	return n
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return math.MaxUint64
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.tTrue
	}
	return c.tFals
}

func (c *Ctx) Const(v uint64, w uint8) *Expr {
	return c.mk(Expr{op: OConst, w: w, val: v & mask(w)})
}

func (c *Ctx) Var(name string, w uint8) *Expr {
	e := c.mk(Expr{op: OVar, w: w, name: name})
	c.vars[e.id] = e
	return e
}

func (e *Expr) isConst() bool { return e.op == OConst }
func (e *Expr) isTrue() bool  { return e.op == OConst && e.w == 0 && e.val == 1 }
func (e *Expr) isFalse() bool { return e.op == OConst && e.w == 0 && e.val == 0 }

func (c *Ctx) Not(a *Expr) *Expr {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(Expr{op: ONot, a: a})
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a.isFalse() || b.isFalse() {
		return c.tFals
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return c.tFals
	}
	return c.mk(Expr{op: OAnd, a: a, b: b})
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a.isTrue() || b.isTrue() {
		return c.tTrue
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return c.tTrue
	}
	return c.mk(Expr{op: OOr, a: a, b: b})
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.tTrue
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			if b.val > mask(a.a.w) {
				return c.tFals
			}
			return c.Eq(a.a, c.Const(b.val, a.a.w))
		case OIte:
			if a.b.isConst() && a.c.isConst() {
				x, y := a.b.val == b.val, a.c.val == b.val
				switch {
				case x && y:
					return c.tTrue
				case x:
					return a.a
				case y:
					return c.Not(a.a)
				default:
					return c.tFals
				}
			}
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	return c.mk(Expr{op: OEq, a: a, b: b})
}

func (c *Ctx) Ite(k, a, b *Expr) *Expr {
	if k.isTrue() {
		return a
	}
	if k.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return k
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(k)
		}
	}
	return c.mk(Expr{op: OIte, w: a.w, a: k, b: a, c: b})
}

// Cmp builds a comparison.
func (c *Ctx) Cmp(op Op, a, b *Expr) *Expr {
	if a.isConst() && b.isConst() {
		return c.Bool(evalOp(op, 0, a.w, a.val, b.val, 0, nil) != 0)
	}
	switch {
	case op == OUle && b.isConst() && b.val == mask(b.w):
		return c.tTrue
	case op == OUle && a.isConst() && a.val == 0:
		return c.tTrue
	case op == OUlt && b.isConst() && b.val == 0:
		return c.tFals
	case op == OUlt && a.isConst() && a.val == mask(a.w):
		return c.tFals
	}
	if op == OUlt && a == b || op == OSlt && a == b {
		return c.tFals
	}
	if op == OUle && a == b || op == OSle && a == b {
		return c.tTrue
	}
	// Signed comparisons of zero extended values against non negative constants reduce to
	// narrower unsigned ones:
	if (op == OSlt || op == OSle || op == OUlt || op == OUle) && a.op == OZext && b.isConst() {
		n := a.a.w
		if sext(b.val, a.w) >= 0 || op == OUlt || op == OUle {
			uop := OUlt
			if op == OSle || op == OUle {
				uop = OUle
			}
			if b.val > mask(n) {
				return c.tTrue
			}
			return c.Cmp(uop, a.a, c.Const(b.val, n))
		}
		return c.tFals
	}
	if (op == OSlt || op == OSle || op == OUlt || op == OUle) && b.op == OZext && a.isConst() {
		n := b.a.w
		if sext(a.val, b.w) >= 0 || op == OUlt || op == OUle {
			uop := OUlt
			if op == OSle || op == OUle {
				uop = OUle
			}
			if a.val > mask(n) {
				return c.tFals
			}
			return c.Cmp(uop, c.Const(a.val, n), b.a)
		}
		return c.tTrue
	}
	return c.mk(Expr{op: op, a: a, b: b})
}

// Bin builds a bit vector operation.
func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Const(evalOp(op, w, w, a.val, b.val, 0, nil), w)
	}
	switch op {
	case OAdd, OBor, OBxor:
		if a.isConst() && a.val == 0 {
			return b
		}
		if b.isConst() && b.val == 0 {
			return a
		}
	case OSub, OShl, OLshr, OAshr:
		if b.isConst() && b.val == 0 {
			return a
		}
	case OBand:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return b
		}
		if b.isConst() && b.val == mask(w) {
			return a
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 0 {
			return b
		}
		if b.isConst() && b.val == 1 {
			return a
		}
	}
	// Push constant operations into small tables:
	if a.op == OTable && b.isConst() {
		nt := make([]uint64, len(a.tab))
		for i, v := range a.tab {
			nt[i] = evalOp(op, w, w, v, b.val, 0, nil) & mask(w)
		}
		return c.Table(nt, a.a, w)
	}
	return c.mk(Expr{op: op, w: w, a: a, b: b})
}

func (c *Ctx) Un(op Op, a *Expr) *Expr {
	if a.isConst() {
		return c.Const(evalOp(op, a.w, a.w, a.val, 0, 0, nil), a.w)
	}
	return c.mk(Expr{op: op, w: a.w, a: a})
}

// Resize changes the width.
func (c *Ctx) Resize(a *Expr, w uint8, signed bool) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if w > a.w && signed {
			return c.Const(uint64(sext(a.val, a.w)), w)
		}
		return c.Const(a.val, w)
	}
	if w > a.w {
		if a.op == OZext {
			return c.Resize(a.a, w, false)
		}
		op := OZext
		if signed {
			op = OSext
		}
		return c.mk(Expr{op: op, w: w, a: a})
	}
	if (a.op == OZext || a.op == OSext) && a.a.w >= w {
		return c.Resize(a.a, w, false)
	}
	if a.op == OZext {
		return c.Resize(a.a, w, false)
	}
	return c.mk(Expr{op: OTrunc, w: w, a: a})
}

// Table builds a constant table lookup.
func (c *Ctx) Table(tab []uint64, idx *Expr, w uint8) *Expr {
	if idx.isConst() {
		if idx.val < uint64(len(tab)) {
			return c.Const(tab[idx.val], w)
		}
		return c.Const(0, w)
	}
	for idx.op == OZext {
		idx = idx.a
	}
	n := uint64(len(tab))
	if m := mask(idx.w); idx.w < 64 && n > m+1 {
		n = m + 1
	}
	return c.mk(Expr{op: OTable, w: w, a: idx, tab: tab[:n]})
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// evalOp evaluates an operation; w is the result width and aw the width of the operands.
func evalOp(op Op, w, aw uint8, a, b, k uint64, tab []uint64) uint64 {
	switch op {
	case ONot:
		return 1 - a
	case OAnd:
		return a & b
	case OOr:
		return a | b
	case OEq:
		return b2u(a == b)
	case OUlt:
		return b2u(a < b)
	case OUle:
		return b2u(a <= b)
	case OSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case OSle:
		return b2u(sext(a, aw) <= sext(b, aw))
	case OAdd:
		return (a + b) & mask(w)
	case OSub:
		return (a - b) & mask(w)
	case OMul:
		return (a * b) & mask(w)
	case OUdiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OSdiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(w)
		}
		if y == -1 {
			return uint64(-x) & mask(w)
		}
		return uint64(x/y) & mask(w)
	case OSrem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & mask(w)
	case OBand:
		return a & b
	case OBor:
		return a | b
	case OBxor:
		return a ^ b
	case OBnot:
		return ^a & mask(w)
	case ONeg:
		return -a & mask(w)
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & mask(w)
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & mask(w)
	case OZext:
		return a
	case OSext:
		return uint64(sext(a, aw)) & mask(w)
	case OTrunc:
		return a & mask(w)
	case OTable:
		if a < uint64(len(tab)) {
			return tab[a]
		}
		return 0
	case OFeq, OFlt, OFle:
		var x, y float64
		if aw == 32 {
			x, y = float64(math.Float32frombits(uint32(a))), float64(math.Float32frombits(uint32(b)))
		} else {
			x, y = math.Float64frombits(a), math.Float64frombits(b)
		}
		switch op {
		case OFeq:
			return b2u(x == y)
		case OFlt:
			return b2u(x < y)
		}
		return b2u(x <= y)
	case OS2F:
		f := float64(int64(a))
		if w == 32 {
			return uint64(math.Float32bits(float32(int64(a))))
		}
		return math.Float64bits(f)
	case OF2S:
		f := math.Float64frombits(a)
		if aw == 32 {
			f = float64(math.Float32frombits(uint32(a)))
		}
		if f >= -9223372036854775808.0 && f < 9223372036854775808.0 {
			return uint64(int64(f))
		}
		return 1 << 63
	case OF2F:
		if w == 32 {
			return uint64(math.Float32bits(float32(math.Float64frombits(a))))
		}
		return math.Float64bits(float64(math.Float32frombits(uint32(a))))
	}
	panic(fmt.Sprintf("evalOp %d", op))
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// Conv creates a conversion between integers and floating point numbers.
func (c *Ctx) Conv(op Op, a *Expr, w uint8) *Expr {
	if op == OF2F && a.w == w {
		return a
	}
	if op == OS2F && a.w < 64 {
		a = c.Resize(a, 64, true)
	}
	if a.isConst() {
		return c.Const(evalOp(op, w, a.w, a.val, 0, 0, nil), w)
	}
	return c.mk(Expr{op: op, w: w, a: a})
}

// Model is an assignment of values to variables; variables not mentioned are zero.
type Model struct {
	vals  map[string]uint64
	epoch int
}

var evalEpochs int64

// Eval evaluates the term under a model.
func (e *Expr) Eval(m *Model) uint64 {
	if e.op == OConst {
		return e.val
	}
	if e.evEpoch == m.epoch {
		return e.evVal
	}
	var r uint64
	switch e.op {
	case OVar:
		r = m.vals[e.name]
	case OIte:
		if e.a.Eval(m) != 0 {
			r = e.b.Eval(m)
		} else {
			r = e.c.Eval(m)
		}
	case OAnd:
		r = e.a.Eval(m)
		if r != 0 {
			r = e.b.Eval(m)
		}
	case OOr:
		r = e.a.Eval(m)
		if r == 0 {
			r = e.b.Eval(m)
		}
	default:
		var x, y uint64
		x = e.a.Eval(m)
		if e.b != nil {
			y = e.b.Eval(m)
		}
		r = evalOp(e.op, e.w, e.a.w, x, y, 0, e.tab)
	}
	e.evEpoch = m.epoch
	e.evVal = r
	return r
}

func smtConst(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func smtSort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// smtRef is how a node is mentioned once defined.
func smtRef(e *Expr) string {
	switch e.op {
	case OConst:
		return smtConst(e.val, e.w)
	case OVar:
		return "|" + e.name + "|"
	}
	return fmt.Sprintf("t%d", e.id)
}

func smtTable(sb *strings.Builder, tab []uint64, lo, hi int, idx *Expr, w uint8) {
	same := true
	for i := lo + 1; i < hi; i++ {
		if tab[i] != tab[lo] {
			same = false
			break
		}
	}
	if same {
		sb.WriteString(smtConst(tab[lo], w))
		return
	}
	mid := (lo + hi) / 2
	fmt.Fprintf(sb, "(ite (bvult %s %s) ", smtRef(idx), smtConst(uint64(mid), idx.w))
	smtTable(sb, tab, lo, mid, idx, w)
	sb.WriteByte(' ')
	smtTable(sb, tab, mid, hi, idx, w)
	sb.WriteByte(')')
}

// smtBody prints the node in terms of references to its children.
func smtBody(e *Expr) string {
	switch e.op {
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, smtRef(e.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, smtRef(e.a))
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, smtRef(e.a))
	case OTable:
		var sb strings.Builder
		n := len(e.tab)
		full := e.a.w < 64 && uint64(n) == mask(e.a.w)+1
		if !full {
			fmt.Fprintf(&sb, "(ite (bvult %s %s) ", smtRef(e.a), smtConst(uint64(n), e.a.w))
		}
		smtTable(&sb, e.tab, 0, n, e.a, e.w)
		if !full {
			fmt.Fprintf(&sb, " %s)", smtConst(0, e.w))
		}
		return sb.String()
	case OFeq, OFlt, OFle:
		s := "11 53"
		if e.a.w == 32 {
			s = "8 24"
		}
		return fmt.Sprintf("(%s ((_ to_fp %s) %s) ((_ to_fp %s) %s))", opNames[e.op],
			s, smtRef(e.a), s, smtRef(e.b))
	}
	switch e.op {
	case OS2F:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(e.w), smtRef(e.a))
	case OF2F:
		return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE ((_ to_fp %s) %s)))", fpSort(e.w), fpSort(e.a.w), smtRef(e.a))
	case OF2S:
		x := fmt.Sprintf("((_ to_fp %s) %s)", fpSort(e.a.w), smtRef(e.a))
		lo := fmt.Sprintf("((_ to_fp %s) RNE #x8000000000000000)", fpSort(e.a.w))
		return fmt.Sprintf("(ite (and (fp.leq %s %s) (fp.lt %s (fp.neg %s))) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", lo, x, x, lo, x)
	}
	out := "(" + opNames[e.op]
	for _, x := range []*Expr{e.a, e.b, e.c} {
		if x != nil {
			out += " " + smtRef(x)
		}
	}
	return out + ")"
}
