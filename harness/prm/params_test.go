package prm

import (
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

// gadgetLit draws a gadget literal; the result says whether the documented rules admit it.
func gadgetLit[T tfhe.TorusInt](t *rapid.T, name string, bad bool) (tfhe.GadgetParametersLiteral[T], bool) {
	b := tf.Bits[T]()
	lb := rapid.IntRange(1, b-1).Draw(t, name+".logBase")
	l := tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(lb), Level: rapid.IntRange(1, b/lb).Draw(t, name+".level")}
	if bad {
		switch rapid.IntRange(0, 3).Draw(t, name+".how") {
		case 0:
			l.Base = rapid.SampledFrom([]T{0, 1, 3, l.Base + 1, l.Base - 1, ^T(0)}).Draw(t, name+".base")
		case 1:
			l.Level = rapid.SampledFrom([]int{0, -1, -5, math.MinInt}).Draw(t, name+".lv")
		case 2:
			l.Level = b/lb + rapid.IntRange(1, 3).Draw(t, name+".over")
		default:
			l.Level = b/lb + rapid.IntRange(-1, 1).Draw(t, name+".near")
		}
	}
	pow2 := l.Base >= 2 && l.Base&(l.Base-1) == 0
	ok := pow2 && l.Level >= 1
	if ok {
		e := 0
		for x := l.Base; x > 1; x >>= 1 {
			e++
		}
		ok = e*l.Level <= b
	}
	return l, ok
}

// baseLit draws a literal with nBad fields out of their domain.
func baseLit[T tfhe.TorusInt](t *rapid.T, nBad int) (l tfhe.ParametersLiteral[T], valid bool) {
	bad := map[int]bool{}
	for i := 0; i < nBad; i++ {
		bad[rapid.IntRange(0, 10).Draw(t, "badField")] = true
	}
	l.GLWERank = rapid.IntRange(1, 4).Draw(t, "rank")
	l.PolyRank = 1 << uint(rapid.IntRange(4, 16).Draw(t, "logN"))
	l.BlockSize = rapid.IntRange(0, 9).Draw(t, "block")
	bs := l.BlockSize
	if bs == 0 {
		bs = 1
	}
	l.LWEDimension = bs * rapid.IntRange(1, l.GLWERank*l.PolyRank/bs).Draw(t, "blocks")
	if l.GLWERank*l.PolyRank%bs == 0 && rapid.IntRange(0, 4).Draw(t, "full") == 0 {
		l.LWEDimension = l.GLWERank * l.PolyRank
	}
	l.LUTSize = l.PolyRank * rapid.IntRange(0, 9).Draw(t, "extend")
	l.LWEStdDev = rapid.Float64Range(1e-30, 1).Draw(t, "lweStdDev")
	l.GLWEStdDev = rapid.Float64Range(1e-30, 1).Draw(t, "glweStdDev")
	l.MessageModulus = T(rapid.Uint64Range(1, math.MaxUint64>>uint(64-tf.Bits[T]())).Draw(t, "p"))
	if rapid.Bool().Draw(t, "smallP") {
		l.MessageModulus = T(rapid.IntRange(1, 1000).Draw(t, "p"))
	}
	l.BootstrapOrder = tfhe.BootstrapOrder(rapid.IntRange(0, 1).Draw(t, "order"))
	ok1, ok2 := true, true
	l.BlindRotateParams, ok1 = gadgetLit[T](t, "br", bad[9])
	l.KeySwitchParams, ok2 = gadgetLit[T](t, "ks", bad[10])
	neg := rapid.SampledFrom([]float64{0, -1e-9, -3, math.Inf(-1), math.Copysign(0, -1)}).Draw(t, "negative")
	if bad[0] {
		l.LWEDimension = rapid.SampledFrom([]int{0, -bs, l.LWEDimension + 1, l.GLWERank*l.PolyRank + bs, l.GLWERank*l.PolyRank + 1}).Draw(t, "badDim")
	}
	if bad[1] {
		l.GLWERank = rapid.SampledFrom([]int{0, -1, 1}).Draw(t, "badRank")
	}
	if bad[2] {
		l.PolyRank = rapid.SampledFrom([]int{0, -16, l.PolyRank + 1, l.PolyRank - 1, 3 * l.PolyRank, 48}).Draw(t, "badN")
	}
	if bad[3] {
		l.LUTSize = rapid.SampledFrom([]int{l.LUTSize + 1, l.PolyRank - 1, l.PolyRank / 2, -l.PolyRank, 3*l.PolyRank/2 + 1}).Draw(t, "badLUT")
	}
	if bad[4] {
		l.LWEStdDev = neg
	}
	if bad[5] {
		l.GLWEStdDev = neg
	}
	if bad[6] {
		l.BlockSize = rapid.SampledFrom([]int{-1, -2, l.LWEDimension + 1, 7, 2}).Draw(t, "badBlock")
	}
	if bad[7] {
		l.BootstrapOrder = tfhe.BootstrapOrder(rapid.SampledFrom([]int{2, -1, 255}).Draw(t, "badOrder"))
	}
	// The rules as documented on the fields.
	L, B := l.LUTSize, l.BlockSize
	if L == 0 {
		L = l.PolyRank
	}
	if B == 0 {
		B = 1
	}
	n := 0
	for x := l.PolyRank; x > 1; x >>= 1 {
		n++
	}
	valid = ok1 && ok2 && l.GLWERank >= 1 && l.PolyRank >= 1 && l.PolyRank == 1<<uint(n) &&
		l.LWEDimension >= 1 && l.LWEDimension <= l.GLWERank*l.PolyRank && B >= 1 && l.LWEDimension%B == 0 &&
		L >= l.PolyRank && L%l.PolyRank == 0 && l.LWEStdDev > 0 && l.GLWEStdDev > 0 &&
		(l.BootstrapOrder == 0 || l.BootstrapOrder == 1)
	return l, valid
}

func check[X comparable](t *rapid.T, what string, got, want X) {
	t.Helper()
	if got != want {
		t.Fatalf("%s is %v instead of %v", what, got, want)
	}
}

// normal fills the defaults a literal leaves open.
func normal[T tfhe.TorusInt](l tfhe.ParametersLiteral[T]) tfhe.ParametersLiteral[T] {
	if l.LUTSize == 0 {
		l.LUTSize = l.PolyRank
	}
	if l.BlockSize == 0 {
		l.BlockSize = 1
	}
	return l
}

func checkGadget[T tfhe.TorusInt](t *rapid.T, what string, g tfhe.GadgetParameters[T], l tfhe.GadgetParametersLiteral[T]) {
	t.Helper()
	b := tf.Bits[T]()
	lb := 0
	for x := l.Base; x > 1; x >>= 1 {
		lb++
	}
	check(t, what+".Base", g.Base(), l.Base)
	check(t, what+".Level", g.Level(), l.Level)
	check(t, what+".LogBase", g.LogBase(), lb)
	check(t, what+".Literal", g.Literal(), l)
	for i := 0; i < l.Level; i++ {
		e := b - (i+1)*lb
		check(t, fmt.Sprintf("%s.LogBaseQ(%d)", what, i), g.LogBaseQ(i), e)
		check(t, fmt.Sprintf("%s.BaseQ(%d)", what, i), g.BaseQ(i), T(1)<<uint(e))
	}
	check(t, what+".FirstBaseQ", g.FirstBaseQ(), T(1)<<uint(b-lb))
	check(t, what+".LogFirstBaseQ", g.LogFirstBaseQ(), b-lb)
	check(t, what+".LastBaseQ", g.LastBaseQ(), T(1)<<uint(b-l.Level*lb))
	check(t, what+".LogLastBaseQ", g.LogLastBaseQ(), b-l.Level*lb)
}

// scale is Q/2p rounded to the nearest.
func scale[T tfhe.TorusInt](p T) (lo, hi T) {
	half := uint64(1) << uint(tf.Bits[T]()-1)
	q, r := half/uint64(p), half%uint64(p)
	switch {
	case r > uint64(p)-r:
		return T(q + 1), T(q + 1)
	case r == uint64(p)-r:
		return T(q), T(q + 1)
	}
	return T(q), T(q)
}

func checkParams[T tfhe.TorusInt](t *rapid.T, p tfhe.Parameters[T], l0 tfhe.ParametersLiteral[T]) {
	t.Helper()
	l := normal(l0)
	q := tf.Q[T]()
	check(t, "LWEDimension", p.LWEDimension(), l.LWEDimension)
	check(t, "GLWERank", p.GLWERank(), l.GLWERank)
	check(t, "PolyRank", p.PolyRank(), l.PolyRank)
	check(t, "GLWEDimension", p.GLWEDimension(), l.GLWERank*l.PolyRank)
	check(t, "2^LogPolyRank", 1<<uint(p.LogPolyRank()), l.PolyRank)
	check(t, "LUTSize", p.LUTSize(), l.LUTSize)
	check(t, "LUTExtendFactor", p.LUTExtendFactor(), l.LUTSize/l.PolyRank)
	check(t, "LWEStdDev", p.LWEStdDev(), l.LWEStdDev)
	check(t, "GLWEStdDev", p.GLWEStdDev(), l.GLWEStdDev)
	check(t, "LWEStdDevQ", p.LWEStdDevQ(), l.LWEStdDev*q)
	check(t, "GLWEStdDevQ", p.GLWEStdDevQ(), l.GLWEStdDev*q)
	check(t, "BlockSize", p.BlockSize(), l.BlockSize)
	check(t, "BlockCount", p.BlockCount(), l.LWEDimension/l.BlockSize)
	check(t, "MessageModulus", p.MessageModulus(), l.MessageModulus)
	lo, hi := scale(l.MessageModulus)
	if s := p.Scale(); s != lo && s != hi {
		t.Fatalf("Scale is %d instead of %d for modulus %d", s, lo, l.MessageModulus)
	}
	check(t, "LogQ", p.LogQ(), tf.Bits[T]())
	check(t, "BootstrapOrder", p.BootstrapOrder(), l.BootstrapOrder)
	ks := l.BootstrapOrder == tfhe.OrderKeySwitchBlindRotate
	check(t, "IsPublicKeyEncryptable", p.IsPublicKeyEncryptable(), ks)
	if ks {
		check(t, "DefaultLWEDimension", p.DefaultLWEDimension(), l.GLWERank*l.PolyRank)
		check(t, "DefaultLWEStdDev", p.DefaultLWEStdDev(), l.GLWEStdDev)
		check(t, "DefaultLWEStdDevQ", p.DefaultLWEStdDevQ(), l.GLWEStdDev*q)
		check(t, "order name", l.BootstrapOrder.String(), "OrderKeySwitchBlindRotate")
	} else {
		check(t, "DefaultLWEDimension", p.DefaultLWEDimension(), l.LWEDimension)
		check(t, "DefaultLWEStdDev", p.DefaultLWEStdDev(), l.LWEStdDev)
		check(t, "DefaultLWEStdDevQ", p.DefaultLWEStdDevQ(), l.LWEStdDev*q)
		check(t, "order name", l.BootstrapOrder.String(), "OrderBlindRotateKeySwitch")
	}
	checkGadget(t, "BlindRotateParams", p.BlindRotateParams(), l.BlindRotateParams)
	checkGadget(t, "KeySwitchParams", p.KeySwitchParams(), l.KeySwitchParams)
	check(t, "Literal", p.Literal(), l)
	check(t, "Literal().Compile()", p.Literal().Compile(), p)
	m, err := p.MarshalBinary()
	var back tfhe.Parameters[T]
	if err != nil || back.UnmarshalBinary(m) != nil || back != p {
		t.Fatalf("parameters do not survive serialization: %v", p.Literal())
	}
}

// compile runs a Compile and checks that it panics exactly when it should.
func compile[P any](t *rapid.T, what string, valid bool, lit fmt.Stringer, f func() P) (p P, ok bool) {
	t.Helper()
	if vh.Panics(func() { p = f() }) {
		if valid {
			t.Fatalf("%s: Compile panics on valid parameters %v", what, lit)
		}
		return p, false
	}
	if !valid {
		t.Fatalf("%s: Compile accepts invalid parameters %v", what, lit)
	}
	return p, true
}

type str struct{ v any }

func (s str) String() string { return fmt.Sprintf("%+v", s.v) }

// setters checks every WithX method of a literal: it returns the literal with field
// X replaced and nothing else changed.
func setters(t *rapid.T, lit reflect.Value, other reflect.Value) int {
	t.Helper()
	n := 0
	typ := lit.Type()
	for i := 0; i < typ.NumMethod(); i++ {
		name := typ.Method(i).Name
		if len(name) < 5 || name[:4] != "With" {
			continue
		}
		field := name[4:]
		path := []string{field}
		if !lit.FieldByName(field).IsValid() {
			path = []string{"SubParams", map[string]string{"SingleKeyLWEDimension": "LWEDimension"}[field]}
			if path[1] == "" {
				path[1] = field
			}
		}
		want := reflect.New(typ).Elem()
		want.Set(lit)
		dst, src := want, other
		for _, f := range path {
			dst, src = dst.FieldByName(f), src.FieldByName(f)
		}
		if !dst.IsValid() {
			t.Fatalf("%s.%s sets no known field", typ, name)
		}
		dst.Set(src)
		before := lit.Interface()
		got := lit.Method(i).Call([]reflect.Value{src})[0]
		if got.Interface() != want.Interface() {
			t.Fatalf("%s.%s(%v) gives %+v instead of %+v", typ, name, src, got, want)
		}
		if lit.Interface() != before {
			t.Fatalf("%s.%s changes its receiver", typ, name)
		}
		n++
	}
	return n
}

func TestParams(t *testing.T) {
	vh.Check(t, "a case compiles a literal with up to three fields outside their documented domain and checks rejection, or every accessor, setter and the literal of the compiled parameters; non-trivial = rejected, or a non-default order, block size, table size or modulus", 20000, 400000, func(t *rapid.T) {
		both(t, paramsCase[uint32], paramsCase[uint64])
	})
}

func paramsCase[T tfhe.TorusInt](t *rapid.T) {
	nBad := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(t, "violations")
	l, valid := baseLit[T](t, nBad)
	o, _ := baseLit[T](t, 2)
	p, ok := compile(t, "tfhe", valid, str{l}, l.Compile)
	if ok {
		checkParams(t, p, l)
	}
	setters(t, reflect.ValueOf(l), reflect.ValueOf(o))
	g, gok := gadgetLit[T](t, "gadget", rapid.Bool().Draw(t, "badGadget"))
	h, _ := gadgetLit[T](t, "gadget2", true)
	if gp, ok := compile(t, "gadget", gok, str{g}, g.Compile); ok {
		checkGadget(t, "gadget", gp, g)
	}
	setters(t, reflect.ValueOf(g), reflect.ValueOf(h))
	vh.Label("valid=%v", valid)

	switch rapid.IntRange(0, 4).Draw(t, "scheme") {
	case 0:
		mkCase(t, l, valid)
	case 1:
		fhewCase(t, l, valid)
	case 2:
		manyCase(t, l, valid)
	case 3:
		sanCase(t, l, valid)
	case 4:
		cbsCase(t, l, valid)
	}
	vh.Case(!valid || l.BlockSize > 1 || l.LUTSize > l.PolyRank || l.BootstrapOrder == 1, "%+v", l)
}

func mkCase[T tfhe.TorusInt](t *rapid.T, sub tfhe.ParametersLiteral[T], valid bool) {
	var l mktfhe.ParametersLiteral[T]
	if rapid.IntRange(0, 3).Draw(t, "mkShape") > 0 {
		// Restrict the single-key part to what multi-key parameters admit.
		sub.LUTSize = 0
		if sub.GLWERank > 1 && sub.LWEDimension <= sub.PolyRank {
			sub.GLWERank = 1
		}
	}
	l.SubParams = sub
	l.PartyCount = rapid.IntRange(1, 40).Draw(t, "parties")
	bad := rapid.IntRange(0, 5).Draw(t, "mkBad")
	if bad == 0 {
		l.PartyCount = rapid.IntRange(-3, 1).Draw(t, "badParties")
	}
	var ok1, ok2 bool
	l.AccumulatorParams, ok1 = gadgetLit[T](t, "acc", bad == 1)
	l.RelinKeyParams, ok2 = gadgetLit[T](t, "relin", bad == 2)
	subOK := !vh.Panics(func() { sub.Compile() })
	n := normal(sub)
	ok := subOK && ok1 && ok2 && l.PartyCount >= 1 && sub.GLWERank == 1 && n.LUTSize == n.PolyRank
	vh.Label("mk valid=%v", ok)
	o := l
	o.SubParams, _ = baseLit[T](t, 1)
	o.PartyCount++
	o.AccumulatorParams.Level++
	o.RelinKeyParams.Base++
	setters(t, reflect.ValueOf(l), reflect.ValueOf(o))
	p, ok := compile(t, "mktfhe", ok, str{l}, l.Compile)
	if !ok {
		return
	}
	s := p.SubParams()
	checkParams(t, s, sub)
	k := l.PartyCount
	check(t, "PartyCount", p.PartyCount(), k)
	check(t, "mk DefaultLWEDimension", p.DefaultLWEDimension(), k*s.DefaultLWEDimension())
	check(t, "mk LWEDimension", p.LWEDimension(), k*s.LWEDimension())
	check(t, "mk GLWERank", p.GLWERank(), k)
	check(t, "mk GLWEDimension", p.GLWEDimension(), k*s.PolyRank())
	check(t, "mk PolyRank", p.PolyRank(), s.PolyRank())
	check(t, "mk LogPolyRank", p.LogPolyRank(), s.LogPolyRank())
	check(t, "mk DefaultLWEStdDev", p.DefaultLWEStdDev(), s.DefaultLWEStdDev())
	check(t, "mk DefaultLWEStdDevQ", p.DefaultLWEStdDevQ(), s.DefaultLWEStdDevQ())
	check(t, "mk LWEStdDev", p.LWEStdDev(), s.LWEStdDev())
	check(t, "mk LWEStdDevQ", p.LWEStdDevQ(), s.LWEStdDevQ())
	check(t, "mk GLWEStdDev", p.GLWEStdDev(), s.GLWEStdDev())
	check(t, "mk GLWEStdDevQ", p.GLWEStdDevQ(), s.GLWEStdDevQ())
	check(t, "mk BlockSize", p.BlockSize(), s.BlockSize())
	check(t, "mk BlockCount", p.BlockCount(), s.BlockCount())
	check(t, "mk Scale", p.Scale(), s.Scale())
	check(t, "mk MessageModulus", p.MessageModulus(), s.MessageModulus())
	check(t, "mk LogQ", p.LogQ(), s.LogQ())
	check(t, "mk BlindRotateParams", p.BlindRotateParams(), s.BlindRotateParams())
	check(t, "mk KeySwitchParams", p.KeySwitchParams(), s.KeySwitchParams())
	checkGadget(t, "AccumulatorParameters", p.AccumulatorParameters(), l.AccumulatorParams)
	checkGadget(t, "RelinKeyParameters", p.RelinKeyParameters(), l.RelinKeyParams)
	check(t, "mk BootstrapOrder", p.BootstrapOrder(), s.BootstrapOrder())
	w := l
	w.SubParams = n
	check(t, "mk Literal", p.Literal(), w)
	check(t, "mk Literal().Compile()", p.Literal().Compile(), p)
}

func fhewCase[T tfhe.TorusInt](t *rapid.T, base tfhe.ParametersLiteral[T], _ bool) {
	if rapid.IntRange(0, 3).Draw(t, "fhewShape") > 0 {
		base.LUTSize, base.BlockSize = 0, rapid.IntRange(0, 1).Draw(t, "fhewBlock")
	}
	lg := rapid.Float64Range(-3, 4.3).Draw(t, "logStdDev")
	l := xtfhe.FHEWParametersLiteral[T]{BaseParams: base, SecretKeyStdDev: math.Exp2(lg) / tf.Q[T](), WindowSize: rapid.IntRange(1, 20).Draw(t, "window")}
	bad := true
	switch rapid.IntRange(0, 8).Draw(t, "fhewBad") {
	case 0:
		l.SecretKeyStdDev = rapid.SampledFrom([]float64{0, -1, -l.SecretKeyStdDev}).Draw(t, "badStdDev")
	case 1:
		l.SecretKeyStdDev = math.Exp2(rapid.Float64Range(5.01, 20).Draw(t, "bigStdDev")) / tf.Q[T]()
	case 2:
		l.WindowSize = rapid.IntRange(-2, 0).Draw(t, "badWindow")
	default:
		bad = false
	}
	n := normal(base)
	ok := !vh.Panics(func() { base.Compile() }) && !bad && n.BlockSize == 1 && n.LUTSize == n.PolyRank
	vh.Label("fhew valid=%v", ok)
	p, ok := compile(t, "FHEW", ok, str{l}, l.Compile)
	if !ok {
		return
	}
	checkParams(t, p.BaseParams(), base)
	check(t, "SecretKeyStdDev", p.SecretKeyStdDev(), l.SecretKeyStdDev)
	check(t, "SecretKeyStdDevQ", p.SecretKeyStdDevQ(), l.SecretKeyStdDev*tf.Q[T]())
	check(t, "WindowSize", p.WindowSize(), l.WindowSize)
}

func manyLit[T tfhe.TorusInt](t *rapid.T, base tfhe.ParametersLiteral[T]) (xtfhe.ManyLUTParametersLiteral[T], bool) {
	if rapid.IntRange(0, 3).Draw(t, "manyShape") > 0 {
		base.LUTSize = 0
	}
	l := xtfhe.ManyLUTParametersLiteral[T]{BaseParams: base, LUTCount: 1 << uint(rapid.IntRange(0, 4).Draw(t, "logCount"))}
	bad := rapid.IntRange(0, 4).Draw(t, "manyBad") == 0
	if bad {
		l.LUTCount = rapid.SampledFrom([]int{0, -1, -2, 3, 6, 12}).Draw(t, "badCount")
	}
	n := normal(base)
	return l, !vh.Panics(func() { base.Compile() }) && !bad && n.LUTSize == n.PolyRank
}

func checkMany[T tfhe.TorusInt](t *rapid.T, p xtfhe.ManyLUTParameters[T], l xtfhe.ManyLUTParametersLiteral[T]) {
	t.Helper()
	checkParams(t, p.BaseParams(), l.BaseParams)
	check(t, "LUTCount", p.LUTCount(), l.LUTCount)
	check(t, "2^LogLUTCount", 1<<uint(p.LogLUTCount()), l.LUTCount)
}

func manyCase[T tfhe.TorusInt](t *rapid.T, base tfhe.ParametersLiteral[T], _ bool) {
	l, ok := manyLit(t, base)
	vh.Label("manylut valid=%v", ok)
	if p, ok := compile(t, "ManyLUT", ok, str{l}, l.Compile); ok {
		checkMany(t, p, l)
	}
}

func cbsCase[T tfhe.TorusInt](t *rapid.T, base tfhe.ParametersLiteral[T], _ bool) {
	m, ok := manyLit(t, base)
	bad := rapid.IntRange(0, 7).Draw(t, "cbsBad")
	s, ok1 := gadgetLit[T](t, "schemeSwitch", bad == 0)
	tr, ok2 := gadgetLit[T](t, "trace", bad == 1)
	out, ok3 := gadgetLit[T](t, "output", bad == 2)
	l := xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: m, SchemeSwitchParams: s, TraceKeySwitchParams: tr, OutputParams: out}
	ok = ok && ok1 && ok2 && ok3
	vh.Label("cbs valid=%v", ok)
	if p, ok := compile(t, "CircuitBootstrap", ok, str{l}, l.Compile); ok {
		checkMany(t, p.ManyLUTParams(), m)
		check(t, "BaseParams", p.BaseParams(), p.ManyLUTParams().BaseParams())
		checkGadget(t, "SchemeSwitchParams", p.SchemeSwitchParams(), s)
		checkGadget(t, "TraceKeySwitchParams", p.TraceKeySwitchParams(), tr)
		checkGadget(t, "OutputParams", p.OutputParams(), out)
	}
}

func sanCase[T tfhe.TorusInt](t *rapid.T, base tfhe.ParametersLiteral[T], _ bool) {
	if rapid.IntRange(0, 3).Draw(t, "sanShape") > 0 {
		base.LUTSize = 0
		base.BootstrapOrder = 0
		if base.GLWERank > 1 && base.LWEDimension <= base.PolyRank {
			base.GLWERank = 1
		}
	}
	var v [4]float64
	bad := false
	for i := range v {
		v[i] = rapid.Float64Range(1e-30, 0.1).Draw(t, "sigma")
	}
	if rapid.IntRange(0, 2).Draw(t, "sanBad") == 0 {
		bad = true
		v[rapid.IntRange(0, 3).Draw(t, "which")] = rapid.SampledFrom([]float64{0, -1e-12, -2}).Draw(t, "badSigma")
	}
	l := xtfhe.SanitizationParametersLiteral[T]{BaseParams: base, RandSigma: v[0], RandTau: v[1], LinEvalSigma: v[2], LinEvalTau: v[3]}
	n := normal(base)
	ok := !vh.Panics(func() { base.Compile() }) && !bad && n.GLWERank == 1 && n.LUTSize == n.PolyRank && n.BootstrapOrder == tfhe.OrderKeySwitchBlindRotate
	vh.Label("sanitize valid=%v", ok)
	p, ok := compile(t, "Sanitization", ok, str{l}, l.Compile)
	if !ok {
		return
	}
	checkParams(t, p.BaseParams(), base)
	q := tf.Q[T]()
	got := [8]float64{p.RandSigma(), p.RandTau(), p.LinEvalSigma(), p.LinEvalTau(), p.RandSigmaQ(), p.RandTauQ(), p.LinEvalSigmaQ(), p.LinEvalTauQ()}
	check(t, "sanitization deviations", got, [8]float64{v[0], v[1], v[2], v[3], v[0] * q, v[1] * q, v[2] * q, v[3] * q})
}
