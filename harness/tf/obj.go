package tf

import (
	"bytes"
	"encoding"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"

	"github.com/sp301415/tfhe-go/tfhe"
	"pgregory.net/rapid"

	"verifharness/vh"
)

// Leaf is one scalar of an object.
type Leaf struct {
	Path string
	Bits uint64
	V    reflect.Value
}

// Leaves lists every scalar reachable from v (a pointer) in order, unexported
// fields included. skip names fields to leave out.
func Leaves(v any, skip ...string) []Leaf {
	var out []Leaf
	var walk func(path string, v reflect.Value)
	walk = func(path string, v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				walk(path, v.Elem())
			}
		case reflect.Struct:
		next:
			for i := 0; i < v.NumField(); i++ {
				name := v.Type().Field(i).Name
				for _, s := range skip {
					if s == name {
						continue next
					}
				}
				walk(path+"."+name, v.Field(i))
			}
		case reflect.Slice, reflect.Array:
			// The length counts as well, so that objects of other shapes differ.
			out = append(out, Leaf{path + ".len", uint64(v.Len()), reflect.Value{}})
			for i := 0; i < v.Len(); i++ {
				e := v.Index(i)
				switch e.Kind() {
				case reflect.Struct, reflect.Slice, reflect.Array, reflect.Pointer:
					walk(fmt.Sprintf("%s[%d]", path, i), e)
				default:
					out = append(out, leaf("", e))
					out[len(out)-1].Path = path
				}
			}
		default:
			out = append(out, leaf(path, v))
		}
	}
	walk("", reflect.ValueOf(v))
	return out
}

func leaf(path string, v reflect.Value) Leaf {
	switch v.Kind() {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return Leaf{path, v.Uint(), v}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return Leaf{path, uint64(v.Int()), v}
	case reflect.Float32, reflect.Float64:
		return Leaf{path, math.Float64bits(v.Float()), v}
	case reflect.Bool:
		if v.Bool() {
			return Leaf{path, 1, v}
		}
		return Leaf{path, 0, v}
	}
	panic("unsupported leaf " + v.Kind().String())
}

// Diff says where two objects differ, or returns "".
func Diff(a, b any, skip ...string) string { return DiffLeaves(Leaves(a, skip...), Leaves(b, skip...)) }

// DiffLeaves compares two snapshots.
func DiffLeaves(x, y []Leaf) string {
	for i := range x {
		if i >= len(y) {
			break
		}
		if x[i].Path != y[i].Path || x[i].Bits != y[i].Bits {
			return fmt.Sprintf("leaf %d: %s=%#x instead of %s=%#x", i, x[i].Path, x[i].Bits, y[i].Path, y[i].Bits)
		}
	}
	if len(x) != len(y) {
		return fmt.Sprintf("%d scalars instead of %d", len(x), len(y))
	}
	return ""
}

// Fill overwrites every exported scalar with arbitrary bits.
func Fill(p *vh.PRNG, v any) {
	for _, l := range Leaves(v) {
		if !l.V.IsValid() || !l.V.CanSet() {
			continue
		}
		x := p.U64()
		if p.N(8) == 0 {
			x = uint64(p.N(3)) - 1
		}
		switch l.V.Kind() {
		case reflect.Float64, reflect.Float32:
			f := math.Float64frombits(x)
			if math.IsNaN(f) {
				f = float64(int64(x))
			}
			l.V.SetFloat(f)
		case reflect.Bool:
			l.V.SetBool(x&1 == 1)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			l.V.SetUint(x)
		default:
			l.V.SetInt(int64(x))
		}
	}
}

// Header is a sequence of eight-byte fields.
func Header(xs ...int) []byte {
	var b []byte
	for _, x := range xs {
		b = binary.BigEndian.AppendUint64(b, uint64(x))
	}
	return b
}

// Body is the scalars of v in order, big-endian at their own width.
func Body(v any) []byte {
	var b []byte
	for _, l := range Leaves(v, "GadgetParams") {
		if !l.V.IsValid() {
			continue
		}
		switch l.V.Kind() {
		case reflect.Uint32:
			b = binary.BigEndian.AppendUint32(b, uint32(l.Bits))
		default:
			b = binary.BigEndian.AppendUint64(b, l.Bits)
		}
	}
	return b
}

// Kind is a type of object under test.
type Kind struct {
	Name string
	// Make returns a pointer to an object of a drawn shape; fill asks for arbitrary contents.
	Make func(t *rapid.T) any
	// Zero returns a pointer to the zero value.
	Zero func() any
	// Wire is the documented encoding of v, nil when not serializable.
	Wire func(v any) []byte
	// Fixed marks objects whose contents Make already chose.
	Fixed bool
}

// K builds a Kind for type X.
func K[X any](name string, mk func(t *rapid.T) X, wire func(x X) []byte) Kind {
	k := Kind{
		Name: name,
		Make: func(t *rapid.T) any { x := mk(t); return &x },
		Zero: func() any { return new(X) },
	}
	if wire != nil {
		k.Wire = func(v any) []byte { return wire(*v.(*X)) }
	}
	return k
}

type serial interface {
	io.WriterTo
	io.ReaderFrom
	ByteSize() int
}

// binaryForm is implemented by every type but GLWEKeySwitchKey.
type binaryForm interface {
	encoding.BinaryMarshaler
	encoding.BinaryUnmarshaler
}

var errInjected = errors.New("injected fault")

// faultReader serves data in small pieces and then fails.
type faultReader struct {
	data []byte
	p    *vh.PRNG
	err  error
	max  int
	with bool   // return the error together with the last piece
	rest []byte // served after the failure, when it is a passing one
}

func (r *faultReader) Read(b []byte) (int, error) {
	if len(r.data) == 0 {
		r.data, r.rest = r.rest, nil
		return 0, r.err
	}
	n := 1 + r.p.N(r.max)
	if n > len(b) {
		n = len(b)
	}
	if r.p.N(9) == 0 {
		n = 0
	}
	n = copy(b[:n], r.data)
	r.data = r.data[n:]
	if len(r.data) == 0 && r.with {
		return n, r.err
	}
	return n, nil
}

// faultWriter accepts a bounded number of bytes and then fails, or silently
// accepts less than asked.
type faultWriter struct {
	buf   bytes.Buffer
	left  int
	quiet bool
	once  bool // a passing failure: later writes succeed
}

func (w *faultWriter) Write(b []byte) (int, error) {
	if len(b) > w.left {
		n := w.left
		w.left = 0
		if w.once {
			w.left = 1 << 40
		}
		w.buf.Write(b[:n])
		if w.quiet {
			return n, nil
		}
		return n, errInjected
	}
	w.left -= len(b)
	w.buf.Write(b)
	return len(b), nil
}

// MakeFilled draws an object with arbitrary contents.
func (k Kind) MakeFilled(t *rapid.T, p *vh.PRNG) any {
	v := k.Make(t)
	if !k.Fixed {
		Fill(p, v)
	}
	return v
}

// RoundTrip checks one serialization history of the kind: sizes, the documented
// layout, streams of several objects, used receivers of other shapes.
func RoundTrip(t *rapid.T, k Kind, p *vh.PRNG) (size int) {
	t.Helper()
	n := rapid.IntRange(1, 3).Draw(t, "objects")
	var stream bytes.Buffer
	var objs []any
	var sizes []int
	for i := 0; i < n; i++ {
		v := k.MakeFilled(t, p)
		before := Leaves(v)
		s := v.(serial)
		want := k.Wire(v)
		if s.ByteSize() != len(want) {
			t.Fatalf("%s: ByteSize is %d instead of %d", k.Name, s.ByteSize(), len(want))
		}
		at := stream.Len()
		w, err := s.WriteTo(&stream)
		if err != nil || w != int64(len(want)) || stream.Len()-at != len(want) {
			t.Fatalf("%s: WriteTo returned (%d, %v) and wrote %d bytes, want %d", k.Name, w, err, stream.Len()-at, len(want))
		}
		if !bytes.Equal(stream.Bytes()[at:], want) {
			t.Fatalf("%s: WriteTo does not write the documented form: byte %d of %d", k.Name, firstDiff(stream.Bytes()[at:], want), len(want))
		}
		if bf, ok := v.(binaryForm); ok {
			m, err := bf.MarshalBinary()
			if err != nil || !bytes.Equal(m, want) {
				t.Fatalf("%s: MarshalBinary differs from WriteTo (%v)", k.Name, err)
			}
			for j := range m {
				m[j] = ^m[j]
			}
		}
		if d := DiffLeaves(Leaves(v), before); d != "" {
			t.Fatalf("%s: writing changed the object: %s", k.Name, d)
		}
		objs, sizes = append(objs, v), append(sizes, len(want))
		size += len(want)
	}
	data := append([]byte(nil), stream.Bytes()...)
	tail := []byte{1, 2, 3}
	r := &faultReader{data: append(append([]byte(nil), data...), tail...), p: p, err: io.EOF, max: []int{1, 3, 9, 64, 1 << 16}[p.N(5)]}
	var recv any
	for i, v := range objs {
		// The receiver is new, used with another shape, or used with the same one.
		if recv == nil || rapid.Bool().Draw(t, "newReceiver") {
			recv = k.Zero()
			if rapid.Bool().Draw(t, "usedReceiver") {
				recv = k.MakeFilled(t, p)
			}
		}
		got, err := recv.(serial).ReadFrom(r)
		if err != nil || got != int64(sizes[i]) {
			t.Fatalf("%s: ReadFrom returned (%d, %v), want %d bytes", k.Name, got, err, sizes[i])
		}
		if d := Diff(recv, v); d != "" {
			t.Fatalf("%s: object %d read back differs: %s", k.Name, i, d)
		}
		if !bytes.Equal(k.Wire(recv), k.Wire(v)) {
			t.Fatalf("%s: object %d read back has another form", k.Name, i)
		}
	}
	if len(r.data) != len(tail) {
		t.Fatalf("%s: reading consumed %d bytes beyond the object", k.Name, len(tail)-len(r.data))
	}
	// The binary forms.
	last := objs[n-1]
	b := append([]byte(nil), data[len(data)-sizes[n-1]:]...)
	u := k.Zero()
	if rapid.Bool().Draw(t, "usedReceiver") {
		u = k.MakeFilled(t, p)
	}
	bf, ok := u.(binaryForm)
	if !ok {
		return size
	}
	if err := bf.UnmarshalBinary(b); err != nil {
		t.Fatalf("%s: UnmarshalBinary: %v", k.Name, err)
	}
	for j := range b {
		b[j] = ^b[j]
	}
	if d := Diff(u, last); d != "" {
		t.Fatalf("%s: unmarshalled object differs: %s", k.Name, d)
	}
	// An object read back is independent of everything else.
	if !k.Fixed {
		before := Leaves(last)
		Fill(p, u)
		if d := DiffLeaves(Leaves(last), before); d != "" {
			t.Fatalf("%s: writing to the object read back changed the original: %s", k.Name, d)
		}
	}
	return size
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// Faults checks that truncation and failing readers and writers are reported with
// exact byte counts, and that the object can be used afterwards.
func Faults(t *rapid.T, k Kind, p *vh.PRNG) (points int) {
	t.Helper()
	v := k.MakeFilled(t, p)
	data := k.Wire(v)
	var cuts []int
	if len(data) <= 400 {
		for i := 0; i < len(data); i++ {
			cuts = append(cuts, i)
		}
	} else {
		for i := 0; i < 12; i++ {
			cuts = append(cuts, p.N(len(data)))
		}
		// The boundaries of the first fields and the very end.
		cuts = append(cuts, 0, 1, 7, 8, 9, 16, 24, 32, 39, 40, 41, 48, len(data)-1, len(data)-8)
	}
	recv := k.MakeFilled(t, p)
	for _, c := range cuts {
		if p.N(3) == 0 {
			recv = k.Zero()
		}
		fail := io.EOF
		if p.N(2) == 0 {
			fail = errInjected
		}
		r := &faultReader{data: data[:c], p: p, err: fail, max: []int{1, 5, 1 << 16}[p.N(3)], with: p.N(2) == 0}
		if !r.with && p.N(2) == 0 {
			r.rest = data[c:]
		}
		n, err := recv.(serial).ReadFrom(r)
		if err == nil {
			t.Fatalf("%s: ReadFrom of %d of %d bytes reports no error", k.Name, c, len(data))
		}
		if n != int64(c) {
			t.Fatalf("%s: ReadFrom of %d of %d bytes reports %d bytes (%v)", k.Name, c, len(data), n, err)
		}
		if fail == errInjected && !errors.Is(err, errInjected) {
			t.Fatalf("%s: ReadFrom failing after %d bytes reports %v", k.Name, c, err)
		}
		if bf, ok := recv.(binaryForm); ok && bf.UnmarshalBinary(data[:c]) == nil {
			t.Fatalf("%s: UnmarshalBinary of %d of %d bytes reports no error", k.Name, c, len(data))
		}
		w := &faultWriter{left: c, quiet: p.N(3) == 0}
		w.once = !w.quiet && p.N(2) == 0
		n, err = v.(serial).WriteTo(w)
		if err == nil {
			t.Fatalf("%s: WriteTo reports no error after %d of %d bytes (quiet %v)", k.Name, c, len(data), w.quiet)
		}
		if w.quiet {
			continue
		}
		if !errors.Is(err, errInjected) || n != int64(w.buf.Len()) || n != int64(c) {
			t.Fatalf("%s: WriteTo failing after %d bytes reports (%d, %v)", k.Name, c, n, err)
		}
		if !bytes.Equal(w.buf.Bytes(), data[:c]) {
			t.Fatalf("%s: WriteTo wrote something else before failing after %d bytes", k.Name, c)
		}
	}
	// After all failures the same receiver reads the whole object, also when the
	// end of the stream comes with the last bytes.
	r := &faultReader{data: data, p: p, err: io.EOF, max: 1 << 16, with: true}
	if n, err := recv.(serial).ReadFrom(r); err != nil || n != int64(len(data)) {
		t.Fatalf("%s: ReadFrom after failures returned (%d, %v)", k.Name, n, err)
	}
	if d := Diff(recv, v); d != "" {
		t.Fatalf("%s: object read after failures differs: %s", k.Name, d)
	}
	return len(cuts)
}

// Regadget replaces the gadget parameters inside an object by others of the same level.
func Regadget(v any) {
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if f := v.Field(i); v.Type().Field(i).Name == "GadgetParams" {
					switch g := f.Interface().(type) {
					case tfhe.GadgetParameters[uint32]:
						f.Set(reflect.ValueOf(otherBase(g)))
					case tfhe.GadgetParameters[uint64]:
						f.Set(reflect.ValueOf(otherBase(g)))
					}
				} else {
					walk(f)
				}
			}
		case reflect.Slice:
			if k := v.Type().Elem().Kind(); k == reflect.Struct || k == reflect.Slice {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i))
				}
			}
		}
	}
	walk(reflect.ValueOf(v))
}

func otherBase[T tfhe.TorusInt](g tfhe.GadgetParameters[T]) tfhe.GadgetParameters[T] {
	lb := g.LogBase() + 1
	if lb*g.Level() > Bits[T]() || lb >= Bits[T]() {
		lb = g.LogBase() - 1
	}
	if lb < 1 {
		return g
	}
	return Lit[T](Gadget{lb, g.Level()}).Compile()
}

func method(v any, name string, args ...reflect.Value) ([]reflect.Value, bool) {
	m := reflect.ValueOf(v).MethodByName(name)
	if !m.IsValid() {
		return nil, false
	}
	return m.Call(args), true
}

// Independence checks Copy, CopyFrom and Clear.
func Independence(t *rapid.T, k Kind, p *vh.PRNG) {
	t.Helper()
	v := k.MakeFilled(t, p)
	before := Leaves(v)

	res, ok := method(v, "Copy")
	if !ok {
		t.Fatalf("%s has no Copy", k.Name)
	}
	c := reflect.New(res[0].Type())
	c.Elem().Set(res[0])
	cp := c.Interface()
	check := func(what string, x any, want []Leaf) {
		t.Helper()
		if d := DiffLeaves(Leaves(x), want); d != "" {
			t.Fatalf("%s: %s: %s", k.Name, what, d)
		}
	}
	check("the copy differs", cp, before)
	check("copying changed the original", v, before)
	Fill(p, cp)
	check("writing to the copy changed the original", v, before)
	after := Leaves(cp)
	w := k.MakeFilled(t, p)
	wb := Leaves(w)
	check("making another object changed the copy", cp, after)

	// CopyFrom into a used object of the same shape.
	if p.N(2) == 0 {
		Regadget(cp)
		check("changing the copy changed the original", v, before)
	}
	if _, ok := method(cp, "CopyFrom", reflect.ValueOf(v).Elem()); !ok {
		t.Fatalf("%s has no CopyFrom", k.Name)
	}
	check("CopyFrom differs", cp, before)
	check("CopyFrom changed its source", v, before)
	Fill(p, v)
	check("writing to the source changed the copied object", cp, before)
	vb := Leaves(v)
	Fill(p, cp)
	check("writing to the copied object changed the source", v, vb)

	// Clear.
	if _, ok := method(cp, "Clear"); !ok {
		t.Fatalf("%s has no Clear", k.Name)
	}
	for _, l := range Leaves(cp, "GadgetParams") {
		if l.V.IsValid() && l.Bits != 0 {
			t.Fatalf("%s: %s is %#x after Clear", k.Name, l.Path, l.Bits)
		}
	}
	cl := Leaves(cp)
	if len(cl) != len(vb) {
		t.Fatalf("%s: Clear changed the shape", k.Name)
	}
	for i := range cl {
		if cl[i].Path != vb[i].Path || (!cl[i].V.IsValid() || !cl[i].V.CanSet()) && cl[i].Bits != vb[i].Bits {
			t.Fatalf("%s: Clear changed %s", k.Name, cl[i].Path)
		}
	}
	check("clearing changed the source", v, vb)
	check("another object changed", w, wb)
}
