//go:build go1.21

package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/pa-m/sklearn/base"
	"gonum.org/v1/gonum/blas/blas32"
	"gonum.org/v1/gonum/blas/blas64"
	"gonum.org/v1/gonum/mat"
)

// Leaf is one value of a dumped structure.
type Leaf struct {
	Path string
	F    float64
	S    string
	IsF  bool
}

// Dump flattens a value into leaves: exported fields, slices, maps, matrices. Functions, channels,
// random sources, locks, worker counts and clock readings are left out (skip names in addition).
func Dump(v interface{}, skip ...string) []Leaf {
	d := &dumper{skip: map[string]bool{"RandomState": true, "NJobs": true, "FitTime": true, "ScoreTime": true}, seen: map[uintptr]int{}}
	for _, s := range skip {
		d.skip[s] = true
	}
	d.walk("", reflect.ValueOf(v), 0)
	return d.out
}

type dumper struct {
	skip map[string]bool
	seen map[uintptr]int
	out  []Leaf
}

func (d *dumper) str(p, s string) { d.out = append(d.out, Leaf{Path: p, S: s}) }

func (d *dumper) walk(p string, v reflect.Value, depth int) {
	if depth > 12 {
		return
	}
	if !v.IsValid() {
		d.str(p, "<nil>")
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case *mat.Dense:
			if x == nil {
				d.str(p, "<nil>")
				return
			}
			d.matrix(p, x)
			return
		case mat.Dense:
			d.matrix(p, &x)
			return
		case blas64.General:
			d.str(p+".dims", fmt.Sprintf("%dx%d", x.Rows, x.Cols))
			for i := 0; i < x.Rows; i++ {
				for j := 0; j < x.Cols; j++ {
					d.out = append(d.out, Leaf{Path: fmt.Sprintf("%s(%d,%d)", p, i, j), F: x.Data[i*x.Stride+j], IsF: true})
				}
			}
			return
		case blas32.General:
			d.str(p+".dims", fmt.Sprintf("%dx%d", x.Rows, x.Cols))
			for i := 0; i < x.Rows; i++ {
				for j := 0; j < x.Cols; j++ {
					d.out = append(d.out, Leaf{Path: fmt.Sprintf("%s(%d,%d)", p, i, j), F: float64(x.Data[i*x.Stride+j]), IsF: true})
				}
			}
			return
		case *mat.VecDense:
			if x == nil {
				d.str(p, "<nil>")
				return
			}
			for i := 0; i < x.Len(); i++ {
				d.out = append(d.out, Leaf{Path: fmt.Sprintf("%s[%d]", p, i), F: x.AtVec(i), IsF: true})
			}
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			d.str(p, "<nil>")
			return
		}
		if d.seen[v.Pointer()] > 0 {
			return
		}
		d.seen[v.Pointer()]++
		d.walk(p, v.Elem(), depth+1)
		d.seen[v.Pointer()]--
	case reflect.Interface:
		if v.IsNil() {
			d.str(p, "<nil>")
			return
		}
		d.walk(p, v.Elem(), depth+1)
	case reflect.Struct:
		t := v.Type()
		if pk := t.PkgPath(); strings.HasPrefix(pk, "sync") || pk == "time" || pk == "verifsim" || strings.Contains(pk, "randomkit") || strings.Contains(pk, "gonum") || strings.Contains(pk, "x/exp") {
			return
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" && !f.Anonymous {
				continue
			}
			if d.skip[f.Name] {
				continue
			}
			d.walk(p+"."+f.Name, v.Field(i), depth+1)
		}
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			d.str(p+".len", "0")
			return
		}
		d.str(p+".len", fmt.Sprint(v.Len()))
		for i := 0; i < v.Len(); i++ {
			d.walk(fmt.Sprintf("%s[%d]", p, i), v.Index(i), depth+1)
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		d.str(p+".len", fmt.Sprint(v.Len()))
		for _, k := range keys {
			d.walk(fmt.Sprintf("%s[%v]", p, k), v.MapIndex(k), depth+1)
		}
	case reflect.Float64, reflect.Float32:
		d.out = append(d.out, Leaf{Path: p, F: v.Float(), IsF: true})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.str(p, fmt.Sprint(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		d.str(p, fmt.Sprint(v.Uint()))
	case reflect.Bool:
		d.str(p, fmt.Sprint(v.Bool()))
	case reflect.String:
		d.str(p, v.String())
	case reflect.Complex128, reflect.Complex64:
		d.str(p, fmt.Sprint(v.Complex()))
	}
}

func (d *dumper) matrix(p string, m *mat.Dense) {
	if m.IsEmpty() {
		d.str(p, "<empty>")
		return
	}
	r, c := m.Dims()
	d.str(p+".dims", fmt.Sprintf("%dx%d", r, c))
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			d.out = append(d.out, Leaf{Path: fmt.Sprintf("%s(%d,%d)", p, i, j), F: m.At(i, j), IsF: true})
		}
	}
}

// sameF compares two floats: bitwise for tol==0 (all NaNs are the same), else relative to scale.
func sameF(a, b, tol float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	if tol == 0 || math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= tol*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}

// DiffLeaves describes the first difference, or "".
func DiffLeaves(a, b []Leaf, tol float64) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i].Path != b[i].Path {
			return fmt.Sprintf("structure differs: %s=%s vs %s=%s", a[i].Path, a[i].val(), b[i].Path, b[i].val())
		}
		if a[i].IsF != b[i].IsF || a[i].IsF && !sameF(a[i].F, b[i].F, tol) || !a[i].IsF && a[i].S != b[i].S {
			return fmt.Sprintf("%s: %s vs %s", a[i].Path, a[i].val(), b[i].val())
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("structure differs: %d vs %d values", len(a), len(b))
	}
	return ""
}

func (l Leaf) val() string {
	if l.IsF {
		return fmt.Sprintf("%.17g", l.F)
	}
	return l.S
}

// DiffDense describes the first difference of two matrices, or "".
func DiffDense(a, b *mat.Dense, tol float64) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return "one matrix is nil"
	}
	ar, ac := 0, 0
	if !a.IsEmpty() {
		ar, ac = a.Dims()
	}
	br, bc := 0, 0
	if !b.IsEmpty() {
		br, bc = b.Dims()
	}
	if ar != br || ac != bc {
		return fmt.Sprintf("dims %dx%d vs %dx%d", ar, ac, br, bc)
	}
	for i := 0; i < ar; i++ {
		for j := 0; j < ac; j++ {
			if !sameF(a.At(i, j), b.At(i, j), tol) {
				return fmt.Sprintf("(%d,%d): %.17g vs %.17g", i, j, a.At(i, j), b.At(i, j))
			}
		}
	}
	return ""
}

func cp(m *mat.Dense) *mat.Dense {
	if m == nil {
		return nil
	}
	if m.IsEmpty() {
		return &mat.Dense{}
	}
	r, c := m.Dims()
	o := mat.NewDense(r, c, nil)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			o.Set(i, j, m.At(i, j))
		}
	}
	return o
}

// strided returns a matrix with the same values that is a window of a wider one, so that its
// stride differs from its width (a legal input for every call).
func strided(m *mat.Dense) *mat.Dense {
	r, c := m.Dims()
	// room after the window, or none: a window that reaches the last corner ends its storage short
	after := int(math.Float64bits(m.At(0, 0))>>40) & 1
	if c > 1 {
		after ^= int(math.Float64bits(m.At(r-1, 1))>>40) & 1
	}
	big := mat.NewDense(r+1+after, c+2+after, nil)
	for i := 0; i < r+1+after; i++ {
		for j := 0; j < c+2+after; j++ {
			big.Set(i, j, 1e9+float64(i*31+j))
		}
	}
	v := big.Slice(1, r+1, 2, c+2).(*mat.Dense)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			v.Set(i, j, m.At(i, j))
		}
	}
	return v
}

// ---- data

// Data is a training and a query set.
type Data struct {
	X, Y, Q, QY *mat.Dense
	N, F, O, K  int
	Kind        string
	Form        string                    // how the matrices are handed to the library
	tr          map[*mat.Dense]*mat.Dense // transposes handed over instead
	view        map[*mat.Dense]mat.Matrix // views handed over instead
	opq         map[*mat.Dense]bool       // matrices handed over as opaque ones
}

// opaque hides everything but the methods every matrix has.
type opaque struct{ m *mat.Dense }

func (o opaque) Dims() (int, int)    { return o.m.Dims() }
func (o opaque) At(i, j int) float64 { return o.m.At(i, j) }
func (o opaque) T() mat.Matrix       { return mat.Transpose{Matrix: o} }

// forms lists, per form, how X, Y, Q and QY are handed to the library. All of them are legal
// arguments wherever a mat.Matrix is asked for.
var forms = map[string][4]string{
	"window":     {"window", "window", "window", "window"},
	"opaque":     {"opaque", "opaque", "opaque", "opaque"},
	"transposed": {"transposed", "transposed", "transposed", "transposed"},
	"mixed":      {"", "opaque", "", "transposed"},
	"mixed2":     {"opaque", "", "window", ""},
	"mixed3":     {"window", "transposed", "opaque", "window"},
	"mixed4":     {"transposed", "window", "", "opaque"},
	"rows":       {"rows", "rows", "rows", "rows"},
	"mixed5":     {"rows", "view", "view", "rows"},
	"vectors":    {"", "vector", "window", "vector"},
	"mixed6":     {"vector", "vector", "vector", "rows"},
}

var formNames = []string{"window", "opaque", "transposed", "mixed", "mixed2", "mixed3", "mixed4", "rows", "mixed5", "vectors", "mixed6"}

// as gives d another form: its matrices dense, windows of wider matrices, opaque, transposes of
// dense ones, or the library's own views (base.MatRowSlice, base.MatTranspose).
func (d *Data) as(form string) *Data {
	d.Form = form
	d.tr, d.opq = map[*mat.Dense]*mat.Dense{}, map[*mat.Dense]bool{}
	d.view = map[*mat.Dense]mat.Matrix{}
	for k, p := range []**mat.Dense{&d.X, &d.Y, &d.Q, &d.QY} {
		if *p == nil || (*p).IsEmpty() {
			continue
		}
		switch forms[form][k] {
		case "window":
			*p = strided(*p)
		case "transposed":
			d.tr[*p] = cp(mat.DenseCopyOf((*p).T()))
			if form != "transposed" || math.Float64bits((*p).At(0, 0))>>41&1 == 1 {
				d.tr[*p] = strided(d.tr[*p]) // the transpose of a window
			}
		case "opaque":
			d.opq[*p] = true
		case "view":
			d.tr[*p] = cp(mat.DenseCopyOf((*p).T()))
			d.view[*p] = base.MatTranspose{Matrix: d.tr[*p]}
		case "vector": // a single column as a vector, its elements apart or not
			if _, c := (*p).Dims(); c == 1 {
				t := cp(*p)
				if k%3 > 0 {
					t = strided(t)
				}
				d.tr[*p] = t
				d.view[*p] = t.ColView(0)
			}
		case "rows":
			// the rows of a taller matrix from its second or third on
			r, c := (*p).Dims()
			start, end := 1+k%2, 1+k%2+r
			tall := mat.NewDense(end+1+k%2, c, nil)
			tall.Apply(func(i, j int, _ float64) float64 {
				if i >= start && i < end {
					return (*p).At(i-start, j)
				}
				return -1e9 + float64(i*31+j)
			}, tall)
			d.tr[*p] = tall
			d.view[*p] = base.MatRowSlice{Matrix: tall, Start: start, End: end}
		}
	}
	return d
}

func (d *Data) in(m *mat.Dense) mat.Matrix {
	if d.opq[m] {
		return opaque{m}
	}
	if v := d.view[m]; v != nil {
		return v
	}
	if t := d.tr[m]; t != nil {
		return t.T()
	}
	return m
}

func (d *Data) mX() mat.Matrix  { return d.in(d.X) }
func (d *Data) mY() mat.Matrix  { return d.in(d.Y) }
func (d *Data) mQ() mat.Matrix  { return d.in(d.Q) }
func (d *Data) mQY() mat.Matrix { return d.in(d.QY) }

// all lists every matrix the library can reach.
func (d *Data) all() []*mat.Dense {
	out := []*mat.Dense{d.X, d.Y, d.Q, d.QY}
	for _, m := range out[:4] {
		if t := d.tr[m]; t != nil {
			out = append(out, t)
		}
	}
	return out
}

func normMat(r *Rng, n, f int, scale float64) *mat.Dense {
	m := mat.NewDense(n, f, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < f; j++ {
			m.Set(i, j, scale*r.Norm())
		}
	}
	return m
}

// RegData makes a noisy linear problem with o outputs.
func RegData(r *Rng, n, f, o, q int) *Data {
	d := &Data{N: n, F: f, O: o, Kind: "regression"}
	W := normMat(r, f, o, 1)
	off := make([]float64, o)
	for j := range off {
		off[j] = 2 * r.Norm()
	}
	shift := make([]float64, f)
	sc := make([]float64, f)
	for j := range shift {
		shift[j] = r.Norm()
		sc[j] = 0.5 + 2*r.Float()
	}
	gen := func(n int) (*mat.Dense, *mat.Dense) {
		X := normMat(r, n, f, 1)
		for i := 0; i < n; i++ {
			for j := 0; j < f; j++ {
				X.Set(i, j, X.At(i, j)*sc[j]+shift[j])
			}
		}
		Y := mat.NewDense(n, o, nil)
		for i := 0; i < n; i++ {
			for k := 0; k < o; k++ {
				s := off[k] + 0.1*r.Norm()
				for j := 0; j < f; j++ {
					s += X.At(i, j) * W.At(j, k)
				}
				Y.Set(i, k, s)
			}
		}
		return X, Y
	}
	d.X, d.Y = gen(n)
	d.Q, d.QY = gen(q)
	return d
}

// ClsData makes k well-populated Gaussian classes (labels in class order, every class present),
// in o independent label columns.
func ClsData(r *Rng, n, f, k, o, q int, labels []float64) *Data {
	d := &Data{N: n, F: f, O: o, K: k, Kind: "classification"}
	C := normMat(r, k, f, 3)
	// the columns of Y may have other classes, and fewer of them, than the first
	other, shift := o > 1 && r.Bool(), r.PickF(0, 20)
	if len(labels) == 2 && labels[0] == -1 && labels[1] == 1 { // the only two a support vector machine takes
		shift = 0
	}
	gen := func(n int, all bool) (*mat.Dense, *mat.Dense) {
		X := mat.NewDense(n, f, nil)
		Y := mat.NewDense(n, o, nil)
		for i := 0; i < n; i++ {
			c := r.Intn(k)
			if all && i < 2*k {
				c = i % k
			}
			for j := 0; j < f; j++ {
				X.Set(i, j, C.At(c, j)+r.Norm())
			}
			for oo := 0; oo < o; oo++ {
				cc := (c + oo*(1+i%2)) % k
				if all && i < 2*k {
					cc = (c + oo) % k
				}
				if other && oo > 0 {
					if k > 2+oo {
						cc %= k - oo
					}
					Y.Set(i, oo, labels[cc]+shift*float64(oo))
					continue
				}
				Y.Set(i, oo, labels[cc])
			}
		}
		p := r.Perm(n)
		X2, Y2 := mat.NewDense(n, f, nil), mat.NewDense(n, o, nil)
		for i, pi := range p {
			X2.SetRow(i, X.RawRowView(pi))
			Y2.SetRow(i, Y.RawRowView(pi))
		}
		return X2, Y2
	}
	d.X, d.Y = gen(n, true)
	d.Q, d.QY = gen(q, false)
	return d
}

func fmtMat(m *mat.Dense) string {
	if m == nil || m.IsEmpty() {
		return "empty"
	}
	r, c := m.Dims()
	if r*c > 40 {
		return fmt.Sprintf("%dx%d matrix", r, c)
	}
	return fmt.Sprintf("%g", mat.Formatted(m, mat.Squeeze()))
}

// mulInto is dst = a·b, without the goroutines gonum uses for large products:
// the reference computations run outside the simulated world.
func mulInto(dst *mat.Dense, a, b mat.Matrix) {
	n, k := a.Dims()
	_, m := b.Dims()
	A, B := mat.DenseCopyOf(a), mat.DenseCopyOf(b)
	out := make([]float64, n*m)
	for i := 0; i < n; i++ {
		o := out[i*m : (i+1)*m]
		ar := A.RawRowView(i)
		for l := 0; l < k; l++ {
			v := ar[l]
			if v == 0 {
				continue
			}
			for j, w := range B.RawRowView(l) {
				o[j] += v * w
			}
		}
	}
	if dst.IsEmpty() {
		dst.ReuseAs(n, m)
	}
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			dst.Set(i, j, out[i*m+j])
		}
	}
}

func sameDims(a, b *mat.Dense) bool {
	if a == nil || b == nil || a.IsEmpty() || b.IsEmpty() {
		return (a == nil || a.IsEmpty()) && (b == nil || b.IsEmpty())
	}
	r, c := a.Dims()
	r2, c2 := b.Dims()
	return r == r2 && c == c2
}

// over puts the values of e into the matrices d has, if they fit and d is plain dense.
func (d *Data) over(e *Data) bool {
	a, b := []*mat.Dense{d.X, d.Y, d.Q, d.QY}, []*mat.Dense{e.X, e.Y, e.Q, e.QY}
	for i := range a {
		if !sameDims(a[i], b[i]) && i < 2 {
			return false
		}
	}
	if d.Form != "" {
		return false
	}
	for i := range a[:2] {
		if a[i] != nil && !a[i].IsEmpty() {
			a[i].Copy(b[i])
		}
	}
	d.Q, d.QY = e.Q, e.QY
	return true
}
