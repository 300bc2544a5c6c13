// Package h20: the distance functions.
package h20

import (
	"math"

	d "github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
	wd "github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
)

var names = []string{"cosine-dot", "dot", "l2-squared", "manhattan", "hamming"}

func provider(k int) wd.Provider {
	switch k {
	case 0:
		return d.NewCosineDistanceProvider()
	case 1:
		return conv{d.NewDotProductProvider()}
	case 2:
		return conv{d.NewL2SquaredProvider()}
	case 3:
		return conv{d.NewManhattanProvider()}
	}
	return conv{d.NewHammingProvider()}
}

type conv struct{ d.Provider }

func (c conv) New(v []float32) wd.Distancer { return c.Provider.New(v) }

// ref is the distance of integer vectors, in integers.
func ref(k int, a, b []int) int {
	s := 0
	for i := range a {
		x := a[i] - b[i]
		switch k {
		case 0, 1:
			s += a[i] * b[i]
		case 2:
			s += x * x
		case 3:
			s += vx.IteInt(x < 0, -x, x)
		case 4:
			s += vx.IteInt(x != 0, 1, 0)
		}
	}
	switch k {
	case 0:
		s = 1 - s
	case 1:
		s = -s
	}
	return s
}

// lengths around which loops may change their stride, less the arbitrary one
var lengths = []int{3, 4, 7, 8, 11, 12, 15, 18, 23, 31, 32, 33, 62, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 1535}

// Exact: on vectors of small integers every metric gives the value of its
// definition, in both forms and both directions.
func Exact() {
	k := vx.Param("k", -1)
	if k < 0 {
		k = vx.Choice("metric", len(names))
	}
	p := provider(k)
	vx.Assert(p.Type() == names[k], "a metric has its name")
	n := 1 + vx.Choice("dim", vx.Param("dim", 2))
	r := vx.Param("range", 3)
	fill := vx.Param("fill", 0)
	if fill < 0 {
		// many lengths, the last component arbitrary
		fill = lengths[vx.Choice("length", len(lengths))]
	}
	a, b := make([]int, n+fill), make([]int, n+fill)
	for i := range a {
		a[i], b[i] = i%3-1, i%5-2
	}
	at := 0
	if vx.Param("fill", 0) < 0 {
		at = fill
	} else if fill > 0 {
		at = vx.Choice("at", 3) * fill / 2
	}
	for i := 0; i < n; i++ {
		a[at+i] = vx.IntRange("a", -r, r)
		b[at+i] = vx.IntRange("b", -r, r)
	}
	// the same integers as parts or multiples of a power of two: all exact
	scale := []float32{1, 1. / 8192, 4096}[vx.Choice("scale", vx.Param("scales", 1))]
	fa, fb := make([]float32, len(a)), make([]float32, len(a))
	for i := range a {
		fa[i], fb[i] = float32(a[i])*scale, float32(b[i])*scale
	}
	want := float32(ref(k, a, b))
	switch k {
	case 0: // 1 - product
		want = 1 - float32(1-ref(k, a, b))*scale*scale
	case 1, 2:
		want *= scale * scale
	case 3:
		want *= scale
	}
	x, ok, err := p.SingleDist(fa, fb)
	vx.Assert(err == nil && ok && x == want, "the distance is that of the definition")
	y, ok, err := p.New(fa).Distance(fb)
	vx.Assert(err == nil && ok && y == x, "both forms of the metric agree")
	z, ok, err := p.SingleDist(fb, fa)
	vx.Assert(err == nil && ok && z == x, "the metric is symmetric")
	vx.Assert(p.Wrap(p.Step(fa, fb)) == x, "the metric can be put together from its step and wrap functions")
	for i := range a {
		vx.Assert(fa[i] == float32(a[i])*scale && fb[i] == float32(b[i])*scale, "the vectors are not changed")
	}
	vx.Cover("done")
}

// Any: on arbitrary finite vectors the metrics agree with themselves in both
// forms and directions, and difference metrics are zero exactly on the
// diagonal side and never negative.
func Any() {
	k := vx.Param("k", -1)
	if k < 0 {
		k = vx.Choice("metric", len(names))
	}
	p := provider(k)
	n := vx.Param("dim", 1)
	a, b := make([]float32, n), make([]float32, n)
	for i := range a {
		a[i], b[i] = vx.F32("a"), vx.F32("b")
		vx.Assume(vx.And(vx.And(a[i] >= -1e6, a[i] <= 1e6), vx.And(b[i] >= -1e6, b[i] <= 1e6)))
	}
	x, ok, err := p.SingleDist(a, b)
	vx.Assert(err == nil && ok, "vectors of one size have a distance")
	y, _, _ := p.New(a).Distance(b)
	vx.Assert(x == y, "both forms of the metric agree")
	if k != 2 && k != 3 { // two different subtractions are beyond the solver; Exact has them
		z, _, _ := p.SingleDist(b, a)
		vx.Assert(x == z, "the metric is symmetric")
	}
	if k >= 2 {
		s, _, _ := p.SingleDist(a, a)
		vx.Assert(s == 0, "a vector has distance zero to itself")
		vx.Assert(x >= 0, "distances are not negative")
	}
	if n == 1 && k == 4 {
		vx.Assert(x == vx.IteF32(a[0] != b[0], 1, 0), "components that differ at all count as different")
	}
	if n == 1 && (k == 2 || k == 3) {
		vx.Assert(vx.Or(x > 0, vx.Or(a[0] == b[0], vx.And(a[0]-b[0] < 1e-18, b[0]-a[0] < 1e-18))), "different vectors have a distance")
	}
	vx.Cover("done")
}

// Sizes: vectors of different sizes have no distance; the metric says so.
func Sizes() {
	k := vx.Choice("metric", len(names))
	p := provider(k)
	n, m := vx.Choice("n", 4), vx.Choice("m", 4)
	mk := func(nm string, n int) []float32 {
		r := make([]float32, n)
		for i := range r {
			r[i] = vx.F32(nm)
		}
		return r
	}
	a, b := mk("a", n), mk("b", m)
	_, ok, err := p.SingleDist(a, b)
	_, ok2, err2 := p.New(a).Distance(b)
	vx.Assert((err == nil) == (n == m) && ok == (n == m), "vectors of different sizes have no distance")
	vx.Assert((err2 == nil) == (n == m) && ok2 == (n == m), "vectors of different sizes have no distance")
	vx.Cover("done")
}

// Norm: normalizing keeps the size and sign pattern, leaves its argument
// alone, gives zero for zero, and length one otherwise.
func Norm() {
	n := vx.Param("dim", 1)
	r := vx.Param("range", 4)
	v, c := make([]float32, n), make([]float32, n)
	for i := range v {
		v[i] = float32(vx.IntRange("v", -r, r))
		c[i] = v[i]
	}
	o := d.Normalize(v)
	vx.Assert(len(o) == n, "normalizing keeps the size")
	for i := range v {
		vx.Assert(v[i] == c[i], "normalizing does not change its argument")
		vx.Assert((o[i] == 0) == (v[i] == 0), "normalizing keeps zero components zero")
		vx.Assert((o[i] > 0) == (v[i] > 0), "normalizing keeps signs")
		vx.Assert(o[i] <= 1.0001 && o[i] >= -1.0001, "a normalized component is at most one")
	}
	vx.Cover("done")
}

// Unit: on integer vectors the normalized vector has length one and the
// direction of the original.
func Unit() {
	n := 1 + vx.Choice("dim", vx.Param("dim", 3))
	r := vx.Param("range", 2)
	v := make([]float32, n)
	scales := []float32{1, 1.0004, 0.9996, 1.004, 0.97, 0.57735, 0.70716, 0.44721, 1e-4, 1e5, 1e-10, 1e10, 1e25, 1e-25, 1e37, 1e-42}
	scale := scales[vx.Choice("scale", vx.Param("scales", 1))]
	zero := true
	for i := range v {
		x := vx.Choice("v", 2*r+1) - r
		v[i] = float32(x) * scale
		zero = zero && x == 0
	}
	o := d.Normalize(v)
	var len2 float64
	for i := range o {
		len2 += float64(o[i]) * float64(o[i])
		for j := range o {
			e := (float64(o[i])*float64(v[j]) - float64(o[j])*float64(v[i])) / float64(scale)
			vx.Assert(e < 1e-5 && e > -1e-5, "a normalized vector has the direction of the original")
		}
		vx.Assert((o[i] > 0) == (v[i] > 0), "normalizing keeps signs")
	}
	vx.Assert(zero && len2 == 0 || !zero && len2 > 0.99999 && len2 < 1.00001, "a normalized vector has length one")
	vx.Cover("done")
}

var lats = []int{0, 1, 30, 45, 89, 90, -30, -45, -90}
var lons = []int{0, 1, 90, 179, 180, -1, -90, -150, -180}

func place(nm string) (float64, float64) {
	part := float64(vx.Choice(nm+" part", 2)) * 0.3
	return float64(lats[vx.Choice(nm+" lat", len(lats))]) * (1 - part/100), float64(lons[vx.Choice(nm+" lon", len(lons))]) * (1 - part/100)
}

// Geo: the distance of places on the globe, against the angle between their
// position vectors. Trigonometric functions have no encoding; the places are
// chosen from a grid with the poles, the date line and opposite points.
func Geo() {
	p := d.NewGeoProvider()
	la, lo := place("a")
	var lb, mo float64
	switch vx.Choice("to", 3) {
	case 0: // the opposite place
		lb, mo = -la, lo+180
	case 1: // close by
		lb, mo = la, lo+1./64
	default:
		lb, mo = 37*float64(vx.Concrete(vx.IntRange("lat", -1, 1))), float64(lons[vx.Choice("lon", len(lons))])
	}
	a, b := []float32{float32(la), float32(lo)}, []float32{float32(lb), float32(mo)}
	pos := func(v []float32) [3]float64 {
		r := math.Pi / 180
		x, y := float64(v[0])*r, float64(v[1])*r
		return [3]float64{math.Cos(x) * math.Cos(y), math.Cos(x) * math.Sin(y), math.Sin(x)}
	}
	u, w := pos(a), pos(b)
	dot := u[0]*w[0] + u[1]*w[1] + u[2]*w[2]
	cx, cy, cz := u[1]*w[2]-u[2]*w[1], u[2]*w[0]-u[0]*w[2], u[0]*w[1]-u[1]*w[0]
	want := 6371e3 * math.Atan2(math.Sqrt(cx*cx+cy*cy+cz*cz), dot)
	tol := 20 + want/1e5
	if want > 19.5e6 { // close to opposite the formula loses digits
		tol = 12e3
	}
	x, ok, err := p.SingleDist(a, b)
	vx.Assert(err == nil && ok && math.Abs(float64(x)-want) <= tol, "the distance is the one along the globe")
	y, ok, err := p.New(a).Distance(b)
	vx.Assert(err == nil && ok && y == x, "both forms of the metric agree")
	z, ok, err := p.SingleDist(b, a)
	vx.Assert(err == nil && ok && math.Abs(float64(z-x)) <= tol, "the metric is symmetric")
	_, ok, err = p.SingleDist(a, b[:vx.Choice("size", 2)])
	vx.Assert(err != nil && !ok, "vectors of other sizes have no distance")
	vx.Cover("done")
}
