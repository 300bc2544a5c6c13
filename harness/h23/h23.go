// Package h23: the settings of an index as users give them.
package h23

import (
	"context"
	"encoding/json"
	"errors"
	"math"

	h "github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/fairDataSociety/FaVe/zz_verif/hx"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
	"github.com/weaviate/weaviate/entities/schema"
	ent "github.com/weaviate/weaviate/entities/vectorindex/hnsw"
)

func defaults() h.UserConfig {
	return h.UserConfig{
		CleanupIntervalSeconds: 300, MaxConnections: 64, EFConstruction: 128, EF: -1,
		DynamicEFMin: 100, DynamicEFMax: 500, DynamicEFFactor: 8, VectorCacheMaxObjects: 1000000000000,
		FlatSearchCutoff: 40000, Distance: "cosine",
		PQ: h.PQConfig{Centroids: 256, Encoder: h.PQEncoder{Type: "kmeans", Distribution: "log-normal"}},
	}
}

type number struct {
	name string
	pq   bool
	at   func(c *h.UserConfig) *int
}

var numbers = []number{
	{"cleanupIntervalSeconds", false, func(c *h.UserConfig) *int { return &c.CleanupIntervalSeconds }},
	{"maxConnections", false, func(c *h.UserConfig) *int { return &c.MaxConnections }},
	{"efConstruction", false, func(c *h.UserConfig) *int { return &c.EFConstruction }},
	{"ef", false, func(c *h.UserConfig) *int { return &c.EF }},
	{"dynamicEfMin", false, func(c *h.UserConfig) *int { return &c.DynamicEFMin }},
	{"dynamicEfMax", false, func(c *h.UserConfig) *int { return &c.DynamicEFMax }},
	{"dynamicEfFactor", false, func(c *h.UserConfig) *int { return &c.DynamicEFFactor }},
	{"vectorCacheMaxObjects", false, func(c *h.UserConfig) *int { return &c.VectorCacheMaxObjects }},
	{"flatSearchCutoff", false, func(c *h.UserConfig) *int { return &c.FlatSearchCutoff }},
	{"segments", true, func(c *h.UserConfig) *int { return &c.PQ.Segments }},
	{"centroids", true, func(c *h.UserConfig) *int { return &c.PQ.Centroids }},
}

func put(in, pq map[string]interface{}, n number, v interface{}) {
	if n.pq {
		pq[n.name] = v
	} else {
		in[n.name] = v
	}
}

// whole is any whole number as a decoder delivers it, and the setting it is.
func whole(name string) (interface{}, int) {
	switch vx.Choice(name+" form", 5) {
	case 0: // a float
		f := vx.F64(name)
		vx.Assume(vx.And(f >= -9007199254740992, f <= 9007199254740992))
		i := int(f)
		vx.Assume(float64(i) == f)
		return f, i
	case 1: // too large a float
		f := vx.F64(name)
		vx.Assume(vx.And(f >= 9223372036854775808.0, f <= 1e300))
		return f, math.MaxInt64
	case 2: // digits
		s := vx.Str(name, vx.Param("digits", 3))
		v := 0
		for i := 0; i < len(s); i++ {
			vx.Assume(vx.And(s[i] >= '0', s[i] <= '9'))
			v = v*10 + int(s[i]-'0')
		}
		if vx.Choice(name+" sign", 2) == 1 {
			return json.Number("-" + s), -v
		}
		return json.Number(s), v
	case 3: // around the largest number there is
		s := vx.Str(name, 2)
		v := 0
		for i := 0; i < len(s); i++ {
			vx.Assume(vx.And(s[i] >= '0', s[i] <= '9'))
			v = v*10 + int(s[i]-'0')
		}
		want := math.MaxInt64
		if v <= 7 {
			want = 9223372036854775800 + v
		}
		return json.Number("92233720368547758" + s), want
	}
	return json.Number("-9999999999999999999999"), math.MinInt64
}

// Parse: any settings are taken as given, defaulted or refused.
func Parse() {
	want := defaults()
	in, pq, enc := map[string]interface{}{}, map[string]interface{}{}, map[string]interface{}{}
	wrong := false
	numeric := vx.Choice("what", 3)
	switch numeric {
	case 0: // any number or numbers
		for j := 0; j < vx.Param("numbers", 1); j++ {
			i := vx.Choice("which", len(numbers)+1)
			if i == len(numbers) {
				continue
			}
			v, is := whole("value")
			put(in, pq, numbers[i], v)
			*numbers[i].at(&want) = is
		}
	case 1: // all numbers, small and different
		for i, n := range numbers {
			put(in, pq, n, float64(10+i))
			*n.at(&want) = 10 + i
		}
	}
	if numeric != 0 {
		if vx.Choice("skip given", 2) == 1 {
			b := vx.Bool("skip")
			in["skip"] = b
			want.Skip = b
		}
		if vx.Choice("distance given", 2) == 1 {
			s := vx.Str("distance", 2)
			in["distance"] = s
			want.Distance = s
		}
		if vx.Choice("enabled given", 2) == 1 {
			b := vx.Bool("enabled")
			pq["enabled"] = b
			want.PQ.Enabled = b
		}
		if vx.Choice("bits given", 2) == 1 {
			b := vx.Bool("bits")
			pq["bitCompression"] = b
			want.PQ.BitCompression = b
		}
		types := []string{"", "tile", "kmeans"}
		if i := vx.Choice("encoder", 4); i == 3 {
			s := vx.Str("encoder name", 4)
			enc["type"] = s
			want.PQ.Encoder.Type = s
			wrong = vx.Or(wrong, s != "tile")
		} else if i > 0 {
			enc["type"] = types[i]
			want.PQ.Encoder.Type = types[i]
		}
		kinds := []string{"", "log-normal", "normal"}
		if i := vx.Choice("distribution", 4); i == 3 {
			s := vx.Str("distribution name", 6)
			enc["distribution"] = s
			want.PQ.Encoder.Distribution = s
			wrong = vx.Or(wrong, s != "normal")
		} else if i > 0 {
			enc["distribution"] = kinds[i]
			want.PQ.Encoder.Distribution = kinds[i]
		}
	}
	if len(enc) > 0 {
		pq["encoder"] = enc
	}
	if len(pq) > 0 {
		in["pq"] = pq
	}
	var given interface{} = in
	if len(in) == 0 && vx.Choice("none", 2) == 1 {
		given = nil
	}
	got, err := h.ParseAndValidateConfig(given)
	wrong = vx.Or(wrong, vx.Or(want.MaxConnections < 4, want.EFConstruction < 4))
	if wrong {
		vx.Assert(err != nil, "impossible settings are refused")
		vx.Cover("refused")
		return
	}
	vx.Assert(err == nil, "possible settings are accepted")
	c, ok := got.(h.UserConfig)
	vx.Assert(ok && c == want, "settings are taken as given, others get their default")
	vx.Cover("taken")
}

func anyEnt(name string) ent.UserConfig {
	small := func(s string) int { return vx.IntRange(name+" "+s, -3, 9) }
	return ent.UserConfig{
		CleanupIntervalSeconds: small("cleanup"), MaxConnections: small("connections"), EFConstruction: small("construction"),
		EF: vx.Int(name + " ef"), DynamicEFMin: vx.Int(name + " min"), DynamicEFMax: vx.Int(name + " max"), DynamicEFFactor: vx.Int(name + " factor"),
		VectorCacheMaxObjects: vx.Int(name + " objects"), FlatSearchCutoff: vx.Int(name + " cutoff"), Skip: vx.Bool(name + " skip"), Distance: vx.Str(name+" distance", 1),
	}
}

// Change: what is fixed for the life of an index cannot be changed, the rest
// can.
func Change() {
	a, b := anyEnt("old"), anyEnt("new")
	err := h.ValidateUserConfigUpdate(a, b)
	same := vx.And(a.CleanupIntervalSeconds == b.CleanupIntervalSeconds, vx.And(a.MaxConnections == b.MaxConnections, a.EFConstruction == b.EFConstruction))
	vx.Assert((err == nil) == same, "exactly the changes of fixed settings are refused")
	vx.Cover("done")
}

// Update: after any accepted change of the search settings a search is still
// exact.
func Update() {
	n := vx.Param("n", 2)
	t := hx.NewTableLo(n+1, 0, 2)
	e := hx.NewEnv(t, 30, 60)
	e.UC = func(u *h.UserConfig) {
		u.EF, u.DynamicEFMin, u.DynamicEFMax, u.DynamicEFFactor = -1, 100, 500, 8
	}
	idx := e.Open()
	ids := hx.Seq(0, n)
	hx.AddAll(e, idx, t, ids, 0)
	vx.Assert(idx.Flush(uint64(n)) == nil, "storing succeeds")
	c := ent.UserConfig{CleanupIntervalSeconds: 1, MaxConnections: 30, EFConstruction: 60, VectorCacheMaxObjects: 1000}
	c.EF = vx.IntRange("ef", -1, 5)
	c.DynamicEFMin = vx.IntRange("min", 1, 5)
	c.DynamicEFMax = vx.IntRange("max", 1, 5)
	c.DynamicEFFactor = vx.IntRange("factor", 1, 5)
	c.FlatSearchCutoff = vx.IntRange("cutoff", 0, 5)
	vx.Assume(c.DynamicEFMin <= c.DynamicEFMax)
	called := 0
	u, ok := idx.(interface {
		UpdateUserConfig(updated schema.VectorIndexConfig, callback func()) error
	})
	vx.Assert(ok, "an index can be reconfigured")
	vx.Assert(u.UpdateUserConfig(c, func() { called++ }) == nil && called == 1, "the change is accepted and reported once")
	var allow helpers.AllowList
	na := n
	if vx.Choice("allow", 2) == 1 {
		allow = helpers.NewAllowList(ids[n-1])
		na = 1
	}
	k := vx.Choice("k", n+1)
	got, dists, err := idx.SearchByVector(t.Vec(n), k, allow)
	vx.Assert(err == nil, "the search succeeds")
	seen := hx.Sound(t, ids, n, 3, got, dists, func(i int) bool { return allow == nil || i == n-1 })
	if k < na {
		na = k
	}
	vx.Assert(len(got) == na, "the k nearest are returned, or all there are")
	for i := range seen {
		if len(got) > 0 && !seen[i] && allow == nil {
			vx.Assert(t.D[i][n] >= dists[len(dists)-1], "nothing left out is nearer than what was returned")
		}
	}
	vx.Cover("done")
}

// Incomplete: an index is opened with any of its necessary parts missing.
func Incomplete() {
	t := hx.NewTableLo(2, 0, 2)
	st := collection.NewStorage()
	kv := collection.NewKV(st)
	vx.Assert(kv.CreateKVTable(hx.Class, "", collection.StringIndex) == nil && kv.OpenKVTable(hx.Class, "") == nil, "table")
	full := h.Config{
		RootPath: "not-used", ID: "not-used", MakeCommitLoggerThunk: h.MakeNoopCommitLogger, DistanceProvider: t, ClassName: hx.Class,
		VectorForIDThunk: func(ctx context.Context, id uint64) ([]float32, error) { return nil, errors.New("none") },
	}
	c, missing := full, 0
	drop := func(name string, f func()) {
		if vx.Choice(name, 2) == 1 {
			missing++
			f()
		}
	}
	if vx.Choice("texts", 2) == 1 {
		c.ID, c.RootPath = vx.Str("id", vx.Choice("id length", 2)), vx.Str("root", vx.Choice("root length", 2))
		if c.ID == "" {
			missing++
		}
		if c.RootPath == "" {
			missing++
		}
	}
	drop("logger", func() { c.MakeCommitLoggerThunk = nil })
	drop("vectors", func() { c.VectorForIDThunk = nil })
	drop("metric", func() { c.DistanceProvider = nil })
	_, err := h.New(c, h.UserConfig{MaxConnections: 30, EFConstruction: 60, VectorCacheMaxObjects: 1000}, kv)
	vx.Assert((err == nil) == (missing == 0), "an index is opened exactly when nothing it needs is missing")
	vx.Cover("done")
}
