package selftest

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/fairDataSociety/FaVe/zz_verif/vx"
)

type T struct {
	A int               `json:"a"`
	B []float32         `json:"b,omitempty"`
	C map[string]uint64 `json:"c"`
	d int
}

func Basic() {
	a := vx.IntRange("a", 0, 5)
	b := vx.IntRange("b", 0, 5)
	xs := []int{a, b, 3}
	sort.Ints(xs)
	vx.Assert(xs[0] <= xs[1] && xs[1] <= xs[2], "sorted")
	sort.Slice(xs, func(i, j int) bool { return xs[i] > xs[j] })
	vx.Assert(xs[0] >= xs[1] && xs[1] >= xs[2], "sorted desc")
	f := vx.F32("f")
	vx.Assume(f == f && f < 1e30 && f > -1e30)
	t := T{A: a, B: []float32{f, 1.5}, C: map[string]uint64{"x": 1, "y": 2}}
	bs, err := json.Marshal(t)
	vx.Assert(err == nil, "marshal")
	var u T
	err = json.Unmarshal(bs, &u)
	vx.Assert(err == nil, "unmarshal")
	vx.Assert(u.A == a && u.B[0] == f && u.B[1] == 1.5 && u.C["y"] == 2, "roundtrip")
	var m map[string]interface{}
	err = json.Unmarshal([]byte(`{"q":[1,2.5,"s",null,true,{"z":{}}]}`), &m)
	vx.Assert(err == nil && len(m["q"].([]interface{})) == 6, "generic")
	s := fmt.Sprintf("%d-%s-%v", 42, "hi", []int{1, 2})
	vx.Assert(s == "42-hi-[1 2]", "sprintf "+s)
	e := fmt.Errorf("wrap: %w", errFoo)
	vx.Assert(errors.Is(e, errFoo), "errors.Is")
	vx.Assert(strings.Contains(e.Error(), "foo"), "errmsg")
	vx.Assert(strings.Split("a,b,c", ",")[2] == "c", "split")
	var wg sync.WaitGroup
	var mu sync.Mutex
	n := 0
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			n++
		}()
	}
	wg.Wait()
	vx.Assert(n == 4, "wg")
	vx.Cover("end")
}

var errFoo = errors.New("foo")

func Bad() {
	a := vx.U32("a")
	b := vx.U32("b")
	vx.Assert(a*b != 77777 || a < 10 || b < 10, "factor")
	defer func() {
		if r := recover(); r != nil {
			vx.Assert(fmt.Sprint(r) == "runtime error: index out of range [5] with length 3", "msg "+fmt.Sprint(r))
			vx.Assert(false, "recovered")
		}
	}()
	xs := make([]int, 3)
	i := vx.IntRange("i", 0, 7)
	vx.Assume(i == 5 || i < 3)
	xs[i] = 3
}
func Race() {
	vx.Preempt(2)
	n := 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			x := n
			mu.Unlock()
			mu.Lock()
			n = x + 1
			mu.Unlock()
		}()
	}
	wg.Wait()
	vx.Assert(n == 2, "lost update")
}
