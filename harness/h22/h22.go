// Package h22: the service is started with any settings in its environment.
package h22

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/fairDataSociety/FaVe/adapters/handlers"
	"github.com/fairDataSociety/FaVe/models"
	"github.com/fairDataSociety/FaVe/restapi/operations"
	"github.com/fairDataSociety/FaVe/zz_verif/hx"
	"github.com/fairDataSociety/FaVe/zz_verif/ve"
	"github.com/fairDataSociety/FaVe/zz_verif/vh"
	"github.com/fairDataSociety/FaVe/zz_verif/vx"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
	"github.com/fairdatasociety/fairOS-dfs/pkg/logging"
	"github.com/sirupsen/logrus"
)

// word is any text of n bytes; letters only where it is part of a URL.
func word(name string, n int, letters bool) string {
	s := vx.Str(name, n)
	for i := 0; i < n; i++ {
		if letters {
			vx.Assume(vx.And(s[i] >= 'a', s[i] <= 'z'))
		} else {
			vx.Assume(s[i] != 0)
		}
	}
	return s
}

// setting puts any value, or none, into the environment.
func setting(name string, max int) string {
	n := vx.Choice(name, max+2)
	if n == max+1 {
		ve.Unset(name)
		return ""
	}
	s := word(name+" bytes", n, false)
	if n > 0 && vx.Param("long", 0) == 1 {
		// long and with a part in the middle and at the end that may be anything
		s = s + strings.Repeat("long/", 60) + s
	}
	ve.Set(name, s)
	return s
}

var errDown = errors.New("down")

// Start: any settings, any start-up call failing.
func Start() {
	hx.Level(30, 0)
	dfs.Current = dfs.NewWorld()
	dfs.Opened, dfs.Logins, logging.Levels = nil, nil, nil
	max := vx.Param("max", 1)
	for _, k := range []string{"VERBOSE", "BEE_API", "RPC_API", "STAMP_ID", "VECTORIZER_URL", "USER", "PASSWORD", "POD"} {
		ve.Unset(k)
	}
	// one group of settings is arbitrary, the others are what they mostly are
	bee, rpc, stamp := "http://bee", "http://rpc", "stamp"
	user, pass, pod := "me", "secret", "pod"
	ve.Set("BEE_API", bee)
	ve.Set("RPC_API", rpc)
	ve.Set("STAMP_ID", stamp)
	ve.Set("USER", user)
	ve.Set("PASSWORD", pass)
	ve.Set("POD", pod)
	verbose, vec := "", ""
	switch vx.Choice("group", 4) {
	case 0:
		bee, rpc, stamp = setting("BEE_API", max), setting("RPC_API", max), setting("STAMP_ID", max)
	case 1:
		user, pass, pod = setting("USER", max), setting("PASSWORD", max), setting("POD", max)
	case 2:
		verbose = setting("VERBOSE", 7)
	case 3:
		if n := vx.Choice("vectorizer", 3); n > 0 {
			vec = "http://" + word("vectorizer bytes", n, true)
			ve.Set("VECTORIZER_URL", vec)
		}
	}
	fail := vx.Choice("failing", 5) // 0 none, 1 connecting, 2 creating the pod, 3 opening it, 4 the vectorizer
	var called []string
	status := 200
	if fail == 4 {
		status = 503
	}
	vh.Hook = func(method, url string, body []byte) (int, []byte, error) {
		called = append(called, url)
		return status, []byte(`{"vector":[1,0]}`), nil
	}
	collection.Fault = func(op, name, key string) error {
		if fail == 1 && op == "connect" || fail == 2 && op == "podcreate" || fail == 3 && op == "podopen" {
			return errDown
		}
		return nil
	}
	h, err := handlers.NewHandler(context.Background(), &handlers.HandlerConfig{})
	refused := fail >= 1 && fail <= 3 || fail == 4 && vec != "" || user == "" || pass == ""
	if refused {
		vx.Assert(err != nil, "a service that cannot connect, log in or open its pod does not start")
		vx.Cover("refused")
		return
	}
	vx.Assert(err == nil && h != nil, "the service starts")
	o := dfs.Opened
	if bee == "" {
		bee = "http://localhost:1633"
	}
	if stamp == "" {
		stamp = fmt.Sprintf("%064d", 0)
	}
	vx.Assert(o != nil && o.BeeApiEndpoint == bee, "the storage node is the configured one, else the local one")
	vx.Assert(o.Stamp == stamp, "the stamp is the configured one, else the empty one")
	vx.Assert(o.EnsConfig != nil && o.EnsConfig.ProviderBackend == rpc, "the chain endpoint is the configured one")
	vx.Assert(len(dfs.Logins) == 1 && dfs.Logins[0][0] == user && dfs.Logins[0][1] == pass, "the service logs in with the configured name and password")
	_, ok := dfs.Current.Pods["session-"+user+"/"+pod]
	vx.Assert(ok && len(dfs.Current.Pods) == 1, "the service works in the configured pod")
	want := logrus.ErrorLevel
	if verbose == "on" || verbose == "enabled" || verbose == "1" || verbose == "true" {
		want = logrus.DebugLevel
	}
	vx.Assert(len(logging.Levels) > 0, "a logger is made")
	for _, l := range logging.Levels {
		vx.Assert(l == want, "debug output is on exactly when it was asked for")
	}
	use(h, vec, &called)
	vx.Cover("started")
}

// use sends one text to the running service.
func use(h *handlers.Handler, vec string, called *[]string) {
	fail := collection.Fault
	collection.Fault = nil
	r := h.FaveCreateCollectionHandler(operations.FaveCreateCollectionParams{Body: &models.Collection{Name: "c", Indexes: []*models.Index{{FieldName: "id", FieldType: "string"}}}})
	_, ok := r.(*operations.FaveCreateCollectionOK)
	vx.Assert(ok, "a collection is created")
	*called = nil
	n := "c"
	r = h.FaveGetNearestDocumentsHandler(operations.FaveGetNearestDocumentsParams{Body: &models.NearestDocumentsRequest{Name: n, Text: "t", Distance: 1, Limit: 1}})
	_, ok = r.(*operations.FaveGetNearestDocumentsOK)
	if vec == "" {
		vx.Assert(!ok && len(*called) == 0, "without a vectorizer a text search is refused")
	} else {
		vx.Assert(ok && len(*called) == 1 && (*called)[0] == vec+"/vectorize", "texts are sent to the configured vectorizer")
	}
	collection.Fault = fail
}
