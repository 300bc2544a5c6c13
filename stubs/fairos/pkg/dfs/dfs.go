package dfs

import (
	"context"
	"errors"
	"time"

	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/fairdatasociety/fairOS-dfs/pkg/contracts"
	"github.com/fairdatasociety/fairOS-dfs/pkg/logging"
	"github.com/fairdatasociety/fairOS-dfs/pkg/pod"
	"github.com/fairdatasociety/fairOS-dfs/pkg/user"
)

var (
	ErrUserNotLoggedIn    = errors.New("user not logged-in")
	ErrPodNotOpen         = errors.New("pod not open")
	ErrFileNotPresent     = errors.New("file not present")
	ErrFileAlreadyPresent = errors.New("file already exist with new name")
	errNoPod              = errors.New("invalid pod: pod does not exist")
	errLogin              = errors.New("invalid username or password")
)

// World is the remote storage: everything that survives a restart. Pods are
// kept by session and name, so every user has their own.
type World struct {
	Pods map[string]*collection.Storage
}

func NewWorld() *World { return &World{Pods: map[string]*collection.Storage{}} }

type API struct {
	W        *World
	sessions map[string]bool
	open     map[string]*pod.Info
}

type Options struct {
	BeeApiEndpoint     string
	Stamp              string
	EnsConfig          *contracts.ENSConfig
	SubscriptionConfig *contracts.SubscriptionConfig
	Logger             logging.Logger
	FeedCacheSize      int
	FeedCacheTTL       time.Duration
}

// Current is the world NewDfsAPI attaches to.
var Current *World

func NewStub(w *World) *API {
	return &API{W: w, sessions: map[string]bool{}, open: map[string]*pod.Info{}}
}

// Opened are the options of the last NewDfsAPI, Logins the names and passwords
// given since the start.
var (
	Opened *Options
	Logins [][2]string
)

func NewDfsAPI(ctx context.Context, opts *Options) (*API, error) {
	if collection.Fault != nil {
		if err := collection.Fault("connect", "", ""); err != nil {
			return nil, err
		}
	}
	o := *opts
	Opened = &o
	if Current == nil {
		Current = NewWorld()
	}
	return NewStub(Current), nil
}

func (a *API) LoginUserV2(userName, passPhrase, sessionId string) (*user.LoginResponse, error) {
	if userName == "" || passPhrase == "" {
		return nil, errLogin
	}
	Logins = append(Logins, [2]string{userName, passPhrase})
	s := "session-" + userName
	a.sessions[s] = true
	return &user.LoginResponse{UserInfo: user.NewInfo(s)}, nil
}

func (a *API) IsPodExist(podName, sessionId string) bool {
	if !a.sessions[sessionId] {
		return false
	}
	_, ok := a.W.Pods[sessionId+"/"+podName]
	return ok
}

func (a *API) CreatePod(podName, sessionId string) (*pod.Info, error) {
	if !a.sessions[sessionId] {
		return nil, ErrUserNotLoggedIn
	}
	if collection.Fault != nil {
		if err := collection.Fault("podcreate", podName, ""); err != nil {
			return nil, err
		}
	}
	a.W.Pods[sessionId+"/"+podName] = collection.NewStorage()
	return a.OpenPod(podName, sessionId)
}

func (a *API) OpenPod(podName, sessionId string) (*pod.Info, error) {
	if !a.sessions[sessionId] {
		return nil, ErrUserNotLoggedIn
	}
	if collection.Fault != nil {
		if err := collection.Fault("podopen", podName, ""); err != nil {
			return nil, err
		}
	}
	st, ok := a.W.Pods[sessionId+"/"+podName]
	if !ok {
		return nil, errNoPod
	}
	if pi, ok := a.open[sessionId+"/"+podName]; ok {
		return pi, nil
	}
	pi := pod.NewInfo(podName, collection.NewKV(st), collection.NewDoc(st))
	a.open[sessionId+"/"+podName] = pi
	return pi, nil
}

func (a *API) docs(sessionId, podName string) (*collection.Document, error) {
	if !a.sessions[sessionId] {
		return nil, ErrUserNotLoggedIn
	}
	pi, ok := a.open[sessionId+"/"+podName]
	if !ok {
		return nil, ErrPodNotOpen
	}
	return pi.GetDocStore(), nil
}

func (a *API) CommitPodFeeds(podName, sessionId string) error {
	if _, err := a.docs(sessionId, podName); err != nil {
		return err
	}
	if collection.Fault != nil {
		if err := collection.Fault("commit", podName, ""); err != nil {
			return err
		}
	}
	return nil
}

func (a *API) DocCreate(sessionId, podName, name string, indexes map[string]collection.IndexType, mutable bool) error {
	d, err := a.docs(sessionId, podName)
	if err != nil {
		return err
	}
	return d.CreateDocumentDB(name, "", indexes, mutable)
}

func (a *API) DocOpen(sessionId, podName, name string) error {
	d, err := a.docs(sessionId, podName)
	if err != nil {
		return err
	}
	return d.OpenDocumentDB(name, "")
}

func (a *API) IsDBOpened(sessionId, podName, name string) (bool, error) {
	d, err := a.docs(sessionId, podName)
	if err != nil {
		return false, err
	}
	return d.IsDBOpened(name), nil
}

func (a *API) DocDelete(sessionId, podName, name string) error {
	d, err := a.docs(sessionId, podName)
	if err != nil {
		return err
	}
	return d.DeleteDocumentDB(name, "")
}

func (a *API) DocList(sessionId, podName string) (map[string]collection.DBSchema, error) {
	d, err := a.docs(sessionId, podName)
	if err != nil {
		return nil, err
	}
	return d.LoadDocumentDBSchemas("")
}

func (a *API) DocPut(sessionId, podName, name string, value []byte) error {
	d, err := a.docs(sessionId, podName)
	if err != nil {
		return err
	}
	return d.Put(name, value)
}

func (a *API) DocFind(sessionId, podName, name, expr string, limit int) ([][]byte, error) {
	d, err := a.docs(sessionId, podName)
	if err != nil {
		return nil, err
	}
	return d.Find(name, expr, limit)
}
