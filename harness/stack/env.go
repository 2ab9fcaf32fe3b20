package verifstack

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
	mock2 "github.com/fairdatasociety/fairOS-dfs/pkg/ensm/eth/mock"
	"github.com/fairdatasociety/fairOS-dfs/pkg/logging"
	"github.com/fairdatasociety/fairOS-dfs/pkg/user"
	"github.com/sirupsen/logrus"
)

const (
	User     = "testuser"
	Password = "testpasswordtestpassword"
	Pod      = "Fave"
)

// Quiet is a logger whose output goes nowhere.
func Quiet() *logrus.Logger {
	l := logrus.New()
	l.SetOutput(io.Discard)
	return l
}

// Silence redirects the process's stdout to /dev/null (the code under test prints
// to it) and returns the real one.
func Silence() *os.File {
	real := os.Stdout
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
	return real
}

// Vectorizer is a scriptable stand-in for the embedding service.
type Vectorizer struct {
	mu     sync.Mutex
	Vec    func(text string) []float32 // nil result: 500
	Status int                         // != 0: answer with this status
	Body   string                      // != "": answer with this body
	Only   string                      // != "": misbehave for this text only
	Calls  []string
	srv    *httptest.Server
}

func NewVectorizer(vec func(string) []float32) *Vectorizer {
	v := &Vectorizer{Vec: vec}
	v.srv = httptest.NewServer(http.HandlerFunc(v.serve))
	return v
}

func (v *Vectorizer) URL() string { return v.srv.URL }
func (v *Vectorizer) Close()      { v.srv.Close() }

// Script sets the fault the service shows from now on (0, "" for none).
func (v *Vectorizer) Script(status int, body string) {
	v.mu.Lock()
	v.Status, v.Body, v.Only = status, body, ""
	v.mu.Unlock()
}

// ScriptFor restricts the fault to one text ("" for all of them).
func (v *Vectorizer) ScriptFor(text string) {
	v.mu.Lock()
	v.Only = text
	v.mu.Unlock()
}

// Hangup, as a status, closes the connection without an answer.
const Hangup = -1

func (v *Vectorizer) serve(w http.ResponseWriter, r *http.Request) {
	if strings.HasSuffix(r.URL.Path, "health") {
		w.WriteHeader(http.StatusOK)
		return
	}
	b, _ := io.ReadAll(r.Body)
	var req struct {
		Query []string `json:"query"`
	}
	_ = json.Unmarshal(b, &req)
	v.mu.Lock()
	status, body := v.Status, v.Body
	text := strings.Join(req.Query, "\x00")
	v.Calls = append(v.Calls, text)
	if v.Only != "" && v.Only != text {
		status, body = 0, ""
	}
	v.mu.Unlock()
	if status == Hangup {
		panic(http.ErrAbortHandler)
	}
	if status != 0 {
		w.WriteHeader(status)
		_, _ = io.WriteString(w, body)
		return
	}
	if body != "" {
		_, _ = io.WriteString(w, body)
		return
	}
	vec := v.Vec(text)
	if vec == nil {
		w.WriteHeader(http.StatusInternalServerError)
		return
	}
	_ = json.NewEncoder(w).Encode(map[string]interface{}{"vector": vec})
}

// Env is one deployment: a durable store, the user registry, and the running process.
type Env struct {
	Store  *Store
	VecURL string
	ens    *mock2.NamespaceManager
	logger logging.Logger
	Api    *dfs.API
	C      *document.Client
}

// NewEnv creates a deployment with the user registered and the server process started.
func NewEnv(vecURL string) (*Env, error) {
	e := &Env{Store: NewStore(), VecURL: vecURL, ens: mock2.NewMockNamespaceManager(), logger: logging.New(io.Discard, 0)}
	users := user.NewUsers(e.Store, e.ens, 1000, time.Hour, e.logger)
	api := dfs.NewMockDfsAPI(e.Store, users, e.logger)
	if _, err := api.CreateUserV2(User, Password, "", ""); err != nil {
		return nil, fmt.Errorf("create user: %w", err)
	}
	return e, e.Start()
}

// FreshAPI is the storage library as a newly started process sees it.
func (e *Env) FreshAPI() *dfs.API {
	users := user.NewUsers(e.Store, e.ens, 1000, time.Hour, e.logger)
	e.Api = dfs.NewMockDfsAPI(e.Store, users, e.logger)
	return e.Api
}

// Guard runs f until it neither fails nor panics, a few times at most: creating
// accounts and sessions now and then fails inside the storage library, which has
// nothing to do with the code under test.
func Guard(f func() error) (err error) {
	for i := 0; i < 6; i++ {
		err = func() (err error) {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("panic: %v", r)
				}
			}()
			return f()
		}()
		if err == nil || !strings.Contains(err.Error(), "invalid point") {
			return err
		}
	}
	return err
}

// RetryEnv is NewEnv under Guard.
func RetryEnv(vecURL string) (e *Env, err error) {
	err = Guard(func() error {
		e, err = NewEnv(vecURL)
		return err
	})
	return e, err
}

// Start starts a server process on the current durable contents, dropping whatever
// the previous process held in memory (a crash, if nothing was flushed before).
func (e *Env) Start() error {
	e.Store = e.Store.Fork()
	e.FreshAPI()
	c, err := document.New(document.Config{VectorizerUrl: e.VecURL}, e.Api)
	if err != nil {
		return err
	}
	if err := c.Login(User, Password); err != nil {
		return fmt.Errorf("login: %w", err)
	}
	if err := c.OpenPod(Pod); err != nil {
		return fmt.Errorf("open pod: %w", err)
	}
	e.C = c
	return nil
}
