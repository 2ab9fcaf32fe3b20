// Package commitlogdrv replays changes of a graph, drawn from the specification, into the
// real commit log, and records what can be restored from its files.
package commitlogdrv

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	h "github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/sirupsen/logrus"
	"github.com/weaviate/weaviate/entities/cyclemanager"
)

type M = map[string]interface{}

type event struct {
	Op      string   `json:"op"`
	Mode    string   `json:"mode"`
	Limit   int64    `json:"limit"`
	Combine int64    `json:"combine"`
	ID      uint64   `json:"id"`
	Level   int      `json:"level"`
	To      uint64   `json:"to"`
	Tos     []uint64 `json:"tos"`
	Which   int      `json:"which"`
	Bytes   uint64   `json:"bytes"`
	Part    int64    `json:"part"`
	Half    bool     `json:"half"`
}

type schedule struct {
	Events []json.RawMessage `json:"events"`
}

// the logger's methods; AddNode takes a type of its own package
type logger interface {
	SetEntryPointWithMaxLayer(id uint64, level int) error
	ReplaceLinksAtLevel(nodeid uint64, level int, targets []uint64) error
	AddLinkAtLevel(nodeid uint64, level int, target uint64) error
	AddTombstone(nodeid uint64) error
	RemoveTombstone(nodeid uint64) error
	ClearLinks(nodeid uint64) error
	ClearLinksAtLevel(nodeid uint64, level uint16) error
	DeleteNode(nodeid uint64) error
	Reset() error
	Flush() error
	SwitchCommitLogs(force bool) error
	Shutdown(ctx context.Context) error
}

type state struct {
	root string
	mode string
	opts []h.CommitlogOption
	log  logger
	raw  interface{}
	next int
	lg   *logrus.Logger
}

func (s *state) dir() string { return filepath.Join(s.root, "main.hnsw.commitlog.d") }

func (s *state) open() {
	l, err := h.NewCommitLogger(s.root, "main", s.lg, s.opts...)
	if err != nil {
		panic(fail{err})
	}
	s.log, s.raw = l, l
}

type fail struct{ err error }

func check(err error) {
	if err != nil {
		panic(fail{err})
	}
}

// number is the time stamp a file name starts with; -1 for temporary files.
func number(name string) int64 {
	n, err := strconv.ParseInt(strings.TrimSuffix(name, ".condensed"), 10, 64)
	if err != nil {
		return -1
	}
	return n
}

// files in the order they are to be read
func (s *state) files() []string {
	ents, err := os.ReadDir(s.dir())
	if err != nil {
		panic("driver: " + err.Error())
	}
	out := []string{}
	for _, e := range ents {
		if number(e.Name()) >= 0 {
			out = append(out, filepath.Join(s.dir(), e.Name()))
		}
	}
	sort.SliceStable(out, func(a, b int) bool { return number(filepath.Base(out[a])) < number(filepath.Base(out[b])) })
	return out
}

// old files that are not condensed
func (s *state) raws() []string {
	f := s.files()
	out := []string{}
	for i, x := range f {
		if i < len(f)-1 && !strings.HasSuffix(x, ".condensed") {
			out = append(out, x)
		}
	}
	return out
}

func graph(r *h.DeserializationResult) M {
	nodes, tomb := []M{}, []uint64{}
	out := M{"ep": 0, "lvl": 0}
	if r != nil {
		for _, n := range r.Nodes {
			if n == nil {
				continue
			}
			links := make([][]uint64, len(n.Connections))
			for i, c := range n.Connections {
				links[i] = append([]uint64{}, c...)
			}
			nodes = append(nodes, M{"id": n.Id, "level": n.Level, "links": links})
		}
		for t := range r.Tombstones {
			tomb = append(tomb, t)
		}
		sort.Slice(tomb, func(a, b int) bool { return tomb[a] < tomb[b] })
		out["ep"], out["lvl"] = r.Entrypoint, r.Level
	}
	out["nodes"], out["tomb"] = nodes, tomb
	return out
}

func abrupt(err error) bool { return errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) }

// restore reads the files as an index would at its start.
func (s *state) restore() M {
	files, err := h.NewCorruptedCommitLogFixer(s.lg).Do(s.files())
	check(err)
	var r *h.DeserializationResult
	for _, f := range files {
		fd, err := os.Open(f)
		check(err)
		r, _, err = h.NewDeserializer(s.lg).Do(bufio.NewReaderSize(fd, 256*1024), r, false)
		fd.Close()
		check(err)
	}
	return graph(r)
}

func (s *state) size() int64 {
	f := s.files()
	st, err := os.Stat(f[len(f)-1])
	if err != nil {
		panic("driver: " + err.Error())
	}
	return st.Size()
}

func (s *state) addNode(id uint64, level int) {
	m := reflect.ValueOf(s.raw).MethodByName("AddNode")
	n := reflect.New(m.Type().In(0).Elem())
	n.Elem().FieldByName("Id").SetUint(id)
	n.Elem().FieldByName("Level").SetInt(int64(level))
	if r := m.Call([]reflect.Value{n})[0]; !r.IsNil() {
		check(r.Interface().(error))
	}
}

func (s *state) condense(f string) { check(h.NewMemoryCondensor(s.lg).Do(f)) }

// limited runs f while no file can grow beyond so many bytes.
func limited(bytes uint64, f func() error) bool {
	mu.RUnlock()
	defer mu.RLock()
	mu.Lock()
	defer mu.Unlock()
	var old syscall.Rlimit
	if err := syscall.Getrlimit(1, &old); err != nil {
		panic("driver: " + err.Error())
	}
	if err := syscall.Setrlimit(1, &syscall.Rlimit{Cur: bytes, Max: old.Max}); err != nil {
		panic("driver: " + err.Error())
	}
	defer syscall.Setrlimit(1, &old)
	return f() != nil
}

// held while anything is done, exclusively while writes are limited
var mu sync.RWMutex

func (s *state) do(e event, out M) {
	switch e.Op {
	case "start":
		s.mode = e.Mode
		tick := func() cyclemanager.CycleTicker { return cyclemanager.NewNoopTicker() }
		if e.Mode == "auto" {
			tick = func() cyclemanager.CycleTicker { return cyclemanager.NewFixedIntervalTicker(3 * time.Millisecond) }
		}
		s.opts = []h.CommitlogOption{h.WithCommitlogCycleTicker(tick), h.WithCommitlogThreshold(e.Limit), h.WithCommitlogThresholdForCombining(e.Combine)}
		s.open()
	case "node":
		s.addNode(e.ID, e.Level)
	case "ep":
		check(s.log.SetEntryPointWithMaxLayer(e.ID, e.Level))
	case "link":
		check(s.log.AddLinkAtLevel(e.ID, e.Level, e.To))
	case "replace":
		check(s.log.ReplaceLinksAtLevel(e.ID, e.Level, e.Tos))
	case "tomb":
		check(s.log.AddTombstone(e.ID))
	case "untomb":
		check(s.log.RemoveTombstone(e.ID))
	case "clear":
		check(s.log.ClearLinks(e.ID))
	case "clearat":
		check(s.log.ClearLinksAtLevel(e.ID, uint16(e.Level)))
	case "del":
		check(s.log.DeleteNode(e.ID))
	case "reset":
		check(s.log.Reset())
	case "pause":
		check(s.log.Flush())
		time.Sleep(1020 * time.Millisecond)
	case "switch":
		// the file in use gets an earlier number, as if it had been started a while ago
		f := s.files()
		cur := f[len(f)-1]
		s.next++
		if err := os.Rename(cur, filepath.Join(s.dir(), strconv.Itoa(s.next))); err != nil {
			panic("driver: " + err.Error())
		}
		check(s.log.SwitchCommitLogs(true))
	case "condense":
		if r := s.raws(); len(r) > 0 {
			s.condense(r[e.Which%len(r)])
		}
	case "combine":
		_, err := h.NewCommitLogCombiner(s.root, "main", e.Limit, s.lg).Do()
		check(err)
	case "failcondense":
		// the disk takes only so many bytes more
		if r := s.raws(); len(r) > 0 {
			out["failed"] = limited(e.Bytes, func() error { return h.NewMemoryCondensor(s.lg).Do(r[e.Which%len(r)]) })
		}
	case "failcombine":
		out["failed"] = limited(e.Bytes, func() error {
			_, err := h.NewCommitLogCombiner(s.root, "main", 1<<20, s.lg).Do()
			return err
		})
	case "diecondense", "diecombine":
		// the process dies somewhere in it
		s.close()
		s.log = nil
		out["at"], out["of"] = died(s.dir(), int(e.Part), e.Half, func() {
			if e.Op == "diecombine" {
				_, err := h.NewCommitLogCombiner(s.root, "main", e.Limit, s.lg).Do()
				check(err)
			} else if r := s.raws(); len(r) > 0 {
				s.condense(r[e.Which%len(r)])
			}
		})
		_, err := h.NewCorruptedCommitLogFixer(s.lg).Do(s.files())
		check(err)
		s.open()
	case "crash":
		s.close()
		_, err := h.NewCorruptedCommitLogFixer(s.lg).Do(s.files())
		check(err)
		s.open()
	case "reopen":
		s.close()
		s.open()
	case "restore":
		check(s.log.Flush())
		if s.mode == "auto" {
			s.close()
		}
		out["got"] = s.restore()
		if s.mode == "auto" {
			s.open()
		}
	case "cut":
		f := s.files()
		n := s.size()
		at := n * e.Part / 40
		switch e.Part % 4 {
		case 1:
			at--
		case 2:
			at += 3
		case 3:
			at -= 5
		}
		if at < 0 {
			at = 0
		}
		if at > n {
			at = n
		}
		b, err := os.ReadFile(f[len(f)-1])
		if err != nil {
			panic("driver: " + err.Error())
		}
		r, valid, err := h.NewDeserializer(s.lg).Do(bufio.NewReader(strings.NewReader(string(b[:at]))), nil, false)
		out["at"], out["valid"], out["got"] = at, valid, graph(r)
		out["fatal"] = (err != nil && !abrupt(err)) || r == nil
	}
	switch e.Op {
	case "node", "ep", "link", "replace", "tomb", "untomb", "clear", "clearat", "del", "reset":
		check(s.log.Flush())
		out["off"] = 0
		if s.mode == "cut" {
			out["off"] = s.size()
		}
	}
}

func (s *state) close() {
	if s.log == nil {
		return
	}
	check(s.log.Flush())
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	check(s.log.Shutdown(ctx))
}

func (s *state) run(e event, out M) {
	done := make(chan M, 1)
	go func() {
		o := M{"res": "ok"}
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(fail); ok {
					o = M{"res": "err", "msg": f.err.Error()}
				} else if m := fmt.Sprint(r); strings.HasPrefix(m, "driver:") {
					panic(r)
				} else {
					o = M{"res": "panic", "msg": m}
				}
			}
			done <- o
		}()
		mu.RLock()
		defer mu.RUnlock()
		s.do(e, o)
	}()
	select {
	case o := <-done:
		for k, v := range o {
			out[k] = v
		}
	case <-time.After(time.Minute):
		out["res"], out["msg"] = "panic", "the call does not return"
	}
}

func TestReplay(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_SCHED"))
	if err != nil {
		t.Fatal(err)
	}
	signal.Ignore(syscall.SIGXFSZ)
	lines := strings.Split(strings.TrimSpace(string(b)), "\n")
	res := make([][]byte, len(lines))
	sem := make(chan struct{}, 16)
	var wg sync.WaitGroup
	for i, line := range lines {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int, line string) {
			defer wg.Done()
			defer func() { <-sem }()
			var sch schedule
			if err := json.Unmarshal([]byte(line), &sch); err != nil {
				panic("driver: " + err.Error())
			}
			root := filepath.Join(os.Getenv("VERIF_SCRATCH"), strconv.Itoa(i))
			if err := os.MkdirAll(root, 0o777); err != nil {
				panic("driver: " + err.Error())
			}
			lg := logrus.New()
			lg.SetOutput(io.Discard)
			s := &state{root: root, lg: lg}
			evs := []M{}
			for _, raw := range sch.Events {
				var e event
				m := M{}
				if json.Unmarshal(raw, &e) != nil || json.Unmarshal(raw, &m) != nil {
					panic("driver: bad event " + string(raw))
				}
				s.run(e, m)
				evs = append(evs, m)
				if m["res"] != "ok" {
					break
				}
			}
			func() {
				defer func() { recover() }()
				s.close()
			}()
			os.RemoveAll(root)
			res[i], _ = json.Marshal(M{"events": evs})
		}(i, line)
	}
	wg.Wait()
	out, err := os.Create(os.Getenv("VERIF_TRACE"))
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	for _, r := range res {
		out.Write(append(r, '\n'))
	}
}
