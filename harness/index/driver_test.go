// Package indexdrv replays schedules produced from the specification into the real
// graph index and records what it answered.
package indexdrv

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	h "github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
	vs "github.com/fairDataSociety/FaVe/verifx/stack"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
	wd "github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
	"github.com/weaviate/weaviate/entities/cyclemanager"
	"github.com/weaviate/weaviate/entities/schema"
	ent "github.com/weaviate/weaviate/entities/vectorindex/hnsw"
)

const n = 81

type M = map[string]interface{}

type cfg struct {
	Metric string `json:"metric"`
	M      int    `json:"m"`
	EFC    int    `json:"efc"`
	EF     int    `json:"ef"`
	Dyn    []int  `json:"dyn"`
	Cutoff int    `json:"cutoff"`
}

type item struct {
	ID uint64 `json:"id"`
	V  []int  `json:"v"`
}

type event struct {
	Op    string   `json:"op"`
	Cfg   cfg      `json:"cfg"`
	Items []item   `json:"items"`
	ID    uint64   `json:"id"`
	IDs   []uint64 `json:"ids"`
	V     []int    `json:"v"`
	Q     []int    `json:"q"`
	K     int      `json:"k"`
	EF    int      `json:"ef"`
	Max   int      `json:"max"`
	Count uint64   `json:"count"`
	Allow []int64  `json:"allow"`
}

type schedule struct {
	Events []json.RawMessage `json:"events"`
	Log    bool              `json:"log"`   // keep a commit log
	Maint  []int64           `json:"maint"` // and maintain it all the time: sizes at which files are switched and combined
	Rep    int               `json:"rep"`   // every vector is this many copies of the specification's
}

type state struct {
	rep  int
	cfg  cfg
	kv   *vs.KV
	idx  vs.Index
	dim  int
	seen map[uint64]bool
	logs string
	quit func()

	maint  []int64
	paused bool
	listed []string // files of the backup
}

func (s *state) floats(v []int) []float32 {
	out := make([]float32, 0, len(v)*s.rep)
	for i := 0; i < s.rep; i++ {
		for _, x := range v {
			out = append(out, float32(x))
		}
	}
	return out
}

// scale is the factor between the code's distances and the specification's.
func (s *state) scale() float64 {
	if s.cfg.Metric == "cosine" {
		return n
	}
	return 1 / float64(s.rep)
}

// bound is the distance to ask for, a little beyond the specification's largest
// one, or that one itself where distances are computed without rounding.
func (s *state) bound(e event) float32 {
	odd := e.Max
	for _, x := range e.Q {
		odd += x
	}
	if s.cfg.Metric != "cosine" && odd%2 == 0 {
		return float32(float64(e.Max) / s.scale())
	}
	return float32((float64(e.Max) + 0.5) / s.scale())
}

// own lets the index use the repository's metrics, which differ from the library's only in a type.
type own struct{ distancer.Provider }

func (o own) New(v []float32) wd.Distancer { return o.Provider.New(v) }

func provider(m string) wd.Provider {
	switch m {
	case "cosine":
		return distancer.NewCosineDistanceProvider()
	case "dot":
		return own{distancer.NewDotProductProvider()}
	case "l2":
		return own{distancer.NewL2SquaredProvider()}
	case "manhattan":
		return own{distancer.NewManhattanProvider()}
	case "hamming":
		return own{distancer.NewHammingProvider()}
	}
	panic("driver: metric " + m)
}

func (s *state) config() h.UserConfig {
	uc := h.UserConfig{}
	uc.SetDefaults()
	uc.MaxConnections = s.cfg.M
	uc.EFConstruction = s.cfg.EFC
	uc.EF = s.cfg.EF
	if len(s.cfg.Dyn) == 3 {
		uc.DynamicEFMin, uc.DynamicEFMax, uc.DynamicEFFactor = s.cfg.Dyn[0], s.cfg.Dyn[1], s.cfg.Dyn[2]
	}
	uc.FlatSearchCutoff = s.cfg.Cutoff
	return uc
}

func (s *state) open() (err error) {
	uc := s.config()
	log := h.MakeCommitLogger(h.MakeNoopCommitLogger)
	if s.logs != "" {
		log = func() (h.CommitLogger, error) {
			opts := []h.CommitlogOption{h.WithCommitlogCycleTicker(func() cyclemanager.CycleTicker { return cyclemanager.NewNoopTicker() })}
			if len(s.maint) == 2 {
				opts = []h.CommitlogOption{h.WithCommitlogCycleTicker(func() cyclemanager.CycleTicker { return cyclemanager.NewFixedIntervalTicker(3 * time.Millisecond) }),
					h.WithCommitlogThreshold(s.maint[0]), h.WithCommitlogThresholdForCombining(s.maint[1])}
			}
			l, err := h.NewCommitLogger(s.logs, "verif", vs.Quiet(), opts...)
			if err == nil {
				s.quit = func() {
					if err := l.Flush(); err != nil {
						panic("driver: " + err.Error())
					}
					if err := l.Shutdown(context.Background()); err != nil {
						panic("driver: " + err.Error())
					}
				}
			}
			return l, err
		}
	}
	s.idx, err = s.kv.NewIndex(provider(s.cfg.Metric), uc, log)
	if err != nil {
		return err
	}
	return s.idx.LoadEntrypoint()
}

func (s *state) hits(ids []uint64, ds []float32) []M {
	out := []M{}
	for i, id := range ids {
		x := float64(ds[i]) * s.scale() * 1000
		if math.IsNaN(x) || math.Abs(x) > 1e9 {
			x = -1e9
		}
		out = append(out, M{"id": id, "d": int64(math.Round(x))})
	}
	return out
}

// vector takes a stored vector back; anything that does not fit becomes visible.
func (s *state) vector(v []float32) []int64 {
	d := len(v) / s.rep
	out := make([]int64, d)
	f := 1.0
	if s.cfg.Metric == "cosine" {
		f = math.Sqrt(n * float64(s.rep))
	}
	for i := range v {
		x := float64(v[i]) * f
		r := math.Round(x)
		if math.Abs(x-r) > 1e-3 || len(v)%s.rep != 0 || (i >= d && out[i%d] != int64(r)) {
			return []int64{999999}
		}
		out[i%d] = int64(r)
	}
	return out
}

func (s *state) dump(out M) error {
	type node struct {
		ID          *uint64    `json:"_id"`
		Level       int        `json:"level"`
		Connections [][]uint64 `json:"connections"`
		Vector      []float32  `json:"vector"`
	}
	nodes := []M{}
	order := []uint64{}
	for id := range s.seen {
		order = append(order, id)
	}
	sort.Slice(order, func(i, j int) bool { return order[i] < order[j] })
	for _, id := range order {
		_, b, err := s.kv.KV.KVGet(vs.Table, fmt.Sprint(id))
		if err != nil {
			continue
		}
		var x node
		if err := json.Unmarshal(b, &x); err != nil {
			return err
		}
		if x.ID == nil || *x.ID != id {
			return fmt.Errorf("node %d is stored as %v", id, string(b))
		}
		for i := range x.Connections {
			if x.Connections[i] == nil {
				x.Connections[i] = []uint64{}
			}
		}
		nodes = append(nodes, M{"id": id, "level": x.Level, "links": x.Connections, "v": s.vector(x.Vector)})
	}
	out["nodes"] = nodes
	out["ep"] = -1
	if _, b, err := s.kv.KV.KVGet(vs.Table, "entrypoint"); err == nil {
		var x struct {
			ID uint64 `json:"id"`
		}
		if err := json.Unmarshal(b, &x); err != nil {
			return err
		}
		out["ep"] = x.ID
	}
	return nil
}

type maintained interface {
	PauseMaintenance(context.Context) error
	SwitchCommitLogs(context.Context) error
	ListFiles(context.Context) ([]string, error)
	ResumeMaintenance(context.Context) error
}

// limit of the time maintenance may take to stop
func soon() context.Context {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	time.AfterFunc(time.Minute, cancel)
	return ctx
}

// logged is the graph the commit log describes.
func (s *state) logged() (M, error) {
	if len(s.maint) > 0 && !s.paused {
		if err := s.idx.(maintained).PauseMaintenance(soon()); err != nil {
			return nil, err
		}
		defer s.idx.(maintained).ResumeMaintenance(soon())
	}
	dir := filepath.Join(s.logs, "verif.hnsw.commitlog.d")
	files, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	names := []string{}
	for _, f := range files {
		names = append(names, filepath.Join(dir, f.Name()))
	}
	return described(names)
}

func stamp(f string) int64 {
	n, err := strconv.ParseInt(strings.TrimSuffix(filepath.Base(f), ".condensed"), 10, 64)
	if err != nil {
		return -1
	}
	return n
}

// described is the graph that these files describe together.
func described(files []string) (M, error) {
	files = append([]string{}, files...)
	sort.SliceStable(files, func(a, b int) bool { return stamp(files[a]) < stamp(files[b]) })
	r := &h.DeserializationResult{}
	first := true
	for _, name := range files {
		if stamp(name) < 0 {
			continue // temporary
		}
		f, err := os.Open(name)
		if err != nil {
			return nil, err
		}
		var prev *h.DeserializationResult
		if !first {
			prev = r
		}
		first = false
		r, _, err = h.NewDeserializer(vs.Quiet()).Do(bufio.NewReader(f), prev, false)
		f.Close()
		if err != nil {
			return nil, err
		}
	}
	nodes := []M{}
	for _, x := range r.Nodes {
		if x == nil {
			continue
		}
		links := make([][]uint64, len(x.Connections))
		for i, c := range x.Connections {
			links[i] = append([]uint64{}, c...)
		}
		nodes = append(nodes, M{"id": x.Id, "level": x.Level, "links": links})
	}
	return M{"nodes": nodes, "ep": r.Entrypoint, "level": r.Level}, nil
}

func (s *state) run(e event, out M) {
	done := make(chan M, 1)
	go func() {
		o := M{}
		s.call(e, o)
		done <- o
	}()
	select {
	case o := <-done:
		for k, v := range o {
			out[k] = v
		}
	case <-time.After(150 * time.Second):
		out["res"], out["msg"] = "panic", "the call does not return"
	}
}

func (s *state) call(e event, out M) {
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(string); ok && strings.HasPrefix(t, "driver:") {
				panic(r)
			}
			out["res"], out["msg"] = "panic", fmt.Sprint(r)
		}
	}()
	var err error
	var allow helpers.AllowList
	if !(len(e.Allow) == 1 && e.Allow[0] == -1) {
		allow = helpers.NewAllowList()
		for _, id := range e.Allow {
			allow.Insert(uint64(id))
		}
	}
	var ids []uint64
	var ds []float32
	search := false
	switch e.Op {
	case "open":
		s.cfg = e.Cfg
		err = s.open()
	case "add":
		for _, x := range e.Items {
			s.seen[x.ID] = true
			if err = s.idx.Add(x.ID, s.floats(x.V)); err != nil {
				break
			}
		}
	case "addempty":
		err = s.idx.Add(e.ID, nil)
	case "validate":
		err = s.idx.ValidateBeforeInsert(s.floats(e.V))
	case "delete":
		err = s.idx.Delete(e.IDs...)
	case "flush":
		err = s.idx.Flush(e.Count)
	case "count":
		var c uint64
		c, err = s.idx.GetDocCount()
		out["count"] = c
	case "reopen":
		if s.quit != nil {
			s.quit()
		}
		if err := s.kv.Reopen(); err != nil {
			panic("driver: " + err.Error())
		}
		err = s.open()
	case "update":
		s.cfg = e.Cfg
		uc := ent.NewDefaultUserConfig()
		mine := s.config()
		uc.MaxConnections, uc.EFConstruction, uc.EF, uc.FlatSearchCutoff = mine.MaxConnections, mine.EFConstruction, mine.EF, mine.FlatSearchCutoff
		uc.DynamicEFMin, uc.DynamicEFMax, uc.DynamicEFFactor = mine.DynamicEFMin, mine.DynamicEFMax, mine.DynamicEFFactor
		err = s.idx.(interface {
			UpdateUserConfig(schema.VectorIndexConfig, func()) error
		}).UpdateUserConfig(uc, func() {})
	case "dump":
		err = s.dump(out)
		if err == nil && s.logs != "" {
			out["log"], err = s.logged()
		}
	case "pause":
		m := s.idx.(maintained)
		s.paused = true
		if err = m.PauseMaintenance(soon()); err != nil {
			break
		}
		if err = m.SwitchCommitLogs(soon()); err != nil {
			break
		}
		s.listed = nil
		var files []string
		if files, err = m.ListFiles(soon()); err != nil {
			break
		}
		for _, f := range files {
			s.listed = append(s.listed, filepath.Join(s.logs, f))
		}
		if err = s.dump(out); err == nil {
			out["copy"], err = described(s.listed)
		}
	case "copy":
		out["copy"], err = described(s.listed)
	case "resume":
		s.paused = false
		err = s.idx.(maintained).ResumeMaintenance(soon())
	case "knn":
		search = true
		ids, ds, err = s.idx.SearchByVector(s.floats(e.Q), e.K, allow)
	case "range":
		search = true
		ids, ds, err = s.idx.KnnSearchByVectorMaxDist(s.floats(e.Q), s.bound(e), e.EF, allow)
	case "dist":
		search = true
		ids, ds, err = s.idx.SearchByVectorDistance(s.floats(e.Q), s.bound(e), -1, allow)
	default:
		panic("driver: operation " + e.Op)
	}
	if search {
		if err == nil && len(ids) != len(ds) {
			out["res"], out["msg"] = "panic", fmt.Sprintf("%d ids but %d distances", len(ids), len(ds))
			return
		}
		out["hits"] = s.hits(ids, ds)
	}
	if err != nil {
		out["res"], out["msg"] = "err", err.Error()
		return
	}
	out["res"] = "ok"
}

var number int

func replay(sc schedule) ([]M, error) {
	s := &state{rep: sc.Rep, seen: map[uint64]bool{}}
	if s.rep < 1 {
		s.rep = 1
	}
	if sc.Log {
		s.maint = sc.Maint
		s.logs = filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("log%d", number))
		number++
		if err := os.MkdirAll(s.logs, 0o777); err != nil {
			return nil, err
		}
		defer os.RemoveAll(s.logs)
		defer func() {
			if s.quit != nil {
				s.quit()
			}
		}()
	}
	err := vs.Guard(func() (err error) { s.kv, err = vs.NewKV(); return err })
	for i := 0; err != nil && i < 5; i++ {
		err = vs.Guard(func() (err error) { s.kv, err = vs.NewKV(); return err })
	}
	if err != nil {
		return nil, err
	}
	var out []M
	for _, raw := range sc.Events {
		var e event
		ev := M{}
		if err := json.Unmarshal(raw, &e); err != nil {
			return nil, err
		}
		if err := json.Unmarshal(raw, &ev); err != nil {
			return nil, err
		}
		t0 := time.Now()
		s.run(e, ev)
		ev["ms"] = time.Since(t0).Milliseconds()
		out = append(out, ev)
		if ev["res"] == "panic" {
			break
		}
	}
	return out, nil
}

func TestReplay(t *testing.T) {
	in, outp := os.Getenv("VERIF_SCHED"), os.Getenv("VERIF_TRACE")
	if in == "" {
		t.Skip("no schedule")
	}
	vs.Silence()
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	o, err := os.Create(outp)
	if err != nil {
		t.Fatal(err)
	}
	defer o.Close()
	w := bufio.NewWriter(o)
	defer w.Flush()
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<28)
	for s.Scan() {
		var sc schedule
		if err := json.Unmarshal(s.Bytes(), &sc); err != nil {
			t.Fatal(err)
		}
		evs, err := replay(sc)
		if err != nil {
			t.Fatalf("driver: %v", err)
		}
		b, err := json.Marshal(M{"events": evs})
		if err != nil {
			t.Fatal(err)
		}
		w.Write(b)
		w.WriteByte('\n')
	}
}
