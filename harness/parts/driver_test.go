// Package partsdrv replays schedules produced from the specifications of the small
// parts of the index (queues, visited lists, distances, settings) into the real code
// and records what it answered.
package partsdrv

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	h "github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
	pq "github.com/fairDataSociety/FaVe/pkg/hnsw/priorityqueue"
	"github.com/fairDataSociety/FaVe/pkg/hnsw/visited"
	wd "github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
	ent "github.com/weaviate/weaviate/entities/vectorindex/hnsw"
)

type M = map[string]interface{}

type setting struct {
	K    string      `json:"k"`
	Kind string      `json:"kind"`
	V    interface{} `json:"v"`
}

type event struct {
	Op      string          `json:"op"`
	Kind    string          `json:"kind"`
	Max     bool            `json:"max"`
	Cap     int             `json:"cap"`
	Want    int             `json:"want"`
	ID      uint64          `json:"id"`
	Idx     uint64          `json:"idx"`
	D       int             `json:"d"`
	H       int             `json:"h"`
	N       int             `json:"n"`
	Size    int             `json:"size"`
	Nodes   json.RawMessage `json:"nodes"`
	Ask     []uint64        `json:"ask"`
	Workers int             `json:"workers"`
	Rounds  int             `json:"rounds"`
	Metric  string          `json:"metric"`
	How     string          `json:"how"`
	Cut     int             `json:"cut"`
	A       []int           `json:"a"`
	B       []int           `json:"b"`
	V       []int           `json:"v"`
	Rep     int             `json:"rep"`
	Exp     int             `json:"exp"`
	P       []int           `json:"p"`
	Q       []int           `json:"q"`
	Shape   string          `json:"shape"`
	Given   []setting       `json:"given"`
	Old     []setting       `json:"old"`
	New     []setting       `json:"new"`
	Missing []string        `json:"missing"`
	Name    string          `json:"name"`

	Data    []int             `json:"data"`
	Rune    int               `json:"rune"`
	Bad     bool              `json:"bad"`
	Env     map[string]string `json:"env"`
	Known   map[string]string `json:"known"`
	Verbose bool              `json:"verbose"`
	Flag    string            `json:"flag"`
}

type schedule struct {
	Events []json.RawMessage `json:"events"`
	Scale  int               `json:"scale"`
}

type state struct {
	scale float64
	plain *pq.Queue
	index *pq.QueueWithIndex
	pool  *visited.Pool
	held  map[int]*visited.ListSet
	buf   target
}

func (s *state) dist(d int) float32 {
	switch d {
	case 1000000:
		return float32(math.Inf(1))
	case -1000000:
		return float32(math.Inf(-1))
	}
	return float32(float64(d) * s.scale)
}

func (s *state) undist(d float32) int {
	if math.IsInf(float64(d), 1) {
		return 1000000
	}
	if math.IsInf(float64(d), -1) {
		return -1000000
	}
	return int(math.Round(float64(d) / s.scale))
}

func (s *state) queue(e event, out M) {
	switch e.Op {
	case "new":
		s.plain, s.index = nil, nil
		switch {
		case e.Kind == "plain" && e.Max:
			s.plain = pq.NewMax(e.Cap)
		case e.Kind == "plain":
			s.plain = pq.NewMin(e.Cap)
		case e.Max:
			s.index = pq.NewMaxWithIndex(e.Cap)
		default:
			s.index = pq.NewMinWithIndex(e.Cap)
		}
	case "insert":
		if s.plain != nil {
			out["idx"] = 0
			s.plain.Insert(e.ID, s.dist(e.D))
		} else {
			s.index.Insert(e.ID, e.Idx, s.dist(e.D))
		}
	case "pop", "top":
		if s.plain != nil {
			it := s.plain.Top()
			if e.Op == "pop" {
				it = s.plain.Pop()
			}
			out["item"] = M{"id": it.ID, "idx": 0, "d": s.undist(it.Dist)}
		} else {
			it := s.index.Top()
			if e.Op == "pop" {
				it = s.index.Pop()
			}
			out["item"] = M{"id": it.ID, "idx": it.Index, "d": s.undist(it.Dist)}
		}
	case "len":
		if s.plain != nil {
			out["len"] = s.plain.Len()
		} else {
			out["len"] = s.index.Len()
		}
	case "reset":
		if s.plain != nil {
			s.plain.Reset()
		} else {
			s.index.Reset()
		}
	case "resetcap":
		if s.plain != nil {
			s.plain.ResetCap(e.Want)
			out["cap"] = s.plain.Cap()
		} else {
			s.index.ResetCap(e.Want)
			out["cap"] = s.index.Cap()
		}
	}
}

func nodes(e event) []uint64 {
	var n []uint64
	if err := json.Unmarshal(e.Nodes, &n); err != nil {
		panic("driver: " + err.Error())
	}
	return n
}

func (s *state) lists(e event, out M) {
	switch e.Op {
	case "pool":
		s.pool = visited.NewPool(e.N, e.Size)
	case "borrow":
		l := s.pool.Borrow()
		s.held[e.H] = &l
	case "list":
		l := visited.NewList(e.Size)
		s.held[e.H] = &l
	case "return":
		s.pool.Return(*s.held[e.H])
		delete(s.held, e.H)
	case "visit":
		for _, n := range nodes(e) {
			s.held[e.H].Visit(n)
		}
	case "scan":
		got := []uint64{}
		for _, n := range e.Ask {
			if s.held[e.H].Visited(n) {
				got = append(got, n)
			}
		}
		out["got"] = got
	case "resets":
		for i := 0; i < e.N; i++ {
			s.held[e.H].Reset()
		}
	case "destroy":
		s.pool.Destroy()
	case "par":
		var n int
		if err := json.Unmarshal(e.Nodes, &n); err != nil {
			panic("driver: " + err.Error())
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		runs := []M{}
		for w := 0; w < e.Workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for r := 0; r < e.Rounds; r++ {
					l := s.pool.Borrow()
					scan := func() []uint64 {
						got := []uint64{}
						for i := 0; i < n*e.Workers; i++ {
							if l.Visited(uint64(i)) {
								got = append(got, uint64(i))
							}
						}
						return got
					}
					before := scan()
					mine := []uint64{}
					for i := 0; i < n; i++ {
						l.Visit(uint64(w*n + i))
						mine = append(mine, uint64(w*n+i))
						runtime.Gosched()
					}
					after := scan()
					s.pool.Return(l)
					mu.Lock()
					runs = append(runs, M{"before": before, "mine": mine, "after": after})
					mu.Unlock()
				}
			}(w)
		}
		wg.Wait()
		out["runs"] = runs
	}
}

type provider interface {
	SingleDist(a, b []float32) (float32, bool, error)
	Step(x, y []float32) float32
	Wrap(x float32) float32
}

type distance interface {
	Distance(b []float32) (float32, bool, error)
}

func dist(e event, out M) {
	f := math.Pow(2, float64(e.Exp))
	if e.Metric == "cosine" {
		f = 1
	}
	floats := func(v []int) []float32 {
		r := make([]float32, len(v))
		for i, x := range v {
			r[i] = float32(float64(x) * f)
		}
		return r
	}
	a, b := floats(e.A), floats(e.B)
	var p provider
	var n func(v []float32) distance
	back := 1.0
	switch e.Metric {
	case "cosine":
		x := distancer.NewCosineDistanceProvider()
		p, n = x, func(v []float32) distance { return x.New(v) }
	case "dot":
		x := distancer.NewDotProductProvider()
		p, n, back = x, func(v []float32) distance { return x.New(v) }, f*f
	case "l2":
		x := distancer.NewL2SquaredProvider()
		p, n, back = x, func(v []float32) distance { return x.New(v) }, f*f
	case "manhattan":
		x := distancer.NewManhattanProvider()
		p, n, back = x, func(v []float32) distance { return x.New(v) }, f
	case "hamming":
		x := distancer.NewHammingProvider()
		p, n = x, func(v []float32) distance { return x.New(v) }
	}
	var d float32
	var ok bool
	var err error
	switch e.How {
	case "single":
		d, ok, err = p.SingleDist(a, b)
	case "swap":
		d, ok, err = p.SingleDist(b, a)
	case "new":
		d, ok, err = n(a).Distance(b)
	case "step":
		d, ok = p.Wrap(p.Step(a[:e.Cut], b[:e.Cut])+p.Step(a[e.Cut:], b[e.Cut:])), true
	}
	if err != nil || !ok {
		out["res"] = "err"
		return
	}
	out["d"] = int64(math.Round(float64(d) / back * 1000))
}

func norm(e event, out M) {
	f := math.Pow(2, float64(e.Exp))
	v := []float32{}
	want := []int{}
	for i := 0; i < e.Rep; i++ {
		for _, x := range e.V {
			v = append(v, float32(float64(x)*f))
			want = append(want, x)
		}
	}
	r := distancer.Normalize(v)
	got := make([]int64, len(r))
	for i, x := range r {
		y := math.Round(float64(x) * 9000 * math.Sqrt(float64(e.Rep)))
		if math.IsNaN(y) || math.Abs(y) > 1e9 {
			y = 1e9
		}
		got[i] = int64(y)
	}
	out["v"] = want
	out["out"] = got
}

func geo(e event, out M) {
	a, b := []float32{float32(e.P[0]), float32(e.P[1])}, []float32{float32(e.Q[0]), float32(e.Q[1])}
	p := distancer.NewGeoProvider()
	var d float32
	var ok bool
	var err error
	if e.How == "single" {
		d, ok, err = p.SingleDist(a, b)
	} else {
		d, ok, err = p.New(a).Distance(b)
	}
	out["nan"] = false
	if err != nil || !ok {
		out["res"] = "err"
		return
	}
	if math.IsNaN(float64(d)) || math.IsInf(float64(d), 0) || d < 0 || d > 1e8 {
		out["nan"] = true
		return
	}
	out["m"] = int64(math.Round(float64(d)))
	out["cos"] = int64(math.Round(10000 * math.Cos(float64(d)/6371e3)))
}

func value(g setting) interface{} {
	i := int64(0)
	if f, ok := g.V.(float64); ok {
		i = int64(f)
	}
	switch g.Kind {
	case "num":
		return json.Number(strconv.FormatInt(i, 10))
	case "float":
		return float64(i)
	case "huge":
		return json.Number("9223372036854775808")
	case "bad":
		return json.Number("12x")
	}
	return g.V
}

func config(e event, out M) {
	var err error
	switch e.Op {
	case "parse":
		var in interface{}
		switch e.Shape {
		case "nil":
		case "list":
			in = []interface{}{}
		case "nilmap":
			in = map[string]interface{}(nil)
		default:
			m := M{}
			for _, g := range e.Given {
				at := m
				parts := strings.Split(g.K, ".")
				for _, p := range parts[:len(parts)-1] {
					if at[p] == nil {
						at[p] = M{}
					}
					at = at[p].(M)
				}
				at[parts[len(parts)-1]] = value(g)
			}
			in = m
		}
		var r interface{}
		r, err = h.ParseAndValidateConfig(in)
		if err == nil {
			u := r.(h.UserConfig)
			out["out"] = M{"cleanupIntervalSeconds": fmt.Sprint(u.CleanupIntervalSeconds), "maxConnections": fmt.Sprint(u.MaxConnections),
				"efConstruction": fmt.Sprint(u.EFConstruction), "ef": fmt.Sprint(u.EF), "dynamicEfMin": fmt.Sprint(u.DynamicEFMin),
				"dynamicEfMax": fmt.Sprint(u.DynamicEFMax), "dynamicEfFactor": fmt.Sprint(u.DynamicEFFactor),
				"vectorCacheMaxObjects": fmt.Sprint(u.VectorCacheMaxObjects), "flatSearchCutoff": fmt.Sprint(u.FlatSearchCutoff),
				"distance": u.Distance, "skip": boolText(u.Skip), "pq.enabled": boolText(u.PQ.Enabled), "pq.bitCompression": boolText(u.PQ.BitCompression),
				"pq.segments": fmt.Sprint(u.PQ.Segments), "pq.centroids": fmt.Sprint(u.PQ.Centroids),
				"pq.encoder.type": u.PQ.Encoder.Type, "pq.encoder.distribution": u.PQ.Encoder.Distribution}
		}
	case "update":
		err = h.ValidateUserConfigUpdate(entConfig(e.Old), entConfig(e.New))
	case "validate":
		c := h.Config{RootPath: "r", ID: "i", MakeCommitLoggerThunk: h.MakeNoopCommitLogger, DistanceProvider: wd.NewCosineDistanceProvider(),
			VectorForIDThunk: func(ctx context.Context, id uint64) ([]float32, error) { return nil, nil }}
		for _, m := range e.Missing {
			switch m {
			case "id":
				c.ID = ""
			case "root":
				c.RootPath = ""
			case "log":
				c.MakeCommitLoggerThunk = nil
			case "vector":
				c.VectorForIDThunk = nil
			case "distance":
				c.DistanceProvider = nil
			}
		}
		err = c.Validate()
	case "encoder":
		_, err = h.ValidEncoder(e.Name)
	case "distribution":
		_, err = h.ValidEncoderDistribution(e.Name)
	}
	if err != nil {
		out["res"] = "err"
	}
}

func boolText(b bool) string { return strings.ToUpper(strconv.FormatBool(b)) }

func entConfig(gs []setting) ent.UserConfig {
	u := ent.UserConfig{}
	u.SetDefaults()
	for _, g := range gs {
		i := int(g.V.(float64))
		switch g.K {
		case "cleanupIntervalSeconds":
			u.CleanupIntervalSeconds = i
		case "maxConnections":
			u.MaxConnections = i
		case "efConstruction":
			u.EFConstruction = i
		case "ef":
			u.EF = i
		case "dynamicEfMin":
			u.DynamicEFMin = i
		case "dynamicEfMax":
			u.DynamicEFMax = i
		case "dynamicEfFactor":
			u.DynamicEFFactor = i
		case "vectorCacheMaxObjects":
			u.VectorCacheMaxObjects = i
		case "flatSearchCutoff":
			u.FlatSearchCutoff = i
		}
	}
	return u
}

// run does one call; a call that does not come back within a minute is recorded as a panic.
func (s *state) run(e event, out M) {
	done := make(chan M, 1)
	go func() {
		o := M{"res": "ok"}
		defer func() {
			if r := recover(); r != nil {
				if m := fmt.Sprint(r); strings.HasPrefix(m, "driver:") {
					panic(r)
				}
				o = M{"res": "panic", "msg": fmt.Sprint(r)}
			}
			done <- o
		}()
		switch e.Op {
		case "new", "insert", "pop", "top", "len", "reset", "resetcap":
			s.queue(e, o)
		case "bopen", "breset", "bwrite", "bstring", "bbyte", "brune", "bflush":
			s.buf.do(e, o)
		case "server":
			server(e, o)
		case "dist":
			dist(e, o)
		case "norm":
			norm(e, o)
		case "geo":
			geo(e, o)
		case "parse", "update", "validate", "encoder", "distribution":
			config(e, o)
		default:
			s.lists(e, o)
		}
	}()
	select {
	case o := <-done:
		for k, v := range o {
			out[k] = v
		}
	case <-time.After(time.Minute):
		out["res"], out["msg"] = "panic", "the call does not return"
	}
}

func TestReplay(t *testing.T) {
	in, err := os.Open(os.Getenv("VERIF_SCHED"))
	if err != nil {
		t.Fatal(err)
	}
	defer in.Close()
	out, err := os.Create(os.Getenv("VERIF_TRACE"))
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	sc := bufio.NewScanner(in)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		var sch schedule
		if err := json.Unmarshal(sc.Bytes(), &sch); err != nil {
			t.Fatal("driver: ", err)
		}
		s := &state{scale: math.Pow(2, float64(sch.Scale)), held: map[int]*visited.ListSet{}}
		evs := []M{}
		for _, raw := range sch.Events {
			var e event
			m := M{}
			if err := json.Unmarshal(raw, &e); err != nil {
				t.Fatal("driver: ", err, string(raw))
			}
			if err := json.Unmarshal(raw, &m); err != nil {
				t.Fatal(err)
			}
			s.run(e, m)
			evs = append(evs, m)
			if m["res"] == "panic" {
				break
			}
		}
		b, _ := json.Marshal(M{"events": evs})
		out.Write(append(b, '\n'))
	}
}
