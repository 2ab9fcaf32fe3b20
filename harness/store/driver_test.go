// Package storedrv replays schedules produced from the specification into the real
// document client and records what it answered.
package storedrv

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/fairDataSociety/FaVe/pkg/document"
	vs "github.com/fairDataSociety/FaVe/verifx/stack"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
)

const n = 81 // squared length of the specification's vectors

var scales = []float32{0, 1, 0.25, 3, 1.0 / 1024, 1000, 7.5, 1e-5, 1.0 / (1 << 40), 1 << 40, 1e-12, 1e-30, 1e25, 3e36}

type M = map[string]interface{}

type doc struct {
	ID   string `json:"id"`
	P    M      `json:"p"`
	Kind string `json:"kind"`
	V    []int  `json:"v"`
	Sc   int    `json:"sc"`
	Bad  string `json:"bad"`
}

type event struct {
	Op     string            `json:"op"`
	Coll   string            `json:"coll"`
	Idx    map[string]string `json:"idx"`
	Props  []string          `json:"props"`
	Docs   []doc             `json:"docs"`
	VFault interface{}       `json:"vfault"`
	VText  string            `json:"vtext"`
	VF     string            `json:"vf"`
	WFault int               `json:"wfault"`
	Crash  int               `json:"crash"` // the process is killed at this write
	Q      []int             `json:"q"`
	Sc     int               `json:"sc"`
	Text   string            `json:"text"`
	Max    int               `json:"max"`
	Edge   bool              `json:"edge"`
	Limit  int               `json:"limit"`
	Field  string            `json:"field"`
	Val    interface{}       `json:"val"`
	Thread int               `json:"thread"`
	Kind   string            `json:"kind"`
	raw    M
}

type schedule struct {
	Events []json.RawMessage `json:"events"`
	Emb    []struct {
		Text string `json:"text"`
		V    []int  `json:"v"`
	} `json:"emb"`
	Mode string `json:"mode"`
	Lift int    `json:"lift"` // dimension the vectors are carried in, 0: their own
	Num  int    `json:"num"`  // how the values of num are represented
	Rich bool   `json:"rich"` // awkward texts
}

// cur is the schedule being replayed (one at a time per process).
var cur schedule

// floats carries a vector of the specification over to the code: scaled, and
// mapped into the schedule's dimension by an isometry, which changes no angle.
func floats(v []int, sc int) []float32 {
	if cur.Lift == 0 || len(v) == 0 {
		out := make([]float32, len(v))
		for i, x := range v {
			out[i] = float32(x) * scales[sc]
		}
		return out
	}
	d := cur.Lift
	switch len(v) { // vectors of different dimensions stay different
	case 2:
		d++
	case 4:
		d += 2
	}
	// reflect at a fixed direction
	u := make([]float64, d)
	norm := 0.0
	for i := range u {
		u[i] = math.Sin(float64(i*i)*1.7+float64(d)) + 0.3
		norm += u[i] * u[i]
	}
	dot := 0.0
	pos := func(i int) int { return i * d / len(v) }
	for i, x := range v {
		dot += float64(x) * u[pos(i)]
	}
	out := make([]float32, d)
	for i := range out {
		out[i] = float32(-2 * u[i] * dot / norm * float64(scales[sc]))
	}
	for i, x := range v {
		j := pos(i)
		out[j] = float32((float64(x) - 2*u[j]*dot/norm) * float64(scales[sc]))
	}
	return out
}

var long = strings.Repeat("lorem ipsum dolor ", 300)

// words replaces some words of a text by awkward ones, and back.
func words(s string) string {
	if !cur.Rich {
		return s
	}
	return strings.NewReplacer("omega", "\u03a9\u2248 \"q\"\n<&>\\ \U0001F600", "gamma", long).Replace(s)
}

func unwords(s string) string {
	if !cur.Rich {
		return s
	}
	return strings.NewReplacer("\u03a9\u2248 \"q\"\n<&>\\ \U0001F600", "omega", long, "gamma").Replace(s)
}

// rich are the values behind the tokens #1, #2, ... of the specification.
var rich = []string{`true`, `false`, `0.1`, `-17.25`, `9007199254740991`, `""`, `"\u00fc \" \\ \n \u0000"`, `[]`, `{}`,
	`[1,"two",[3],{"four":null}]`, `{"a":{"b":{"c":[1,2,3]}},"id":"x","vector":[1]}`, `1e-9`, `"#3"`, `-1`, `"<script>&amp;"`, `[[0.5,-0.5],[]]`,
	`null`, `9007199254740993`, `12345678901234567890`, `[-9007199254740995,{"deep":0.123456789012345678}]`}

// exactly decodes JSON with its numbers as they are written.
func exactly(b []byte, v interface{}) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return d.Decode(v)
}

// doubles makes the numbers among the properties float64, save those of extra.
func doubles(m M) M {
	for k, v := range m {
		if x, ok := v.(json.Number); ok && k != "extra" {
			f, err := x.Float64()
			if err != nil {
				panic("driver: " + err.Error())
			}
			m[k] = f
		}
	}
	return m
}

// canonical writes a value such that equal values, and equal numbers in
// particular, read the same.
func canonical(v interface{}) string {
	switch x := v.(type) {
	case json.Number:
		if r, ok := new(big.Rat).SetString(x.String()); ok {
			return r.String()
		}
		return x.String()
	case []interface{}:
		s := "["
		for _, e := range x {
			s += canonical(e) + ","
		}
		return s + "]"
	case map[string]interface{}:
		keys := []string{}
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		s := "{"
		for _, k := range keys {
			s += fmt.Sprintf("%q:", k) + canonical(x[k]) + ","
		}
		return s + "}"
	}
	b, _ := json.Marshal(v)
	return string(b)
}

func token(s string) (interface{}, bool) {
	var k int
	if !strings.HasPrefix(s, "#") {
		return nil, false
	}
	if _, err := fmt.Sscanf(s, "#%d", &k); err != nil || k < 1 || k > len(rich) {
		return nil, false
	}
	var v interface{}
	if err := exactly([]byte(rich[k-1]), &v); err != nil {
		panic("driver: " + err.Error())
	}
	return v, true
}

func untoken(v interface{}) string {
	b := canonical(v)
	for i := range rich {
		var x interface{}
		_ = exactly([]byte(rich[i]), &x)
		if canonical(x) == b {
			return fmt.Sprintf("#%d", i+1)
		}
	}
	return "other value " + b
}

// number carries a value of num over, unnumber takes it back.
func number(x float64) float64 {
	switch cur.Num {
	case 1:
		return x * 331
	case 2:
		return x + 900000
	case 3:
		return -x - 7
	}
	return x
}

func unnumber(x float64) float64 {
	switch cur.Num {
	case 1:
		return x / 331
	case 2:
		return x - 900000
	case 3:
		return -x - 7
	}
	return x
}

func toCode(k string, v interface{}) interface{} {
	switch x := v.(type) {
	case string:
		if k == "extra" {
			if t, ok := token(x); ok {
				return t
			}
		}
		if k == "body" || k == "note" {
			return words(x)
		}
	case float64:
		if k == "num" {
			return number(x)
		}
	}
	return v
}

func toSpec(k string, v interface{}) interface{} {
	if k == "extra" {
		return untoken(v)
	}
	if v == nil {
		return "nothing"
	}
	switch x := v.(type) {
	case string:
		if k == "body" || k == "note" {
			return unwords(x)
		}
	case float64:
		if k == "num" {
			x = unnumber(x)
		}
		if x == math.Trunc(x) && math.Abs(x) < 1e9 {
			return int64(x)
		}
		return fmt.Sprint("number ", x)
	}
	return v
}

func generic(v []float32) []interface{} {
	out := make([]interface{}, len(v))
	for i, x := range v {
		// every form an element may come in
		switch (i + len(v) + int(math.Float32bits(x)>>20)) % 3 {
		case 0:
			out[i] = float64(x)
		case 1:
			out[i] = x
		case 2:
			out[i] = json.Number(strconv.FormatFloat(float64(x), 'g', -1, 64))
		}
	}
	return out
}

// scribble is what a caller may do with its own slice once a call returned.
func scribble(v []float32) {
	for i := range v {
		v[i] = float32(i%5) - 2
	}
}

var indexTypes = map[string]collection.IndexType{"string": collection.StringIndex, "number": collection.NumberIndex, "map": collection.MapIndex, "list": collection.ListIndex}

func typeName(t collection.IndexType) string {
	for k, v := range indexTypes {
		if v == t {
			return k
		}
	}
	return "other"
}

// target is what a schedule is replayed into.
type target interface {
	create(name string, idx map[string]string) error
	remove(name string) error
	list() ([]M, error)
	add(coll string, props []string, docs []*document.Document) error
	searchV(coll string, q []float32, dist float32, limit int) ([]M, []float32, error)
	searchT(coll string, text string, dist float32, limit int) ([]M, []float32, error)
	get(coll, field, val string) (M, error)
}

// direct calls the document client.
type direct struct{ c *document.Client }

func (d direct) create(name string, idx map[string]string) error {
	ix := map[string]collection.IndexType{}
	for f, t := range idx {
		if f != "id" && f != "hnswId" {
			ix[f] = indexTypes[t]
		}
	}
	return d.c.CreateCollection(&document.Collection{Name: name, Indexes: ix})
}
func (d direct) remove(name string) error { return d.c.DeleteCollection(name) }
func (d direct) list() ([]M, error) {
	cs, err := d.c.GetCollections()
	out := []M{}
	for _, c := range cs {
		idx := M{}
		for f, t := range c.Indexes {
			idx[f] = typeName(t)
		}
		out = append(out, M{"name": c.Name, "idx": idx})
	}
	return out, err
}
func (d direct) add(coll string, props []string, docs []*document.Document) error {
	var own [][]float32
	for _, doc := range docs {
		if doc != nil {
			if v, ok := doc.Properties["vector"].([]float32); ok {
				own = append(own, v)
			}
		}
	}
	err := d.c.AddDocuments(coll, props, docs...)
	for _, v := range own {
		scribble(v)
	}
	return err
}
func parse(raw [][]byte) ([]M, error) {
	out := []M{}
	for _, r := range raw {
		m := M{}
		if err := exactly(r, &m); err != nil {
			return nil, fmt.Errorf("unparsable document %q: %w", r, err)
		}
		out = append(out, doubles(m))
	}
	return out, nil
}
func (d direct) searchV(coll string, q []float32, dist float32, limit int) ([]M, []float32, error) {
	raw, ds, err := d.c.GetNearDocumentsByVector(coll, q, dist, limit)
	scribble(q)
	if err != nil {
		return nil, nil, err
	}
	ms, err := parse(raw)
	return ms, ds, err
}
func (d direct) searchT(coll string, text string, dist float32, limit int) ([]M, []float32, error) {
	raw, ds, err := d.c.GetNearDocuments(coll, text, dist, limit)
	if err != nil {
		return nil, nil, err
	}
	ms, err := parse(raw)
	return ms, ds, err
}
func (d direct) get(coll, field, val string) (M, error) {
	raw, err := d.c.GetDocument(coll, field, val)
	if err != nil {
		return nil, err
	}
	ms, err := parse([][]byte{raw})
	if err != nil {
		return nil, err
	}
	return ms[0], nil
}

// mistyped is a value that does not fit the index of a field.
func mistyped(f, seed string) interface{} {
	wrong := map[string][]interface{}{
		"title": {nil, 7.0, true, []interface{}{"t"}, M{"t": "t"}},
		"num":   {nil, "7", false, []interface{}{7.0}, M{"n": 7.0}},
		"tags":  {nil, "t", 7.0, []interface{}{"t", 7.0}, []interface{}{nil}, M{"t": "t"}},
		"attrs": {nil, "t", 7.0, []interface{}{"t"}, M{"k": 7.0}, M{"k": nil}},
	}[f]
	h := 0
	for _, c := range seed {
		h = h*31 + int(c)
	}
	return wrong[((h%len(wrong))+len(wrong))%len(wrong)]
}

func document_(d doc, fault string) *document.Document {
	if d.Bad == "noprops" {
		return &document.Document{ID: d.ID}
	}
	p := map[string]interface{}{}
	for k, v := range d.P {
		p[k] = toCode(k, v)
	}
	// what a client got from the store and sends again
	if rev, ok := d.P["rev"].(float64); ok {
		switch int(rev) % 6 {
		case 0:
			p["hnswId"] = math.Mod(rev, 9)
		case 1:
			p["id"] = "stranger"
		case 2:
			p["hnswId"], p["id"] = "none", d.ID
		}
	}
	out := &document.Document{ID: d.ID, Properties: p}
	if f, ok := strings.CutPrefix(d.Bad, "index-"); ok {
		p[f] = mistyped(f, d.ID+fmt.Sprint(d.P["rev"]))
	}
	if d.Kind == "vec" {
		v := floats(d.V, d.Sc)
		if d.Sc%2 == 0 {
			p["vector"] = generic(v)
		} else {
			p["vector"] = v
		}
		return out
	}
	switch d.Bad {
	case "type":
		p["vector"] = []int{1, 2, 3}
	case "empty":
		p["vector"] = []interface{}{}
	case "inf":
		p["vector"] = []interface{}{1e39, 1.0, 1.0}
	case "nan":
		p["vector"] = []float32{float32(math.NaN()), 1, 1}
	case "string":
		p["vector"] = "1,2,3"
	case "unjson":
		p["rev"] = math.Inf(1)
	case "element":
		p["vector"] = []interface{}{1.0, "x", 2.0}
	case "nonstring":
		for _, f := range []string{"body", "note", "title", "nosuch"} {
			p[f] = []interface{}{1.0}
		}
	}
	return out
}

func hit(m M) M {
	id, _ := m["id"].(string)
	p := M{}
	for k, v := range m {
		if k == "id" || k == "hnswId" {
			continue
		}
		p[k] = toSpec(k, v)
	}
	if len(p) == 0 {
		p["none"] = true
	}
	return M{"id": id, "p": p}
}

func fault(v *vs.Vectorizer, f string) {
	switch f {
	case "":
		v.Script(0, "")
	case "500":
		v.Script(500, `{"vector":[1,2,3]}`)
	case "404":
		v.Script(404, `{"vector":[1,2,3]}`)
	case "garbage":
		v.Script(0, "<html>")
	case "emptyvec":
		v.Script(0, `{"vector":[]}`)
	case "noobject":
		v.Script(0, `{"vector":"none"}`)
	case "hangup":
		v.Script(vs.Hangup, "")
	case "cut":
		v.Script(0, `{"vector":[1,2,2`)
	case "element":
		v.Script(0, `{"vector":[1,"x",2]}`)
	case "huge":
		v.Script(0, `{"vector":[1,1e39,2]}`)
	case "nokey":
		v.Script(0, `{"vectors":[1,2,2]}`)
	}
}

func milli(d float32) int64 {
	x := float64(d) * n * 1000
	if math.IsNaN(x) || x > 1e9 || x < -1e9 {
		return -1000000
	}
	return int64(math.Round(x))
}

// run performs one request and returns the event: the request with the answer.
func run(e event, tg target, v *vs.Vectorizer) (out M) {
	out = e.raw
	defer func() {
		if r := recover(); r != nil {
			out["res"] = "panic"
			out["msg"] = fmt.Sprint(r)
		}
	}()
	var err error
	switch e.Op {
	case "create":
		err = tg.create(e.Coll, e.Idx)
	case "delete":
		err = tg.remove(e.Coll)
	case "raw":
		if r, ok := tg.(interface{ raw(kind, coll string) error }); ok {
			err = r.raw(e.Kind, e.Coll)
		} else {
			err = errors.New("not applicable")
		}
	case "list":
		var cs []M
		cs, err = tg.list()
		if cs == nil {
			cs = []M{}
		}
		out["colls"] = cs
	case "add":
		docs := make([]*document.Document, len(e.Docs))
		for i, d := range e.Docs {
			docs[i] = document_(d, "")
			if f, ok := strings.CutPrefix(d.Bad, "index-"); ok {
				// the trace tells what is sent
				out["docs"].([]interface{})[i].(M)["p"].(M)[f] = toSpec(f, docs[i].Properties[f])
			}
		}
		if f, _ := e.VFault.(string); f != "" {
			fault(v, f)
			v.ScriptFor(words(e.VText))
			defer fault(v, "")
		}
		err = tg.add(e.Coll, e.Props, docs)
	case "search":
		var ms []M
		var ds []float32
		dist := (float32(e.Max) + 0.5) / n
		if e.Edge && cur.Lift == 0 {
			dist = float32(e.Max) / n
		} else {
			out["edge"] = false
		}
		if e.Text != "" {
			if e.VF != "" {
				fault(v, e.VF)
				defer fault(v, "")
			}
			ms, ds, err = tg.searchT(e.Coll, words(e.Text), dist, e.Limit)
		} else {
			ms, ds, err = tg.searchV(e.Coll, floats(e.Q, e.Sc), dist, e.Limit)
		}
		hits := []M{}
		if err == nil {
			if len(ms) != len(ds) {
				out["res"] = "panic"
				out["msg"] = fmt.Sprintf("%d documents but %d distances", len(ms), len(ds))
				return out
			}
			for i, m := range ms {
				h := hit(m)
				h["d"] = milli(ds[i])
				hits = append(hits, h)
			}
		}
		out["hits"] = hits
	case "get":
		val := fmt.Sprint(e.Val)
		if f, ok := e.Val.(float64); ok {
			if e.Field == "num" {
				f = number(f)
			}
			val = strconv.FormatFloat(f, 'f', -1, 64)
		}
		var m M
		m, err = tg.get(e.Coll, e.Field, val)
		if err == nil {
			h := hit(m)
			out["id"], out["p"] = h["id"], h["p"]
		}
	}
	if b := (errBroken{}); errors.As(err, &b) {
		out["res"] = "panic"
		out["msg"] = b.msg
	} else if err != nil {
		out["res"] = "err"
		out["msg"] = err.Error()
	} else {
		out["res"] = "ok"
	}
	return out
}

// hung: a request never returned, so nothing more is replayed in this process.
var hung atomic.Bool

// watch performs a request that is given time to return.
func watch(e event, tg target, v *vs.Vectorizer) M {
	limit := 60*time.Second + time.Duration(len(e.Docs))*2*time.Second
	req := M{}
	for k, x := range e.raw {
		req[k] = x
	}
	done := make(chan M, 1)
	go func() { done <- run(e, tg, v) }()
	select {
	case ev := <-done:
		return ev
	case <-time.After(limit):
		hung.Store(true)
		req["res"], req["msg"] = "panic", "the request does not return"
		if e.Op == "search" {
			req["hits"] = []M{}
		}
		return req
	}
}

func decode(raw json.RawMessage) (event, error) {
	var e event
	if err := json.Unmarshal(raw, &e); err != nil {
		return e, err
	}
	return e, json.Unmarshal(raw, &e.raw)
}

func replay(sc schedule) ([]M, error) {
	cur = sc
	clock.Store(0)
	table := map[string][]float32{}
	for _, x := range sc.Emb {
		table[words(x.Text)] = floats(x.V, 1)
	}
	v := vs.NewVectorizer(func(text string) []float32 { return table[text] })
	defer v.Close()
	env, err := vs.RetryEnv(v.URL())
	if err != nil {
		return nil, err
	}
	var tg target
	attach := func() error {
		if sc.Mode == "http" {
			if c, ok := tg.(interface{ close() }); ok {
				c.close()
			}
			tg, err = newHTTP(env)
			return err
		}
		tg = direct{env.C}
		return nil
	}
	if err := attach(); err != nil {
		return nil, err
	}
	defer func() {
		if c, ok := tg.(interface{ close() }); ok && !hung.Load() {
			c.close()
		}
	}()
	var out []M
	for i := 0; i < len(sc.Events); i++ {
		e, err := decode(sc.Events[i])
		if err != nil {
			return nil, err
		}
		if e.Op == "par" {
			evs, err := parallel(sc.Events[i], tg, v, env)
			if err != nil {
				return nil, err
			}
			out = append(out, evs...)
			if hung.Load() {
				break
			}
			continue
		}
		if e.Op == "restart" {
			r := e.raw
			r["res"] = "ok"
			r["inv"], r["ret"] = clock.Add(1), clock.Add(1)
			if err := vs.Guard(env.Start); err != nil {
				r["res"], r["msg"] = "err", err.Error()
				return append(out, r), nil
			}
			if err := attach(); err != nil {
				return nil, err
			}
			out = append(out, r)
			continue
		}
		if e.WFault != 0 {
			env.Store.ArmFault(e.WFault, 1)
		}
		if e.Crash != 0 {
			env.Store.ArmCrash(e.Crash)
		}
		inv := clock.Add(1)
		ev := watch(e, tg, v)
		ev["inv"], ev["ret"] = inv, clock.Add(1)
		if e.WFault != 0 {
			ev["writes"] = env.Store.Disarm()
		}
		if e.Crash != 0 {
			if env.Store.Disarm() >= e.Crash {
				ev["res"] = "lost"
			}
		}
		out = append(out, ev)
		if hung.Load() {
			break
		}
	}
	return out, nil
}

// flaky: the storage library's key handling failed, see vs.Guard
func flaky(evs []M) bool {
	for _, e := range evs {
		if m, ok := e["msg"].(string); ok && strings.Contains(m, "invalid point") {
			return true
		}
	}
	return false
}

func TestReplay(t *testing.T) {
	in, outp := os.Getenv("VERIF_SCHED"), os.Getenv("VERIF_TRACE")
	if in == "" {
		t.Skip("no schedule")
	}
	vs.Silence()
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	o, err := os.Create(outp)
	if err != nil {
		t.Fatal(err)
	}
	defer o.Close()
	w := bufio.NewWriter(o)
	defer w.Flush()
	s := bufio.NewScanner(f)
	s.Buffer(make([]byte, 1<<20), 1<<28)
	for n := 0; s.Scan(); n++ {
		if strings.TrimSpace(s.Text()) == "" {
			continue
		}
		fmt.Fprintf(os.Stderr, "\n=== schedule %d\n", n)
		var sc schedule
		if err := json.Unmarshal(s.Bytes(), &sc); err != nil {
			t.Fatal(err)
		}
		var evs []M
		for i := 0; i < 5 && !hung.Load(); i++ {
			evs, err = replay(sc)
			if !flaky(evs) {
				break
			}
		}
		if err != nil {
			t.Fatalf("driver: %v", err)
		}
		if evs == nil {
			evs = []M{}
		}
		b, err := json.Marshal(M{"events": evs})
		if err != nil {
			t.Fatal(err)
		}
		w.Write(b)
		w.WriteByte('\n')
	}
}
