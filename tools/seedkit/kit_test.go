package demo

import (
	"encoding/json"
	"fmt"
	"math"
	"testing"

	"github.com/fairDataSociety/FaVe/pkg/document"
	vs "github.com/fairDataSociety/FaVe/verifx/stack"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
)

var _ = math.Abs
var vectorizer *vs.Vectorizer

// vecOf is what the embedding service answers.
var vecOf = func(text string) []float32 { return []float32{float32(len(text)), 1, 0} }

func start(t *testing.T) *vs.Env {
	vs.Silence()
	vectorizer = vs.NewVectorizer(func(s string) []float32 { return vecOf(s) })
	t.Cleanup(vectorizer.Close)
	e, err := vs.RetryEnv(vectorizer.URL())
	if err != nil {
		t.Fatal(err)
	}
	return e
}

func restart(t *testing.T, e *vs.Env) {
	if err := vs.Guard(e.Start); err != nil {
		t.Fatal(err)
	}
}

func create(t *testing.T, e *vs.Env, name string) {
	if err := e.C.CreateCollection(&document.Collection{Name: name, Indexes: map[string]collection.IndexType{"title": collection.StringIndex}}); err != nil {
		t.Fatal(err)
	}
}

func doc(id string, v ...float32) *document.Document {
	p := map[string]interface{}{"title": "title of " + id}
	if v != nil {
		p["vector"] = v
	}
	return &document.Document{ID: id, Properties: p}
}

func add(t *testing.T, e *vs.Env, coll string, docs ...*document.Document) {
	if err := e.C.AddDocuments(coll, []string{"title"}, docs...); err != nil {
		t.Fatal("add: ", err)
	}
}

// near returns the hits as "id@distance", the distance with three digits.
func near(t *testing.T, e *vs.Env, coll string, max float32, limit int, q ...float32) []string {
	raw, ds, err := e.C.GetNearDocumentsByVector(coll, q, max, limit)
	if err != nil {
		t.Fatal("search: ", err)
	}
	out := []string{}
	for i, r := range raw {
		m := map[string]interface{}{}
		if err := json.Unmarshal(r, &m); err != nil {
			t.Fatal(err)
		}
		if m["title"] != fmt.Sprint("title of ", m["id"]) {
			t.Fatalf("document %v has title %v", m["id"], m["title"])
		}
		out = append(out, fmt.Sprintf("%v@%.3f", m["id"], ds[i]))
	}
	return out
}

func want(t *testing.T, what string, got, exp interface{}) {
	if fmt.Sprint(got) != fmt.Sprint(exp) {
		t.Fatalf("%s: got %v, want %v", what, got, exp)
	}
}

var _ = want
