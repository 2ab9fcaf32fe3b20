PROPERTY = "P12"
NEEDS = "two texts that differ only in case or in surrounding space, for which the service answers differently"
BREAKS = "the second text is indexed or searched by the embedding of the first"
EDITS = [("pkg/vectorizer/rest/vectorizer.go", """type Vectorizer struct {
	url string
}
""", """type Vectorizer struct {
	url   string
	known sync.Map // answers by normalised text
}
"""), ("pkg/vectorizer/rest/vectorizer.go", """	data := map[string][]string{
		"query": text,
	}
""", """	key := strings.ToLower(strings.TrimSpace(strings.Join(text, "\\n")))
	if v, ok := v.known.Load(key); ok {
		return v.(*vctrzr.Vector), nil
	}
	data := map[string][]string{
		"query": text,
	}
"""), ("pkg/vectorizer/rest/vectorizer.go", """	vector := vctrzr.NewVector(result["vector"])
	return &vector, nil
""", """	vector := vctrzr.NewVector(result["vector"])
	v.known.Store(key, &vector)
	return &vector, nil
"""), ("pkg/vectorizer/rest/vectorizer.go", """	"net/http"
	"time"
""", """	"net/http"
	"strings"
	"sync"
	"time"
""")]
IMPORTS = ['"testing"', '"strings"', '"encoding/json"']
DEMO = """
func TestDemo(t *testing.T) {
	vecOf = func(s string) []float32 {
		if strings.HasPrefix(s, "Polish") {
			return []float32{1, 0}
		}
		return []float32{0, 1}
	}
	e := start(t)
	create(t, e, "c")
	a, b := doc("a"), doc("b")
	a.Properties["title"], b.Properties["title"] = "Polish", "polish"
	add(t, e, "c", a, b)
	for text, id := range map[string]string{"Polish": "a", "polish": "b"} {
		raw, ds, err := e.C.GetNearDocuments("c", text, 2, 1)
		if err != nil {
			t.Fatal(err)
		}
		m := map[string]interface{}{}
		if err := json.Unmarshal(raw[0], &m); err != nil {
			t.Fatal(err)
		}
		if m["id"] != id || ds[0] > 0.001 {
			t.Fatalf("nearest to %s: %v at %v", text, m["id"], ds[0])
		}
	}
}
"""
