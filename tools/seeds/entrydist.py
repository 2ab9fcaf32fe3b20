PROPERTY = "P02"
NEEDS = "an index grown to more than one level in the running process (a few dozen vectors; levels are not rebuilt after a restart) and a query whose descent ends at another node than the entrypoint"
BREAKS = "the node a search descends to is reported with the distance of the node it started from, so a hit shows a wrong distance, is out of place, or is dropped by the distance limit"
EDITS = [("pkg/hnsw/search_with_max_dist.go", """			entryPointID = best.ID
			entryPointDistance = best.Dist
""", """			entryPointID = best.ID
""")]
IMPORTS = ['"fmt"', '"testing"', '"github.com/fairDataSociety/FaVe/pkg/document"', '"math"']
DEMO = """
func TestDemo(t *testing.T) {
	e := start(t)
	create(t, e, "c")
	docs := []*document.Document{}
	vec := func(i int) []float32 { a := float64(i) * 0.015; return []float32{float32(math.Cos(a)), float32(math.Sin(a))} }
	for i := 0; i < 400; i++ {
		docs = append(docs, doc(fmt.Sprintf("d%03d", i), vec(i)...))
	}
	add(t, e, "c", docs...)
	for i := 0; i < 400; i += 7 {
		for _, h := range near(t, e, "c", 2, 0, vec(i)...) {
			var j int
			var d float64
			if _, err := fmt.Sscanf(h, "d%d@%f", &j, &d); err != nil {
				t.Fatal(err)
			}
			if true := 1 - math.Cos(float64(i-j)*0.015); math.Abs(d-true) > 0.01 {
				t.Fatalf("document %d is %f from %d, not %f", j, true, i, d)
			}
		}
	}
}
"""
