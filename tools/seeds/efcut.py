IMPORTS = ['"testing"', '"fmt"']
PROPERTY = "P03"
NEEDS = "a collection of more than 48 vectors, all within the distance asked for"
BREAKS = "a search without a limit leaves out documents within the distance"
EDITS = [("pkg/hnsw/search_with_max_dist.go", "	res, err := h.searchLayerByVector(searchVec, eps, ef, 0, allowList)", "	res, err := h.searchLayerByVector(searchVec, eps, min(ef, 48), 0, allowList)")]
DEMO = """
func TestDemo(t *testing.T) {
	e := start(t)
	create(t, e, "c")
	for i := 0; i < 55; i++ {
		add(t, e, "c", doc(fmt.Sprintf("d%02d", i), 1, float32(i)/100, 0))
	}
	if n := len(near(t, e, "c", 0.9, 0, 1, 0, 0)); n != 55 {
		t.Fatal(n, "of 55 documents found")
	}
}
"""
