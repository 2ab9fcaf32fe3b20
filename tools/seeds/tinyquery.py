PROPERTY = "P02"
NEEDS = "a query vector of very small length"
BREAKS = "a query vector of small length is taken for the zero vector, so every hit is shown at distance 1 and nearer documents are lost"
EDITS = [("pkg/hnsw/distancer/normalize.go", "	if norm == 0 {", "	if norm < 1e-6 {")]
DEMO = """
func TestDemo(t *testing.T) {
	e := start(t)
	create(t, e, "c")
	add(t, e, "c", doc("a", 1, 0, 0), doc("b", 0, 1, 0))
	want(t, "search", near(t, e, "c", 0.5, 5, 0.0001, 0, 0), []string{"a@0.000"})
}
"""
