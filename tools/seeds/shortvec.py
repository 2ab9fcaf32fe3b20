PROPERTY = "P05"
NEEDS = "a batch with a document without a vector followed by one whose vector is shorter than those of the collection"
BREAKS = "a batch of another dimension is not refused before anything is changed: what comes before the vector in the batch is stored"
EDITS = [("pkg/hnsw/insert.go", "	if len(existingNodeVector) != len(vector) {", "	if len(existingNodeVector) < len(vector) {")]
DEMO = """
func TestDemo(t *testing.T) {
	e := start(t)
	create(t, e, "c")
	add(t, e, "c", doc("a", 1, 0, 0), doc("b", 0, 1, 0))
	if err := e.C.AddDocuments("c", nil, doc("y"), doc("x", 1, 0)); err == nil {
		t.Fatal("a vector of another dimension was acknowledged")
	}
	if _, err := e.C.GetDocument("c", "id", "y"); err == nil {
		t.Fatal("a document of the rejected batch is stored")
	}
	want(t, "search", near(t, e, "c", 2, 5, 1, 0, 0), []string{"a@0.000", "b@1.000"})
	add(t, e, "c", doc("d", 0, 0, 1))
	want(t, "search", near(t, e, "c", 0.5, 5, 0, 0, 1), []string{"d@0.000"})
}
"""
