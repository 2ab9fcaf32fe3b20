PROPERTY = "P16"
NEEDS = "a vector added after a flush whose neighbours were flushed before, and a reopening of the index"
BREAKS = "links an already stored node gets later are not written by the next flush, so after reopening the later vectors cannot be reached"
EDITS = [("pkg/hnsw/neighbor_connections.go", """	defer neighbor.Unlock()
	neighbor.Committed = false
	if level > neighbor.Level {
""", """	defer neighbor.Unlock()
	if level > neighbor.Level {
		neighbor.Committed = false
""")]
DEMO = """
func TestDemo(t *testing.T) {
	e := start(t)
	create(t, e, "c")
	add(t, e, "c", doc("a", 1, 0, 0))
	add(t, e, "c", doc("b", 0, 1, 0))
	restart(t, e)
	want(t, "search", near(t, e, "c", 0.5, 5, 0, 1, 0), []string{"b@0.000"})
}
"""
