PROPERTY = "P04"
NEEDS = "documents added in several batches, then a restart"
BREAKS = "links added to nodes that were already stored are never written, so a restarted server cannot reach the documents of later batches"
EDITS = [("pkg/hnsw/neighbor_connections.go", """	neighbor.Committed = false
""", "")]
IMPORTS = ['"fmt"', '"testing"']
DEMO = """
func TestDemo(t *testing.T) {
	e := start(t)
	create(t, e, "c")
	for i := 0; i < 5; i++ {
		add(t, e, "c", doc(fmt.Sprint("d", i), 1, float32(i)))
	}
	before := near(t, e, "c", 2, 9, 1, 0)
	restart(t, e)
	want(t, "search after a restart", near(t, e, "c", 2, 9, 1, 0), before)
}
"""
