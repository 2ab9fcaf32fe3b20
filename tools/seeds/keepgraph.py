PROPERTY = "P08"
NEEDS = "a collection deleted by a process that has not used it yet (right after a restart), then created again with vectors of another dimension"
BREAKS = "the graph of the deleted collection survives and refuses the new collection's vectors"
EDITS = [("pkg/document/document.go", """		kvStore := c.podInfo.GetKVStore()

		err := kvStore.DeleteKVTable(""", """		c.hnswLock.Lock()
		_, loaded := c.indices[namespacedCollection]
		c.hnswLock.Unlock()
		if !loaded {
			return
		}
		kvStore := c.podInfo.GetKVStore()

		err := kvStore.DeleteKVTable(""")]
DEMO = """
func TestDemo(t *testing.T) {
	e := start(t)
	create(t, e, "c")
	add(t, e, "c", doc("a", 1, 0, 0), doc("b", 0, 1, 0))
	restart(t, e)
	if err := e.C.DeleteCollection("c"); err != nil {
		t.Fatal(err)
	}
	create(t, e, "c")
	add(t, e, "c", doc("x", 1, 0), doc("y", 0, 1))
	want(t, "search", near(t, e, "c", 2, 5, 1, 0), []string{"x@0.000", "y@1.000"})
}
"""
