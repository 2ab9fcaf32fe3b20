PROPERTY = "P08"
NEEDS = "a collection that was used, deleted and created again in one process (two sites that each look harmless)"
BREAKS = "the new collection goes on using the deleted one's graph: vectors of another dimension are refused, old vectors crowd out hits"
EDITS = [("pkg/document/document.go", """	c.hnswLock.Lock()
	c.indices[namespacedCollection] = index
	c.hnswLock.Unlock()
""", """	c.hnswLock.Lock()
	if _, ok := c.indices[namespacedCollection]; !ok {
		c.indices[namespacedCollection] = index
	}
	c.hnswLock.Unlock()
"""), ("pkg/document/document.go", """	wg.Wait()
	c.hnswLock.Lock()
	delete(c.indices, namespacedCollection)
	c.hnswLock.Unlock()
""", """	wg.Wait()
""")]
DEMO = """
func TestDemo(t *testing.T) {
	e := start(t)
	create(t, e, "c")
	add(t, e, "c", doc("a", 1, 0, 0), doc("b", 0, 1, 0))
	if err := e.C.DeleteCollection("c"); err != nil {
		t.Fatal(err)
	}
	create(t, e, "c")
	want(t, "search of the new collection", near(t, e, "c", 2, 5, 1, 0), []string{})
	add(t, e, "c", doc("x", 1, 0), doc("y", 0, 1))
	want(t, "search", near(t, e, "c", 2, 5, 1, 0), []string{"x@0.000", "y@1.000"})
}
"""
