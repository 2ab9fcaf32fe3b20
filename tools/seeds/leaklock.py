PROPERTY = "P11"
NEEDS = "an addition of a batch with a vector of another dimension while other requests are made"
BREAKS = "the lock is kept when a batch is refused for its dimension, so every later request hangs"
EDITS = [("pkg/document/document.go", """	c.lock.Lock()
	defer c.lock.Unlock()

	index, err := c.openCollection(namespacedCollection)
	if err != nil {
		return err
	}
	count, err := index.GetDocCount()
	if err != nil {
		return err
	}
""", """	c.lock.Lock()

	index, err := c.openCollection(namespacedCollection)
	if err != nil {
		c.lock.Unlock()
		return err
	}
	count, err := index.GetDocCount()
	if err != nil {
		c.lock.Unlock()
		return err
	}
"""), ("pkg/document/document.go", """	if addErr != nil {
		return addErr
	}
	return err
}
""", """	c.lock.Unlock()
	if addErr != nil {
		return addErr
	}
	return err
}
""")]
IMPORTS = ['"testing"', '"time"']
DEMO = """
func TestDemo(t *testing.T) {
	e := start(t)
	create(t, e, "c")
	add(t, e, "c", doc("a", 1, 0))
	if err := e.C.AddDocuments("c", nil, doc("b", 1, 0, 0)); err == nil {
		t.Fatal("acknowledged")
	}
	done := make(chan []string, 1)
	go func() { done <- near(t, e, "c", 2, 9, 1, 0) }()
	select {
	case got := <-done:
		want(t, "search", got, []string{"a@0.000"})
	case <-time.After(20 * time.Second):
		t.Fatal("a search after a refused batch does not return")
	}
}
"""
