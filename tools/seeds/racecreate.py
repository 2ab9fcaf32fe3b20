PROPERTY = "P11"
NEEDS = "two batches added to one collection at the same time, where one of them has a document with a text to be embedded"
BREAKS = "the next free index id is read before the lock is taken, so two concurrent batches hand out the same ids and documents are answered with each other's vector"
EDITS = [("pkg/document/document.go", """	// ids are handed out by the current count, one batch at a time
	c.lock.Lock()
	defer c.lock.Unlock()

	index, err := c.openCollection(namespacedCollection)
	if err != nil {
		return err
	}
	count, err := index.GetDocCount()
	if err != nil {
		return err
	}
""", """	c.lock.RLock()
	index, err := c.openCollection(namespacedCollection)
	if err != nil {
		c.lock.RUnlock()
		return err
	}
	count, err := index.GetDocCount()
	c.lock.RUnlock()
	if err != nil {
		return err
	}

	// one batch at a time
	c.lock.Lock()
	defer c.lock.Unlock()
""")]
IMPORTS = ['"testing"', '"fmt"', '"sync"']
DEMO = """
func TestDemo(t *testing.T) {
	e := start(t)
	for round := 0; round < 20; round++ {
		c := fmt.Sprint("c", round, "x")
		create(t, e, c)
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				if err := e.C.AddDocuments(c, nil, doc(fmt.Sprint("d", i), float32(i), 1)); err != nil {
					t.Error(err)
				}
			}(i)
		}
		wg.Wait()
		for i := 0; i < 4; i++ {
			want(t, "nearest", near(t, e, c, 2, 1, float32(i), 1), fmt.Sprintf("[d%d@0.000]", i))
		}
	}
}
"""
