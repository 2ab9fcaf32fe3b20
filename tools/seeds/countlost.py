PROPERTY = "P06"
NEEDS = "the write of the document count failing, then a restart and another batch"
BREAKS = "the batch is acknowledged although its ids are handed out again after a restart, so later vectors overwrite the graph nodes of acknowledged documents"
EDITS = [("pkg/hnsw/insert.go", """	if err != nil {
		return errors.Wrapf(err, "put count %d", h.entryPointID)
	}
	return h.commitLog.Flush()
""", """	if err != nil {
		h.logger.WithField("action", "hnsw_flush").WithError(err).Warn("put count")
	}
	return h.commitLog.Flush()
""")]
IMPORTS = ['"fmt"', '"testing"']
DEMO = """
func TestDemo(t *testing.T) {
	for k := 1; k < 60; k++ {
		e := start(t)
		create(t, e, "c")
		add(t, e, "c", doc("a", 1, 0, 0))
		e.Store.ArmFault(k, 1)
		err := e.C.AddDocuments("c", []string{"title"}, doc("b", 0, 1, 0), doc("d", 0, 0, 1))
		fired := e.Store.Disarm() > 0
		if err == nil {
			restart(t, e)
			add(t, e, "c", doc("x", 1, 1, 0), doc("y", 0, 1, 1))
			got := near(t, e, "c", 2, 1, 0, 1, 0)
			want(t, fmt.Sprintf("write %d failing (%v): nearest", k, fired), got, []string{"b@0.000"})
		}
	}
}
"""
