PROPERTY = "P26"
NEEDS = "the process killed in the middle of adding a batch that crosses a multiple of 16 vectors"
BREAKS = "part of the interrupted batch is durable: documents without their graph nodes, index ids handed out twice"
EDITS = [("pkg/document/document.go", "				indexId++\n", "				indexId++\n				if indexId%16 == 0 {\n					_ = c.api.CommitPodFeeds(c.pod, c.sessionId)\n				}\n")]
IMPORTS = ['"fmt"', '"testing"', '"github.com/fairDataSociety/FaVe/pkg/document"']
DEMO = """
func TestDemo(t *testing.T) {
	e := start(t)
	create(t, e, "c")
	add(t, e, "c", doc("a", 1, 0, 0))
	for k := 4; ; k += 16 {
		docs := []*document.Document{}
		for i := 0; i < 40; i++ {
			docs = append(docs, doc(fmt.Sprintf("x%02d", i), 0, 1, 0))
		}
		e.Store.ArmCrash(k)
		_ = e.C.AddDocuments("c", []string{"title"}, docs...)
		if e.Store.Disarm() < k {
			return
		}
		restart(t, e)
		for _, d := range docs {
			if _, err := e.C.GetDocument("c", "id", d.ID); err == nil {
				t.Fatal("document of the interrupted batch: ", d.ID)
			}
		}
	}
}
"""
