PROPERTY = "P09"
NEEDS = "a document looked up by a text with spaces at its end"
BREAKS = "spaces around the value asked for are dropped: a lookup of a text no document has returns the document with the trimmed text"
EDITS = [("pkg/document/document.go", """	expr := ""
	if property != "" && value != "" {""", """	expr := ""
	value = strings.TrimSpace(value)
	if property != "" && value != "" {""")]
DEMO = """
func TestDemo(t *testing.T) {
	e := start(t)
	create(t, e, "c")
	add(t, e, "c", doc("a", 1, 0))
	if _, err := e.C.GetDocument("c", "title", "title of a"); err != nil {
		t.Fatal(err)
	}
	if got, err := e.C.GetDocument("c", "title", "title of a "); err == nil {
		t.Fatalf("another document is returned: %s", got)
	}
}
"""
