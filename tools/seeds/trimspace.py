PROPERTY = "P07"
NEEDS = "two collections whose names differ only in a blank at the end, and a search of the one with the blank"
BREAKS = "a search of one collection answers with documents of another"
EDITS = [("pkg/document/document.go", """limit int) ([][]byte, []float32, error) {
	namespacedCollection := namespace + collection
""", """limit int) ([][]byte, []float32, error) {
	namespacedCollection := namespace + strings.TrimSpace(collection)
""")]
DEMO = """
func TestDemo(t *testing.T) {
	e := start(t)
	create(t, e, "c")
	create(t, e, "c ")
	add(t, e, "c", doc("a", 1, 0, 0))
	add(t, e, "c ", doc("b", 1, 0, 0))
	want(t, "search", near(t, e, "c ", 0.5, 5, 1, 0, 0), []string{"b@0.000"})
}
"""
