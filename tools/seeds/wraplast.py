PROPERTY = "P21"
NEEDS = "a visited list reset 255 times, asked about a number beyond 1023"
BREAKS = "a number visited 255 resets ago counts as visited"
EDITS = [("pkg/hnsw/visited/list_set.go", "		for i := range l.set {\n			l.set[i] = 0\n		}", "		for i := range l.set[:min(len(l.set), 1024)] {\n			l.set[i] = 0\n		}")]
IMPORTS = ['"testing"', '"github.com/fairDataSociety/FaVe/pkg/hnsw/visited"']
DEMO = """
func TestDemo(t *testing.T) {
	l := visited.NewList(3000)
	top := uint64(2500)
	for i := 0; i < 1200; i++ {
		if l.Visited(top) {
			t.Fatalf("visited after %d resets", i)
		}
		if i == 0 {
			l.Visit(top)
		}
		l.Reset()
	}
}
"""
BARE = "nostack"
