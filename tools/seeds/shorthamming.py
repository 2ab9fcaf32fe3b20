PROPERTY = "P23"
NEEDS = "the hamming distance of two vectors of which the second is the longer one"
BREAKS = "vectors of different dimensions get a distance instead of an error"
EDITS = [("pkg/hnsw/distancer/hamming.go", "func (l HammingProvider) SingleDist(a, b []float32) (float32, bool, error) {\n	if len(a) != len(b) {", "func (l HammingProvider) SingleDist(a, b []float32) (float32, bool, error) {\n	if len(a) > len(b) {")]
IMPORTS = ['"testing"', '"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"']
DEMO = """
func TestDemo(t *testing.T) {
	if d, _, err := distancer.NewHammingProvider().SingleDist([]float32{1, 2}, []float32{1, 2, 3}); err == nil {
		t.Fatal(d)
	}
}
"""
BARE = "nostack"
