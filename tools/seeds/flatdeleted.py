exec(open("/verif/tools/seeds/onelink.py").read())
PROPERTY = "P25"
NEEDS = "a search restricted to fewer ids than the flat-search cutoff, some of them deleted"
BREAKS = "a search restricted to a short list of ids returns deleted vectors"
EDITS = [("pkg/hnsw/flat_search.go", "		if c == nil || h.hasTombstone(candidate) {", "		if c == nil {")]
IMPORTS = ['"testing"', 'h "github.com/fairDataSociety/FaVe/pkg/hnsw"', '"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"', 'vs "github.com/fairDataSociety/FaVe/verifx/stack"', '"github.com/weaviate/weaviate/adapters/repos/db/helpers"']
DEMO = KVOPEN + """
func TestDemo(t *testing.T) {
	_, idx := open(t, 16)
	for i := 0; i < 10; i++ {
		if err := idx.Add(uint64(i), []float32{1, float32(i), 2}); err != nil {
			t.Fatal(err)
		}
	}
	if err := idx.Flush(10); err != nil {
		t.Fatal(err)
	}
	if err := idx.Delete(4); err != nil {
		t.Fatal(err)
	}
	ids, _, err := idx.SearchByVector([]float32{1, 4, 2}, 3, helpers.NewAllowList(3, 4, 5))
	if err != nil {
		t.Fatal(err)
	}
	if len(ids) != 2 {
		t.Fatal("hits: ", ids)
	}
	for _, id := range ids {
		if id == 4 {
			t.Fatal("a deleted vector was found")
		}
	}
}
"""
