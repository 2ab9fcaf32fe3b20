exec(open("/verif/tools/seeds/onelink.py").read())
PROPERTY = "P14"
NEEDS = "a search with an allow list that is not served by flat search and does not contain the node the search enters the lowest level by"
BREAKS = "the entry node of a restricted search is returned although it is not on the allow list"
EDITS = [("pkg/hnsw/search.go", """		candidates.Insert(ep.ID, ep.Dist)
		if level == 0 && allowList != nil {""", """		candidates.Insert(ep.ID, ep.Dist)
		if level == 0 && allowList != nil && results.Len() > 0 {""")]
IMPORTS = ['"testing"', 'h "github.com/fairDataSociety/FaVe/pkg/hnsw"', '"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"', 'vs "github.com/fairDataSociety/FaVe/verifx/stack"', '"github.com/weaviate/weaviate/adapters/repos/db/helpers"']
DEMO = KVOPEN + """
func TestDemo(t *testing.T) {
	_, idx := open(t, 16)
	for i := 0; i < 10; i++ {
		if err := idx.Add(uint64(i), []float32{1, float32(i), 2}); err != nil {
			t.Fatal(err)
		}
	}
	if err := idx.Flush(10); err != nil {
		t.Fatal(err)
	}
	for e := uint64(0); e < 10; e++ {
		allow := helpers.NewAllowList()
		for i := uint64(0); i < 10; i++ {
			if i != e {
				allow.Insert(i)
			}
		}
		ids, _, err := idx.KnnSearchByVectorMaxDist([]float32{1, float32(e), 2}, 2, 20, allow)
		if err != nil {
			t.Fatal(err)
		}
		for _, id := range ids {
			if id == e {
				t.Fatal("a vector not on the list was returned")
			}
		}
	}
}
"""
