PROPERTY = "P14"
NEEDS = "a fixed search width configured smaller than the number of vectors asked for"
BREAKS = "a search returns fewer vectors than asked for although there are more"
EDITS = [("pkg/hnsw/search.go", "	if ef < k {\n		ef = k\n	}\n\n	return ef\n}\n\nfunc (h *hnsw) autoEf", "	return ef\n}\n\nfunc (h *hnsw) autoEf")]
ns = {}
exec(open(__import__("os").path.join(V, "tools/seeds/onelink.py")).read(), ns)
IMPORTS = [x for x in ns["IMPORTS"] if "json" not in x and "fmt" not in x]
DEMO = """
func TestDemo(t *testing.T) {
	vs.Silence()
	var kv *vs.KV
	if err := vs.Guard(func() (err error) { kv, err = vs.NewKV(); return err }); err != nil {
		t.Fatal(err)
	}
	uc := h.UserConfig{}
	uc.SetDefaults()
	uc.EF = 4
	idx, err := kv.NewIndex(distancer.NewCosineDistanceProvider(), uc)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 20; i++ {
		if err := idx.Add(uint64(i), []float32{1, float32(i)}); err != nil {
			t.Fatal(err)
		}
	}
	if err := idx.Flush(20); err != nil {
		t.Fatal(err)
	}
	ids, _, err := idx.SearchByVector([]float32{1, 0}, 10, nil)
	if err != nil || len(ids) != 10 {
		t.Fatal(ids, err)
	}
}
"""
BARE = True
