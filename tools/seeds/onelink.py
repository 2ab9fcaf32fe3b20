PROPERTY = "P15"
NEEDS = "a node that is already linked to as many nodes as configured when another one is added nearby"
BREAKS = "stored nodes end up with one link more than configured"
EDITS = [("pkg/hnsw/neighbor_connections.go", "	if len(currentConnections) < maximumConnections {", "	if len(currentConnections) <= maximumConnections {")]
IMPORTS = ['"encoding/json"', '"fmt"', '"testing"', 'h "github.com/fairDataSociety/FaVe/pkg/hnsw"', '"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"', 'vs "github.com/fairDataSociety/FaVe/verifx/stack"']
KVOPEN = """
func open(t *testing.T, m int) (*vs.KV, vs.Index) {
	vs.Silence()
	var kv *vs.KV
	if err := vs.Guard(func() (err error) { kv, err = vs.NewKV(); return err }); err != nil {
		t.Fatal(err)
	}
	return kv, index(t, kv, m)
}

func index(t *testing.T, kv *vs.KV, m int) vs.Index {
	uc := h.UserConfig{}
	uc.SetDefaults()
	uc.MaxConnections = m
	idx, err := kv.NewIndex(distancer.NewCosineDistanceProvider(), uc)
	if err != nil {
		t.Fatal(err)
	}
	if err := idx.LoadEntrypoint(); err != nil {
		t.Fatal(err)
	}
	return idx
}
"""
DEMO = KVOPEN + """
func TestDemo(t *testing.T) {
	kv, idx := open(t, 4)
	for i := 0; i < 60; i++ {
		if err := idx.Add(uint64(i), []float32{1, float32(i%7) / 50, float32(i%11) / 50}); err != nil {
			t.Fatal(err)
		}
	}
	if err := idx.Flush(60); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 60; i++ {
		_, b, err := kv.KV.KVGet(vs.Table, fmt.Sprint(i))
		if err != nil {
			t.Fatal(err)
		}
		var n struct {
			Connections [][]uint64 `json:"connections"`
		}
		if err := json.Unmarshal(b, &n); err != nil {
			t.Fatal(err)
		}
		for l, c := range n.Connections {
			max := 4
			if l == 0 {
				max = 8
			}
			if len(c) > max {
				t.Fatalf("node %d has %d links on level %d", i, len(c), l)
			}
		}
	}
}
"""
BARE = True
