PROPERTY = "P18"
NEEDS = "a node that has as many links on an upper layer as configured when another one is added there"
BREAKS = "the commit log keeps links the stored node has lost"
EDITS = [("pkg/hnsw/neighbor_connections.go", "		if err := n.graph.commitLog.ClearLinksAtLevel(neighbor.Id, uint16(level)); err != nil {\n			return err\n		}\n", "		if level == 0 {\n			if err := n.graph.commitLog.ClearLinksAtLevel(neighbor.Id, uint16(level)); err != nil {\n				return err\n			}\n		}\n")]
ns = {}
exec(open(__import__("os").path.join(V, "tools/seeds/clearlen.py")).read(), ns)
ns2 = {}
exec(open(__import__("os").path.join(V, "tools/seeds/onelink.py")).read(), ns2)
IMPORTS = ns["IMPORTS"] + ['"context"', '"encoding/json"', '"fmt"', '"reflect"', '"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"', 'vs "github.com/fairDataSociety/FaVe/verifx/stack"']
DEMO = ns["CL"] + """
func TestDemo(t *testing.T) {
	vs.Silence()
	dir := t.TempDir()
	var kv *vs.KV
	if err := vs.Guard(func() (err error) { kv, err = vs.NewKV(); return err }); err != nil {
		t.Fatal(err)
	}
	uc := h.UserConfig{}
	uc.SetDefaults()
	uc.MaxConnections = 4
	var c h.CommitLogger
	idx, err := kv.NewIndex(distancer.NewCosineDistanceProvider(), uc, func() (h.CommitLogger, error) { c = log(t, dir); return c, nil })
	must(t, err, idx.LoadEntrypoint())
	for i := 0; i < 400; i++ {
		must(t, idx.Add(uint64(i), []float32{1, float32(i%7) / 50, float32(i%11) / 50, float32(i%13) / 50}))
	}
	must(t, idx.Flush(400), c.Flush(), c.Shutdown(context.Background()))
	r, _ := read(t, files(t, dir))
	for i := 0; i < 400; i++ {
		_, b, err := kv.KV.KVGet(vs.Table, fmt.Sprint(i))
		must(t, err)
		var n struct {
			Connections [][]uint64 `json:"connections"`
		}
		must(t, json.Unmarshal(b, &n))
		for l, want := range n.Connections {
			if got := r.Nodes[i].Connections[l]; len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
				t.Fatalf("node %d, layer %d: %v instead of %v", i, l, got, want)
			}
		}
	}
}
"""
BARE = True
