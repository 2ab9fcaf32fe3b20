PROPERTY = "P27"
NEEDS = "a backup begun while the commit log in use is still small"
BREAKS = "the log is not switched, so the backup lacks everything logged since the last switch"
ns = {}
exec(open(__import__("os").path.join(V, "tools/seeds/unlogged.py")).read(), dict(V=V), ns)
EDITS = [("pkg/hnsw/backup.go", "h.commitLog.SwitchCommitLogs(true)", "h.commitLog.SwitchCommitLogs(false)")]
IMPORTS = [x for x in ns["IMPORTS"] if "json" not in x and '"fmt"' not in x and "reflect" not in x] + ['"time"']
DEMO = ns["ns"]["CL"] + """
func TestDemo(t *testing.T) {
	vs.Silence()
	dir := t.TempDir()
	var kv *vs.KV
	if err := vs.Guard(func() (err error) { kv, err = vs.NewKV(); return err }); err != nil {
		t.Fatal(err)
	}
	uc := h.UserConfig{}
	uc.SetDefaults()
	var c h.CommitLogger
	idx, err := kv.NewIndex(distancer.NewCosineDistanceProvider(), uc, func() (h.CommitLogger, error) { c = log(t, dir); return c, nil })
	must(t, err, idx.LoadEntrypoint())
	for i := 0; i < 20; i++ {
		must(t, idx.Add(uint64(i), []float32{1, float32(i%7) / 50, float32(i%11) / 50}))
	}
	must(t, idx.Flush(20))
	time.Sleep(1100 * time.Millisecond)
	ctx := context.Background()
	b := idx.(interface {
		PauseMaintenance(context.Context) error
		SwitchCommitLogs(context.Context) error
		ListFiles(context.Context) ([]string, error)
		ResumeMaintenance(context.Context) error
	})
	must(t, b.PauseMaintenance(ctx), b.SwitchCommitLogs(ctx))
	list, err := b.ListFiles(ctx)
	must(t, err)
	names := []string{}
	for _, n := range list {
		names = append(names, filepath.Join(dir, n))
	}
	r, _ := read(t, names)
	must(t, b.ResumeMaintenance(ctx), c.Shutdown(ctx))
	for i := 0; i < 20; i++ {
		if r == nil || len(r.Nodes) <= i || r.Nodes[i] == nil {
			t.Fatalf("node %d is not in the backup %v", i, list)
		}
	}
}
"""
BARE = True
