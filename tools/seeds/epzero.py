PROPERTY = 'P19'
NEEDS = 'an entrypoint on layer 0 logged in a file that is condensed'
BREAKS = 'the restored entrypoint is an older one'
EDITS = [('pkg/hnsw/condensor.go', '\tif res.EntrypointChanged {', '\tif res.EntrypointChanged && res.Level > 0 {')]
BARE = "nostack"
CL = """
func log(t *testing.T, dir string) h.CommitLogger {
	l := logrus.New()
	l.SetOutput(io.Discard)
	c, err := h.NewCommitLogger(dir, "demo", l, h.WithCommitlogCycleTicker(func() cyclemanager.CycleTicker { return cyclemanager.NewNoopTicker() }))
	if err != nil {
		t.Fatal(err)
	}
	return c
}

func files(t *testing.T, dir string) []string {
	d := filepath.Join(dir, "demo.hnsw.commitlog.d")
	es, err := os.ReadDir(d)
	if err != nil {
		t.Fatal(err)
	}
	out := []string{}
	for _, e := range es {
		out = append(out, filepath.Join(d, e.Name()))
	}
	return out
}

func read(t *testing.T, names []string) (*h.DeserializationResult, int) {
	l := logrus.New()
	l.SetOutput(io.Discard)
	var r *h.DeserializationResult
	n := 0
	for _, name := range names {
		f, err := os.Open(name)
		if err != nil {
			t.Fatal(err)
		}
		r, n, err = h.NewDeserializer(l).Do(bufio.NewReader(f), r, false)
		if err != nil {
			t.Fatal(err)
		}
		f.Close()
	}
	return r, n
}

func must(t *testing.T, errs ...error) {
	for _, err := range errs {
		if err != nil {
			t.Fatal(err)
		}
	}
}
"""
IMPORTS = ['"bufio"', '"io"', '"os"', '"path/filepath"', '"testing"', '"time"', 'h "github.com/fairDataSociety/FaVe/pkg/hnsw"', '"github.com/sirupsen/logrus"', '"github.com/weaviate/weaviate/entities/cyclemanager"']
DEMO = CL + """
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	c := log(t, dir)
	must(t, c.ReplaceLinksAtLevel(1, 0, []uint64{2}), c.SetEntryPointWithMaxLayer(1, 2))
	time.Sleep(1100 * time.Millisecond) // files are named by the second
	must(t, c.SwitchCommitLogs(true))
	must(t, c.ReplaceLinksAtLevel(2, 0, []uint64{1}), c.SetEntryPointWithMaxLayer(2, 0), c.Flush())
	l := logrus.New()
	l.SetOutput(io.Discard)
	must(t, h.NewMemoryCondensor(l).Do(files(t, dir)[1]))
	r, _ := read(t, files(t, dir))
	if r.Entrypoint != 2 {
		t.Fatalf("entrypoint %d", r.Entrypoint)
	}
}
"""
