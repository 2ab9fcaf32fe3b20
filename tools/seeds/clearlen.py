PROPERTY = "P17"
NEEDS = "a commit log that ends abruptly somewhere after an entry that clears the links of one level"
BREAKS = "the length of the readable part is too short, so that truncating to it damages complete entries"
EDITS = [("pkg/hnsw/deserializer.go", "			err = c.ReadClearLinksAtLevel(fd, out, keepLinkReplaceInformation)\n			readThisRound = 10", "			err = c.ReadClearLinksAtLevel(fd, out, keepLinkReplaceInformation)\n			readThisRound = 8")]
BARE = "nostack"
CL = """
func log(t *testing.T, dir string) h.CommitLogger {
	l := logrus.New()
	l.SetOutput(io.Discard)
	c, err := h.NewCommitLogger(dir, "demo", l, h.WithCommitlogCycleTicker(func() cyclemanager.CycleTicker { return cyclemanager.NewNoopTicker() }))
	if err != nil {
		t.Fatal(err)
	}
	return c
}

func files(t *testing.T, dir string) []string {
	d := filepath.Join(dir, "demo.hnsw.commitlog.d")
	es, err := os.ReadDir(d)
	if err != nil {
		t.Fatal(err)
	}
	out := []string{}
	for _, e := range es {
		out = append(out, filepath.Join(d, e.Name()))
	}
	return out
}

func read(t *testing.T, names []string) (*h.DeserializationResult, int) {
	l := logrus.New()
	l.SetOutput(io.Discard)
	var r *h.DeserializationResult
	n := 0
	for _, name := range names {
		f, err := os.Open(name)
		if err != nil {
			t.Fatal(err)
		}
		r, n, err = h.NewDeserializer(l).Do(bufio.NewReader(f), r, false)
		if err != nil {
			t.Fatal(err)
		}
		f.Close()
	}
	return r, n
}

func must(t *testing.T, errs ...error) {
	for _, err := range errs {
		if err != nil {
			t.Fatal(err)
		}
	}
}
"""
IMPORTS = ['"bufio"', '"io"', '"os"', '"path/filepath"', '"testing"', 'h "github.com/fairDataSociety/FaVe/pkg/hnsw"', '"github.com/sirupsen/logrus"', '"github.com/weaviate/weaviate/entities/cyclemanager"']
DEMO = CL + """
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	c := log(t, dir)
	must(t, c.ReplaceLinksAtLevel(1, 0, []uint64{2, 3}), c.ClearLinksAtLevel(1, 0), c.AddTombstone(4), c.Flush())
	name := files(t, dir)[0]
	info, err := os.Stat(name)
	must(t, err)
	_, n := read(t, []string{name})
	if int64(n) != info.Size() {
		t.Fatalf("%d of %d bytes readable", n, info.Size())
	}
}
"""
