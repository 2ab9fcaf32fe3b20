PROPERTY = "P28"
NEEDS = "a flush of which only a part fits into the file"
BREAKS = "the writer goes on after the failure, and what it accepted is missing in the file"
EDITS = [("pkg/hnsw/bufiowriter.go", "		b.n -= n\n		b.err = err\n		return err\n", "		b.n -= n\n		if n == 0 {\n			b.err = err\n		}\n		return err\n")]
IMPORTS = ['"os"', '"os/signal"', '"path/filepath"', '"syscall"', '"testing"', 'h "github.com/fairDataSociety/FaVe/pkg/hnsw"']
DEMO = """
func TestDemo(t *testing.T) {
	signal.Ignore(syscall.SIGXFSZ)
	name := filepath.Join(t.TempDir(), "f")
	f, err := os.Create(name)
	if err != nil {
		t.Fatal(err)
	}
	w := h.NewWriterSize(f, 16)
	w.WriteString("0123456789")
	var old syscall.Rlimit
	if err := syscall.Getrlimit(1, &old); err != nil {
		t.Fatal(err)
	}
	if err := syscall.Setrlimit(1, &syscall.Rlimit{Cur: 4, Max: old.Max}); err != nil {
		t.Fatal(err)
	}
	first := w.Flush()
	_, second := w.WriteString("a")
	if err := syscall.Setrlimit(1, &old); err != nil {
		t.Fatal(err)
	}
	if first == nil || second == nil {
		t.Fatal(first, second)
	}
}
"""
BARE = "nostack"
