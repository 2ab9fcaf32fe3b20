PROPERTY = "P28"
NEEDS = "a character of four bytes written when exactly three bytes of the buffer are left"
BREAKS = "the write panics"
EDITS = [("pkg/hnsw/bufiowriter.go", "	n := b.Available()\n	if n < utf8.UTFMax {", "	n := b.Available()\n	if n < utf8.UTFMax-1 {")]
IMPORTS = ['"os"', '"path/filepath"', '"testing"', 'h "github.com/fairDataSociety/FaVe/pkg/hnsw"']
DEMO = """
func TestDemo(t *testing.T) {
	name := filepath.Join(t.TempDir(), "f")
	f, err := os.Create(name)
	if err != nil {
		t.Fatal(err)
	}
	w := h.NewWriterSize(f, 16)
	for n := 0; n < 40; n++ {
		if _, err := w.WriteString("abcdefghijklmnopqrst"[:n%17]); err != nil {
			t.Fatal(err)
		}
		if _, err := w.WriteRune(0x1f600); err != nil {
			t.Fatal(err)
		}
		if err := w.Flush(); err != nil {
			t.Fatal(err)
		}
	}
	b, err := os.ReadFile(name)
	want := ""
	for n := 0; n < 40; n++ {
		want += "abcdefghijklmnopqrst"[:n%17] + string(rune(0x1f600))
	}
	if err != nil || string(b) != want {
		t.Fatal(err, string(b))
	}
}
"""
BARE = "nostack"
