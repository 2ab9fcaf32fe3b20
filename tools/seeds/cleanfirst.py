PROPERTY = "P19"
NEEDS = "a crash, or a rename that fails, while two condensed files are combined"
BREAKS = "the two files are gone before the combined one has its name, so the changes logged in them are lost"
ns = {}
exec(open(__import__("os").path.join(V, "tools/seeds/clearlen.py")).read(), ns)
REN = """	if err := os.Rename(tmpName, finalName); err != nil {
		return errors.Wrapf(err, "rename tmp (%q) to final (%q)", tmpName, finalName)
	}

"""
DEL = """	for _, toDelete := range toDeletes {
		if err := os.Remove(toDelete); err != nil {
			return errors.Wrapf(err, "clean up %q", toDelete)
		}
	}
"""
EDITS = [("pkg/hnsw/commit_log_combiner.go", REN + DEL, DEL + "\n" + REN[:-1])]
IMPORTS = [x for x in ns["IMPORTS"]] + ['"time"', '"context"']
DEMO = ns["CL"] + """
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	c := log(t, dir)
	must(t, c.ReplaceLinksAtLevel(1, 0, []uint64{2, 3}), c.Flush())
	l := logrus.New()
	l.SetOutput(io.Discard)
	for i := 0; i < 2; i++ {
		time.Sleep(1100 * time.Millisecond)
		must(t, c.SwitchCommitLogs(true), c.ReplaceLinksAtLevel(uint64(2+i), 0, []uint64{1}), c.Flush())
	}
	names := files(t, dir)
	for _, n := range names[:2] {
		must(t, h.NewMemoryCondensor(l).Do(n))
	}
	must(t, c.Shutdown(context.Background()))
	// the combined file cannot get its name
	must(t, os.MkdirAll(filepath.Join(names[0], "taken"), 0o777))
	if _, err := h.NewCommitLogCombiner(dir, "demo", 1<<20, l).Do(); err == nil {
		t.Fatal("combining did not fail")
	}
	for _, n := range names[:2] {
		if _, err := os.Stat(n + ".condensed"); err != nil {
			t.Fatal(err)
		}
	}
}
"""
BARE = "nostack"
