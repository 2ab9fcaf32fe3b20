PROPERTY = "P20"
NEEDS = "a queue in which the last item of the heap is a right child and the extreme one at the time its parent is popped"
BREAKS = "an item comes out before a nearer one"
EDITS = [("pkg/hnsw/priorityqueue/queue_with_index.go", "	if right < len(l.items) && l.less(l.items, right, smallest) {", "	if right < len(l.items)-1 && l.less(l.items, right, smallest) {")]
BARE = "nostack"
IMPORTS = ['"testing"', '"github.com/fairDataSociety/FaVe/pkg/hnsw/priorityqueue"']
DEMO = """
func TestDemo(t *testing.T) {
	for seed := uint32(1); seed < 200; seed++ {
		q := priorityqueue.NewMinWithIndex(4)
		x := seed
		for i := 0; i < 12; i++ {
			x = x*1664525 + 1013904223
			q.Insert(uint64(i), uint64(i), float32(x>>16))
		}
		last := float32(-1)
		for q.Len() > 0 {
			if d := q.Pop().Dist; d < last {
				t.Fatal("out of order")
			} else {
				last = d
			}
		}
	}
}
"""
