package commitlogdrv

import (
	"bytes"
	"os"
	"path/filepath"
	"syscall"
	"unsafe"
)

// what happened in a directory, in order
type change struct {
	mask   uint32
	name   string
	cookie uint32
}

// object is a file; its names come and go
type object struct {
	before  []byte // what it held at first
	after   []byte // what it held in the end
	known   bool   // is that known
	writes  int    // so many changes of what it holds
	written int
}

func (o *object) now(half bool) []byte {
	if o.written >= o.writes {
		return o.after
	}
	if o.written == 0 && !half {
		return o.before
	}
	n := len(o.after) / 2
	if bytes.HasPrefix(o.after, o.before) {
		n = (len(o.before) + len(o.after)) / 2
	}
	return o.after[:n]
}

func contents(dir string) map[string][]byte {
	ents, err := os.ReadDir(dir)
	if err != nil {
		panic("driver: " + err.Error())
	}
	out := map[string][]byte{}
	for _, e := range ents {
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			panic("driver: " + err.Error())
		}
		out[e.Name()] = b
	}
	return out
}

// died does f and then puts the directory into the state it was in after part/100 of the changes
// that f made to it, the next one half done if it was a write. It says after how many of how many.
func died(dir string, part int, half bool, f func()) (int, int) {
	pre := contents(dir)
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		panic("driver: " + err.Error())
	}
	defer syscall.Close(fd)
	if _, err := syscall.InotifyAddWatch(fd, dir, syscall.IN_CREATE|syscall.IN_MODIFY|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO|syscall.IN_DELETE); err != nil {
		panic("driver: " + err.Error())
	}
	f()
	var evs []change
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(fd, buf)
		if n <= 0 || err != nil {
			break
		}
		for i := 0; i < n; {
			e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[i]))
			name := buf[i+syscall.SizeofInotifyEvent : i+syscall.SizeofInotifyEvent+int(e.Len)]
			evs = append(evs, change{e.Mask, string(bytes.TrimRight(name, "\x00")), e.Cookie})
			i += syscall.SizeofInotifyEvent + int(e.Len)
		}
	}
	post := contents(dir)
	// the files and what they hold in the end
	objs := []*object{}
	names := func() map[string]*object {
		m := map[string]*object{}
		for n, b := range pre {
			o := &object{before: b, after: b, known: true}
			m[n] = o
			objs = append(objs, o)
		}
		return m
	}
	made := map[int]*object{} // by the change that made them
	at := names()
	start := map[string]*object{}
	for n, o := range at {
		start[n] = o
	}
	moving := map[uint32]*object{}
	apply := func(i int, at map[string]*object, first bool) {
		e := evs[i]
		switch {
		case e.mask&syscall.IN_CREATE != 0:
			if first {
				made[i] = &object{}
				objs = append(objs, made[i])
			}
			at[e.name] = made[i]
		case e.mask&syscall.IN_MODIFY != 0:
			if o := at[e.name]; o != nil && first {
				o.writes++
				o.known = false
			} else if o != nil {
				o.written++
			}
		case e.mask&syscall.IN_MOVED_FROM != 0:
			moving[e.cookie] = at[e.name]
			delete(at, e.name)
		case e.mask&syscall.IN_MOVED_TO != 0:
			at[e.name] = moving[e.cookie]
		case e.mask&syscall.IN_DELETE != 0:
			delete(at, e.name)
		}
	}
	for i := range evs {
		apply(i, at, true)
	}
	for n, o := range at {
		if o == nil {
			panic("driver: a file came from nowhere")
		}
		o.after, o.known = post[n], true
	}
	// again, up to the moment
	k := len(evs) * part / 100
	// a rename is one change
	if k > 0 && evs[k-1].mask&syscall.IN_MOVED_FROM != 0 {
		k--
	}
	at = start
	for i := 0; i < k; i++ {
		apply(i, at, false)
	}
	if k == len(evs) || evs[k].mask&syscall.IN_MODIFY == 0 {
		half = false
	}
	for _, o := range at {
		if !o.known {
			return -1, len(evs) // it did not last; nothing is known of what it held
		}
	}
	for n := range post {
		if err := os.Remove(filepath.Join(dir, n)); err != nil {
			panic("driver: " + err.Error())
		}
	}
	for n, o := range at {
		h := half && evs[k].name == n
		if err := os.WriteFile(filepath.Join(dir, n), o.now(h), 0o666); err != nil {
			panic("driver: " + err.Error())
		}
	}
	return k, len(evs)
}
