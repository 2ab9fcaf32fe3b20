package partsdrv

import (
	"io"
	"os"
	"os/signal"
	"syscall"

	"github.com/fairDataSociety/FaVe/adapters/handlers"
	h "github.com/fairDataSociety/FaVe/pkg/hnsw"
)

// the buffered writer of the commit log
type writer interface {
	io.Writer
	Size() int
	Reset(*os.File)
	Flush() error
	Available() int
	Buffered() int
	WriteByte(byte) error
	WriteRune(rune) (int, error)
	WriteString(string) (int, error)
}

type target struct {
	w    writer
	file *os.File
	name string
	cap  int // the file cannot grow beyond this; -1 if it can
}

func (t *target) open(bad bool, size int) *os.File {
	if t.file != nil {
		t.file.Close()
		os.Remove(t.name)
	}
	f, err := os.CreateTemp("", "buffer")
	if err != nil {
		panic("driver: " + err.Error())
	}
	t.name, t.file, t.cap = f.Name(), f, -1
	if bad {
		t.cap = size
	}
	return f
}

func (t *target) do(e event, out M) {
	data := make([]byte, len(e.Data))
	for i, b := range e.Data {
		data[i] = byte(b)
	}
	var n int
	var err error
	if t.w != nil && t.cap >= 0 && e.Op != "breset" {
		signal.Ignore(syscall.SIGXFSZ)
		var old syscall.Rlimit
		if err := syscall.Getrlimit(1, &old); err != nil {
			panic("driver: " + err.Error())
		}
		if err := syscall.Setrlimit(1, &syscall.Rlimit{Cur: uint64(t.cap), Max: old.Max}); err != nil {
			panic("driver: " + err.Error())
		}
		defer syscall.Setrlimit(1, &old)
	}
	switch e.Op {
	case "bopen":
		f := t.open(e.Bad, e.Cap)
		if e.Size == 4096 {
			t.w = h.NewWriter(f)
		} else {
			t.w = h.NewWriterSize(f, e.Size)
		}
	case "breset":
		t.w.Reset(t.open(e.Bad, e.Cap))
	case "bwrite":
		n, err = t.w.Write(data)
	case "bstring":
		n, err = t.w.WriteString(string(data))
	case "bbyte":
		n = 1
		err = t.w.WriteByte(data[0])
	case "brune":
		n, err = t.w.WriteRune(rune(e.Rune))
	case "bflush":
		err = t.w.Flush()
	}
	if err != nil {
		out["res"], out["msg"] = "err", err.Error()
	}
	b, rerr := os.ReadFile(t.name)
	if rerr != nil {
		panic("driver: " + rerr.Error())
	}
	file := make([]int, len(b))
	for i := range b {
		file[i] = int(b[i])
	}
	out["n"], out["file"], out["buffered"], out["avail"], out["total"] = n, file, t.w.Buffered(), t.w.Available(), t.w.Size()
}

// the settings a server starts with
func server(e event, out M) {
	vars := map[string]string{"bee": "BEE_API", "rpc": "RPC_API", "stamp": "STAMP_ID", "vectorizer": "VECTORIZER_URL", "user": "USER", "password": "PASSWORD", "pod": "POD"}
	set := func(k, v string) {
		if v == "" {
			os.Unsetenv(k)
		} else {
			os.Setenv(k, v)
		}
	}
	for k, v := range vars {
		set(v, e.Env[k])
	}
	set("VERBOSE", e.Flag)
	g := e.Known
	c := &handlers.HandlerConfig{Verbose: e.Verbose, BeeAPI: g["bee"], RPCEndpoint: g["rpc"], StampId: g["stamp"], GloveLevelDBUrl: g["vectorizer"], Username: g["user"], Password: g["password"], Pod: g["pod"]}
	handlers.FromEnv(c)
	handlers.SetDefaults(c)
	out["loud"] = c.Verbose
	out["out"] = M{"bee": c.BeeAPI, "rpc": c.RPCEndpoint, "stamp": c.StampId, "vectorizer": c.GloveLevelDBUrl, "user": c.Username, "password": c.Password, "pod": c.Pod}
}
