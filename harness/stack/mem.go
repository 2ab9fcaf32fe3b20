// Package verifstack assembles the real FaVe stack (document client, HNSW index,
// fairOS key/value and document stores) on an in-memory Swarm stand-in whose
// durable contents survive a simulated crash.
package verifstack

import (
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"net/http"
	"strings"
	"sync"

	"github.com/ethersphere/bee/pkg/soc"
	"github.com/ethersphere/bee/pkg/swarm"
)

// ErrStoreDown is what every write returns once the injected fault has fired.
var ErrStoreDown = errors.New("verif: store unavailable")

// Store is the durable medium: single owner chunks, plain chunks and blobs.
type Store struct {
	mu     sync.Mutex
	chunks map[string][]byte
	blobs  map[string][]byte
	seq    uint64

	writes  int  // writes attempted since ArmFault/ResetCount
	failAt  int  // >0: the write number at which the fault starts
	failLen int  // how many writes fail (<0: all of them from then on)
	crash   bool // writes of every kind count and fail
	OnWrite func(n int, kind string)
	jitter  func() // called before every access, outside the lock
}

// Jitter lets f run before every access to the medium (nil: nothing).
func (s *Store) Jitter(f func()) {
	s.mu.Lock()
	s.jitter = f
	s.mu.Unlock()
}

func (s *Store) pause() {
	s.mu.Lock()
	f := s.jitter
	s.mu.Unlock()
	if f != nil {
		f()
	}
}

func NewStore() *Store {
	return &Store{chunks: map[string][]byte{}, blobs: map[string][]byte{}}
}

// Fork copies the durable contents (what a process started after a crash sees).
func (s *Store) Fork() *Store {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := NewStore()
	for k, v := range s.chunks {
		n.chunks[k] = v
	}
	for k, v := range s.blobs {
		n.blobs[k] = v
	}
	n.seq = s.seq
	return n
}

// ArmFault makes the k-th write from now (1-based) and the n-1 following ones fail; n<0 means forever.
func (s *Store) ArmFault(k, n int) {
	s.mu.Lock()
	s.writes, s.failAt, s.failLen, s.crash = 0, k, n, false
	s.mu.Unlock()
}

// ArmCrash makes the k-th blob write from now and all later writes of any kind fail, until the process is started again.
func (s *Store) ArmCrash(k int) {
	s.mu.Lock()
	s.writes, s.failAt, s.failLen, s.crash = 0, k, -1, true
	s.mu.Unlock()
}

// Disarm removes the fault and returns the number of writes attempted since it was armed.
func (s *Store) Disarm() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := s.writes
	s.writes, s.failAt, s.failLen, s.crash = 0, 0, 0, false
	return n
}

// Writes is the number of writes attempted since the last ArmFault/Disarm.
func (s *Store) Writes() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.writes
}

// fails is called with mu held, once per write.
func (s *Store) fails(kind string) bool {
	if kind != "blob" {
		// single owner chunks are written when the feeds are committed; the
		// storage library does not report a failure there
		return s.crash && s.writes >= s.failAt
	}
	s.writes++
	if s.OnWrite != nil {
		s.OnWrite(s.writes, kind)
	}
	if s.failAt == 0 || s.writes < s.failAt {
		return false
	}
	return s.failLen < 0 || s.writes < s.failAt+s.failLen
}

func (s *Store) CheckConnection() bool { return true }

func unhex(v string) ([]byte, error) { return hex.DecodeString(strings.TrimPrefix(v, "0x")) }

func (s *Store) UploadSOC(owner, id, signature string, data []byte) ([]byte, error) {
	s.pause()
	o, err := unhex(owner)
	if err != nil {
		return nil, err
	}
	i, err := unhex(id)
	if err != nil {
		return nil, err
	}
	sig, err := unhex(signature)
	if err != nil {
		return nil, err
	}
	addr, err := soc.CreateAddress(i, o)
	if err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fails("soc") {
		return nil, ErrStoreDown
	}
	buf := make([]byte, 0, len(i)+len(sig)+len(data))
	buf = append(buf, i...)
	buf = append(buf, sig...)
	buf = append(buf, data...)
	s.chunks[string(addr.Bytes())] = buf
	return addr.Bytes(), nil
}

func (s *Store) UploadChunk(ch swarm.Chunk) ([]byte, error) {
	s.pause()
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fails("chunk") {
		return nil, ErrStoreDown
	}
	s.chunks[string(ch.Address().Bytes())] = append([]byte(nil), ch.Data()...)
	return ch.Address().Bytes(), nil
}

func (s *Store) UploadBlob(data []byte, _ uint32, _ bool) ([]byte, error) {
	s.pause()
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.fails("blob") {
		return nil, ErrStoreDown
	}
	s.seq++
	ref := make([]byte, 64)
	binary.BigEndian.PutUint64(ref, s.seq)
	s.blobs[string(ref)] = append([]byte(nil), data...)
	return ref, nil
}

func (s *Store) UploadBzz(data []byte, _ string) ([]byte, error) { return s.UploadBlob(data, 0, false) }

func (s *Store) DownloadChunk(_ context.Context, address []byte) ([]byte, error) {
	s.pause()
	s.mu.Lock()
	defer s.mu.Unlock()
	d, ok := s.chunks[string(address)]
	if !ok {
		return nil, errors.New("error downloading data")
	}
	return append([]byte(nil), d...), nil
}

func (s *Store) DownloadBlob(address []byte) ([]byte, int, error) {
	s.pause()
	s.mu.Lock()
	defer s.mu.Unlock()
	d, ok := s.blobs[string(address)]
	if !ok {
		return nil, http.StatusNotFound, fmt.Errorf("error downloading blob")
	}
	return append([]byte(nil), d...), http.StatusOK, nil
}

func (s *Store) DownloadBzz(address []byte) ([]byte, int, error) { return s.DownloadBlob(address) }
func (s *Store) DeleteReference(_ []byte) error                  { return nil }
func (s *Store) CreateTag(_ []byte) (uint32, error)              { return 1, nil }
func (s *Store) GetTag(_ uint32) (int64, int64, int64, error)    { return 1, 1, 1, nil }
