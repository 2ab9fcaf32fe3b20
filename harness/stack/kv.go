package verifstack

import (
	"context"
	"errors"
	"io"
	"time"

	h "github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/fairdatasociety/fairOS-dfs/pkg/account"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
	"github.com/fairdatasociety/fairOS-dfs/pkg/feed"
	"github.com/fairdatasociety/fairOS-dfs/pkg/logging"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
	"github.com/weaviate/weaviate/adapters/repos/db/vector/hnsw/distancer"
)

// Table is the name of the one key/value table a KV holds.
const Table = "graph"

// KV is a key/value store holding one graph, on an in-memory medium.
type KV struct {
	KV    *collection.KeyValue
	Store *Store
	fd    *feed.API
	acc   *account.Account
}

func NewKV() (*KV, error) {
	logger := logging.New(io.Discard, 0)
	acc := account.New(logger)
	if _, _, err := acc.CreateUserAccount(""); err != nil {
		return nil, err
	}
	k := &KV{Store: NewStore(), acc: acc}
	k.start()
	if err := k.KV.CreateKVTable(Table, "pod password", collection.StringIndex); err != nil {
		return nil, err
	}
	return k, k.KV.OpenKVTable(Table, "pod password")
}

func (k *KV) start() {
	logger := logging.New(io.Discard, 0)
	k.fd = feed.New(k.acc.GetUserAccountInfo(), k.Store, 1000, time.Hour, logger)
	k.KV = collection.NewKeyValueStore("pod1", k.fd, k.acc.GetUserAccountInfo(), k.acc.GetAddress(account.UserAccountIndex), k.Store, logger)
}

// Reopen commits the feeds and starts over on the durable contents.
func (k *KV) Reopen() error {
	k.fd.CommitFeeds()
	k.Store = k.Store.Fork()
	k.start()
	return k.KV.OpenKVTable(Table, "pod password")
}

// Index is the exported surface of the graph index.
type Index interface {
	h.VectorIndex
	SearchByVector(vector []float32, k int, allowList helpers.AllowList) ([]uint64, []float32, error)
	Delete(ids ...uint64) error
	Entrypoint() uint64
}

// NewIndex opens a graph index on the table; vectors unknown to the graph are not found.
func (k *KV) NewIndex(p distancer.Provider, uc h.UserConfig, log ...h.MakeCommitLogger) (Index, error) {
	log = append(log, h.MakeNoopCommitLogger)
	return h.New(h.Config{
		RootPath:              "not-used",
		ID:                    "verif",
		MakeCommitLoggerThunk: log[0],
		DistanceProvider:      p,
		VectorForIDThunk: func(ctx context.Context, id uint64) ([]float32, error) {
			return nil, errors.New("verif: vector not known")
		},
		ClassName: Table,
	}, uc, k.KV)
}
