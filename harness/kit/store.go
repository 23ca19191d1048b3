package kit

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/gernest/rbf/cfg"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/samples"
	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/store"
	"github.com/gernest/requiemdb/internal/translate"
	"pgregory.net/rapid"
)

// Node is a complete database opened the way cmd/rq opens it.
type Node struct {
	DB    *badger.DB
	Tr    *translate.Translate
	Idx   *shards.Shards
	Seq   *seq.Seq
	Store *store.Storage
	Now   time.Time
	dir   string
	mem   bool
}

// LogSize is the size of files for large values, which exist from the start. Copies
// of a database are faster when they are small.
var LogSize int64 = 64 << 20

// Badger opens badger. It is in memory when dir is empty.
func Badger(dir string) (*badger.DB, error) {
	o := badger.DefaultOptions(dir).WithLogger(nil).WithNumCompactors(2).
		WithMemTableSize(8 << 20).WithValueLogFileSize(LogSize).
		WithBlockCacheSize(1 << 20).WithMetricsEnabled(false)
	if dir == "" {
		o = badger.DefaultOptions("").WithInMemory(true).WithMemTableSize(16 << 20).WithNumCompactors(2).WithLogger(nil).WithMetricsEnabled(false).WithBlockCacheSize(1 << 20)
	}
	return store.OpenDB(o)
}

// OpenParts opens everything below the store.
func OpenParts(dir string, mem bool) (*Node, error) {
	return openParts(dir, mem, 0)
}

// OpenAt opens a store. The first label of a new one gets the column at, which is
// what happens after so many labels. An index has 1<<20 columns per shard.
func OpenAt(dir string, mem bool, at uint64) (*Node, error) {
	n, err := openParts(dir, mem, at)
	if err != nil {
		return nil, err
	}
	return n, n.OpenStore()
}

// ShardEnd draws a column for OpenAt: the first one, or one shortly before the end
// of a shard.
func ShardEnd(c *Case) uint64 {
	if rapid.IntRange(0, 3).Draw(c.T, "near the end of a shard") > 0 {
		return 0
	}
	at := 1<<20*rapid.Uint64Range(1, 2).Draw(c.T, "shard") - rapid.Uint64Range(1, 12).Draw(c.T, "before")
	c.Class("labels in several shards")
	c.Logf("columns from %d", at)
	return at
}

func openParts(dir string, mem bool, at uint64) (*Node, error) {
	n := &Node{dir: dir, mem: mem}
	bd := ""
	if !mem {
		bd = filepath.Join(dir, "db")
	}
	db, err := Badger(bd)
	if err != nil {
		return nil, err
	}
	n.DB = db
	if at > 0 {
		err := db.Update(func(txn *badger.Txn) error {
			key := []byte(strconv.FormatUint(uint64(v1.RESOURCE_TRANSLATE_ID), 10) + "seq")
			if _, err := txn.Get(key); !errors.Is(err, badger.ErrKeyNotFound) {
				return err
			}
			return txn.Set(key, binary.BigEndian.AppendUint64(nil, at))
		})
		if err != nil {
			return nil, err
		}
	}
	n.Tr, err = translate.New(db, []byte(strconv.FormatUint(uint64(v1.RESOURCE_TRANSLATE_ID), 10)))
	if err != nil {
		return nil, err
	}
	c := cfg.NewDefaultConfig()
	c.FsyncEnabled = false
	n.Idx = shards.New(filepath.Join(dir, "index"), c)
	n.Seq, err = seq.New(db)
	return n, err
}

// Open opens a store.
func Open(dir string, mem bool) (*Node, error) {
	return OpenAt(dir, mem, 0)
}

// OpenLate opens a store in memory whose first sample gets the id, as if there had
// been so many before.
func OpenLate(dir string, id uint64) (*Node, error) {
	n, err := openParts(dir, true, 0)
	if err != nil {
		return nil, err
	}
	if err = n.Seq.Release(); err != nil {
		return nil, err
	}
	err = n.DB.Update(func(txn *badger.Txn) error {
		key := make([]byte, 8+4)
		binary.LittleEndian.PutUint32(key[8:], uint32(v1.RESOURCE_SAMPLE_ID))
		return txn.Set(key, binary.BigEndian.AppendUint64(nil, id))
	})
	if err != nil {
		return nil, err
	}
	if n.Seq, err = seq.New(n.DB); err != nil {
		return nil, err
	}
	return n, n.OpenStore()
}

// OpenStore opens the store of a node that only has its parts.
func (n *Node) OpenStore() (err error) {
	n.Store, err = store.NewStore(n.DB, n.Idx, n.Tr, n.Seq, func() time.Time { return n.Now })
	return
}

// Close closes in the order of cmd/rq.
func (n *Node) Close() error {
	if n.Store != nil {
		if err := n.Store.Close(); err != nil {
			return err
		}
	}
	return n.CloseParts()
}

// CloseParts closes everything below the store.
func (n *Node) CloseParts() error {
	if err := n.Seq.Release(); err != nil {
		return err
	}
	if err := n.Idx.Close(); err != nil {
		return err
	}
	if err := n.Tr.Close(); err != nil {
		return err
	}
	return n.DB.Close()
}

// Save stores data as one batch with ids of the sequence.
func (n *Node) Save(ds ...*v1.Data) ([]*v1.Sample, error) {
	ls := samples.Get()
	for _, d := range ds {
		ls.Items = append(ls.Items, &v1.Sample{Id: n.Seq.SampleID(), Data: d})
	}
	o := append([]*v1.Sample{}, ls.Items...)
	err := n.Store.SaveSamples(context.Background(), ls)
	ls.Release()
	return o, err
}

// CopyDir copies a directory at a quiet point. Background work of badger may
// still move files around, so the copy is repeated until the listing of files
// did not change while it was made.
func CopyDir(from, to string) error {
	var err error
	for i := 0; i < 400; i++ {
		before, e := listing(from)
		if e == nil {
			if err = copyDir(from, to); err == nil {
				var after string
				if after, err = listing(from); err == nil && before == after {
					return nil
				}
			}
		} else {
			err = e
		}
		if err != nil && !errors.Is(err, os.ErrNotExist) {
			return err
		}
		os.RemoveAll(to)
		time.Sleep(25 * time.Millisecond)
	}
	return fmt.Errorf("the files of %s do not come to rest: %v", from, err)
}

func listing(dir string) (string, error) {
	var o strings.Builder
	err := filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		fmt.Fprintln(&o, p, fi.Mode(), fi.Size(), fi.ModTime().UnixNano())
		return nil
	})
	return o.String(), err
}

func copyDir(from, to string) error {
	return filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(from, p)
		if err != nil {
			return err
		}
		dst := filepath.Join(to, rel)
		if fi.IsDir() {
			return os.MkdirAll(dst, 0o755)
		}
		if !fi.Mode().IsRegular() {
			return fmt.Errorf("not a regular file %s", p)
		}
		return copySparse(p, dst)
	})
}

var zeros = make([]byte, 1<<16)

func copySparse(from, to string) error {
	src, err := os.Open(from)
	if err != nil {
		return err
	}
	defer src.Close()
	dst, err := os.Create(to)
	if err != nil {
		return err
	}
	defer dst.Close()
	fi, err := src.Stat()
	if err != nil {
		return err
	}
	if err := dst.Truncate(fi.Size()); err != nil {
		return err
	}
	buf := make([]byte, 1<<16)
	var off int64
	for {
		n, err := src.ReadAt(buf, off)
		if !bytes.Equal(buf[:n], zeros[:n]) {
			if _, err := dst.WriteAt(buf[:n], off); err != nil {
				return err
			}
		}
		off += int64(n)
		if err != nil || n == 0 {
			return nil
		}
	}
}
