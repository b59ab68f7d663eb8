package model

import (
	"context"
	"os"
	"strings"

	"github.com/rs/zerolog"
	bolt "go.etcd.io/bbolt"

	"verif/nd"
)

// ---- zerolog: silent ----

var logger zerolog.Logger

//model:for github.com/rs/zerolog.Ctx
func zCtx(ctx context.Context) *zerolog.Logger { return &logger }

//model:for (github.com/rs/zerolog.Logger).WithContext (*github.com/rs/zerolog.Logger).WithContext
func zWithContext(l zerolog.Logger, ctx context.Context) context.Context { return ctx }

//model:for (*github.com/rs/zerolog.Logger).UpdateContext
func zUpdateContext(l *zerolog.Logger, f func(zerolog.Context) zerolog.Context) {}

//model:for (*github.com/rs/zerolog.Logger).Debug (*github.com/rs/zerolog.Logger).Info (*github.com/rs/zerolog.Logger).Warn (*github.com/rs/zerolog.Logger).Error (*github.com/rs/zerolog.Logger).Trace (*github.com/rs/zerolog.Logger).Log
func zEvent(l *zerolog.Logger) *zerolog.Event { return nil }

//model:for (*github.com/rs/zerolog.Logger).Err
func zErr(l *zerolog.Logger, err error) *zerolog.Event { return nil }

//model:for (*github.com/rs/zerolog.Logger).WithLevel
func zLevel(l *zerolog.Logger, v zerolog.Level) *zerolog.Event { return nil }

// ---- bbolt ----

type kv struct{ k, v []byte }

type bucketState struct {
	name []byte
	kvs  []kv
}

type dbState struct {
	path    string
	buckets []*bucketState
	writer  bool
	closed  bool
	mode    os.FileMode
}

type txState struct {
	db       *dbState
	writable bool
	buckets  []*bucketState
	given    [][]byte
	open     bool
}

type bucketRef struct {
	tx *txState
	b  *bucketState
}

var (
	files   = map[string]*dbState{}
	dbs     = map[*bolt.DB]*dbState{}
	txs     = map[*bolt.Tx]*txState{}
	buckets = map[*bolt.Bucket]*bucketRef{}
)

// nowhere is a directory that does not exist.
const nowhere = "/nonexistent/"

var opened []*bolt.DB

// BoltOpen stands for bbolt.Open in the library and remembers the databases it opened. A database
// whose name ends in "-failing" opens and then answers every request with an error.
func BoltOpen(path string, mode os.FileMode, opt *bolt.Options) (*bolt.DB, error) {
	open := bolt.Open
	if nd.Symbolic() {
		open = boltOpen
	}
	db, err := open(path, mode, opt)
	if err == nil && strings.HasSuffix(path, "-failing") {
		if nd.Symbolic() {
			boltClose(db)
		} else {
			db.Close()
		}
	}
	if err == nil {
		opened = append(opened, db)
	}
	return db, err
}

// FileMode returns the permissions of the file of a database.
func FileMode(path string) os.FileMode {
	if nd.Symbolic() {
		return files[path].mode
	}
	fi, err := os.Stat(path)
	if err != nil {
		panic(err)
	}
	return fi.Mode()
}

// CloseBolts closes the databases: they answer every request with an error from then on.
func CloseBolts() {
	for _, db := range opened {
		if nd.Symbolic() {
			boltClose(db)
		} else {
			db.Close()
		}
	}
	opened = nil
}

//model:for go.etcd.io/bbolt.Open
func boltOpen(path string, mode os.FileMode, opt *bolt.Options) (*bolt.DB, error) {
	if strings.HasPrefix(path, nowhere) {
		return nil, &os.PathError{Op: "open", Path: path, Err: os.ErrNotExist}
	}
	s := files[path]
	if s == nil {
		s = &dbState{path: path, mode: mode, closed: true}
		files[path] = s
	}
	if !s.closed {
		// the file is locked
		if opt == nil || opt.Timeout == 0 {
			panic("bolt: waits forever for a database in use")
		}
		return nil, bolt.ErrTimeout
	}
	s.closed = false
	db := new(bolt.DB)
	dbs[db] = s
	return db, nil
}

//model:for (*go.etcd.io/bbolt.DB).Close
func boltClose(db *bolt.DB) error {
	dbs[db].closed = true
	return nil
}

func copyBuckets(in []*bucketState) []*bucketState {
	var out []*bucketState
	for _, b := range in {
		c := &bucketState{name: b.name}
		c.kvs = append(c.kvs, b.kvs...)
		out = append(out, c)
	}
	return out
}

func begin(s *dbState, writable bool) (*bolt.Tx, *txState) {
	t := &txState{db: s, writable: writable, open: true, buckets: copyBuckets(s.buckets)}
	tx := new(bolt.Tx)
	txs[tx] = t
	return tx, t
}

func (t *txState) end() {
	t.open = false
	// memory handed out by the transaction must not be used afterwards
	for _, g := range t.given {
		for i := range g {
			g[i] = 0xdb
		}
	}
}

//model:for (*go.etcd.io/bbolt.DB).Update (*go.etcd.io/bbolt.DB).Batch
func boltUpdate(db *bolt.DB, fn func(*bolt.Tx) error) error {
	s := dbs[db]
	if s == nil {
		nd.Unsupported("bolt database of unknown origin")
	}
	nd.Yield()
	if s.closed {
		return bolt.ErrDatabaseNotOpen
	}
	nd.WaitUntil(func() bool { return !s.writer })
	s.writer = true
	tx, t := begin(s, true)
	defer func() {
		t.end()
		s.writer = false
	}()
	if err := fn(tx); err != nil {
		return err
	}
	for _, b := range t.buckets {
		for i := range b.kvs {
			// values are written out at commit
			b.kvs[i].v = append([]byte{}, b.kvs[i].v...)
		}
	}
	s.buckets = t.buckets
	return nil
}

//model:for (*go.etcd.io/bbolt.DB).View
func boltView(db *bolt.DB, fn func(*bolt.Tx) error) error {
	s := dbs[db]
	if s == nil {
		nd.Unsupported("bolt database of unknown origin")
	}
	nd.Yield()
	if s.closed {
		return bolt.ErrDatabaseNotOpen
	}
	tx, t := begin(s, false)
	defer t.end()
	return fn(tx)
}

func (t *txState) bucket(name []byte) *bolt.Bucket {
	for _, b := range t.buckets {
		if nd.Eq(b.name, name) {
			r := new(bolt.Bucket)
			buckets[r] = &bucketRef{t, b}
			return r
		}
	}
	return nil
}

func (t *txState) create(name []byte) *bolt.Bucket {
	t.buckets = append(t.buckets, &bucketState{name: append([]byte(nil), name...)})
	return t.bucket(name)
}

//model:for (*go.etcd.io/bbolt.Tx).Bucket
func boltBucket(tx *bolt.Tx, name []byte) *bolt.Bucket { return txs[tx].bucket(name) }

//model:for (*go.etcd.io/bbolt.Tx).CreateBucketIfNotExists
func boltCreateIf(tx *bolt.Tx, name []byte) (*bolt.Bucket, error) {
	t := txs[tx]
	if !t.writable {
		return nil, bolt.ErrTxNotWritable
	}
	if len(name) == 0 {
		return nil, bolt.ErrBucketNameRequired
	}
	if b := t.bucket(name); b != nil {
		return b, nil
	}
	return t.create(name), nil
}

//model:for (*go.etcd.io/bbolt.Tx).CreateBucket
func boltCreate(tx *bolt.Tx, name []byte) (*bolt.Bucket, error) {
	t := txs[tx]
	if !t.writable {
		return nil, bolt.ErrTxNotWritable
	}
	if len(name) == 0 {
		return nil, bolt.ErrBucketNameRequired
	}
	if t.bucket(name) != nil {
		return nil, bolt.ErrBucketExists
	}
	return t.create(name), nil
}

func ref(b *bolt.Bucket) *bucketRef {
	if b == nil {
		panic("runtime error: invalid memory address or nil pointer dereference")
	}
	r := buckets[b]
	if !r.tx.open {
		panic("bolt: bucket used after its transaction")
	}
	return r
}

//model:for (*go.etcd.io/bbolt.Bucket).Get
func boltGet(b *bolt.Bucket, key []byte) []byte {
	r := ref(b)
	for _, e := range r.b.kvs {
		if len(e.k) == len(key) && nd.Eq(e.k, key) {
			v := append([]byte{}, e.v...)
			r.tx.given = append(r.tx.given, v)
			return v
		}
	}
	return nil
}

//model:for (*go.etcd.io/bbolt.Bucket).Put
func boltPut(b *bolt.Bucket, key, value []byte) error {
	r := ref(b)
	if !r.tx.writable {
		return bolt.ErrTxNotWritable
	}
	if len(key) == 0 {
		return bolt.ErrKeyRequired
	}
	if len(key) > bolt.MaxKeySize {
		return bolt.ErrKeyTooLarge
	}
	for i, e := range r.b.kvs {
		if len(e.k) == len(key) && nd.Eq(e.k, key) {
			r.b.kvs[i].v = value
			return nil
		}
	}
	r.b.kvs = append(r.b.kvs, kv{append([]byte{}, key...), value})
	return nil
}

//model:for (*go.etcd.io/bbolt.Bucket).Delete
func boltDelete(b *bolt.Bucket, key []byte) error {
	r := ref(b)
	if !r.tx.writable {
		return bolt.ErrTxNotWritable
	}
	for i, e := range r.b.kvs {
		if len(e.k) == len(key) && nd.Eq(e.k, key) {
			r.b.kvs = append(append([]kv{}, r.b.kvs[:i]...), r.b.kvs[i+1:]...)
			return nil
		}
	}
	return nil
}
