package h

import (
	"context"
	"time"

	"github.com/gofrs/uuid"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"

	d1 "github.com/cybercryptio/d1-lib/v2"

	"verif/nd"
	"verif/vtime"
)

type ctxName struct{}

// tenant is a context of a caller, with a value and a deadline.
type tenant struct {
	context.Context
	name string
}

var limit = time.Unix(2000000000, 0)

func (t tenant) Value(k interface{}) interface{} {
	if _, ok := k.(ctxName); ok {
		return t.name
	}
	return t.Context.Value(k)
}

func (t tenant) Deadline() (time.Time, bool) { return limit, true }

var errCancelled = ctxErr{}

type ctxErr struct{}

func (ctxErr) Error() string { return "cancelled by the caller" }

func (t tenant) Err() error { return errCancelled }

// inCtx checks that a call reaches a provider in the context of the request.
type inCtx struct {
	want  string
	calls int
}

func (c *inCtx) check(ctx context.Context) {
	v, ok := ctx.Value(ctxName{}).(string)
	nd.Assert(ok && v == c.want, "providers are called in the context of the request")
	d, ok := ctx.Deadline()
	nd.Assert(ok && d.Equal(limit) && ctx.Err() == errCancelled, "providers are called in the context of the request")
	c.calls++
}

type ctxStore struct {
	*store
	c *inCtx
}

func (s *ctxStore) Put(ctx context.Context, id []byte, dt io.DataType, data []byte) error {
	s.c.check(ctx)
	return s.store.Put(ctx, id, dt, data)
}
func (s *ctxStore) Get(ctx context.Context, id []byte, dt io.DataType) ([]byte, error) {
	s.c.check(ctx)
	return s.store.Get(ctx, id, dt)
}
func (s *ctxStore) Update(ctx context.Context, id []byte, dt io.DataType, data []byte) error {
	s.c.check(ctx)
	return s.store.Update(ctx, id, dt, data)
}
func (s *ctxStore) Delete(ctx context.Context, id []byte, dt io.DataType) error {
	s.c.check(ctx)
	return s.store.Delete(ctx, id, dt)
}

type ctxIDP struct {
	idp
	c     *inCtx
	token string
}

func (p *ctxIDP) GetIdentity(ctx context.Context, token string) (id.Identity, error) {
	p.c.check(ctx)
	nd.Assert(token == p.token, "the identity provider gets the caller's token")
	return p.idp.GetIdentity(ctx, token)
}

type ctxKeys struct{ c *inCtx }

func (k *ctxKeys) GetKeys(ctx context.Context) (key.Keys, error) {
	k.c.check(ctx)
	return keys(), nil
}

func (c *inCtx) ctx(name string) context.Context {
	c.want = name
	return tenant{bg, name}
}

//prop: C26 share=2
// Every call an operation on objects makes of the storage, the identity provider or the key provider carries the
// context of that request and the token it was given, whichever requests came before, and asks only for records of
// the object of the request.
func H26Objects() {
	vtime.Set(epoch, 0)
	c := &inCtx{}
	st := newStore()
	ip := &ctxIDP{c: c}
	tok := nd.String("token", pick("toklen", 0, 1, 3, 9, 80))
	ip.add(tok, ident("u", scopeAll))
	ip.token = tok
	d, err := d1.New(c.ctx("new"), &ctxKeys{c}, &ctxStore{st, c}, ip)
	must(err, "creating an instance")
	nd.Assert(c.calls > 0, "the keys come from the key provider")
	oid, err := d.Encrypt(c.ctx("first"), tok, object("text", "aad"), "g")
	must(err, "Encrypt")
	other, err := d.Encrypt(c.ctx("second"), tok, object("text", "aad"), "g")
	must(err, "Encrypt")
	n := tiered(2, 3)
	for k := 0; k < n; k++ {
		from, calls := len(st.ops), c.calls
		ctx := c.ctx("op")
		if k == 1 {
			ctx = c.ctx("another")
		}
		ids := []uuid.UUID{oid, other}
		o := ids[nd.Choose("obj", 2)]
		op := nd.Choose("op", 8)
		switch op {
		case 0:
			_, err = d.Decrypt(ctx, tok, o)
		case 1:
			err = d.Update(ctx, tok, o, object("more", ""))
		case 2:
			_, err = d.GetAccessGroups(ctx, tok, o)
		case 3:
			err = d.AddGroupsToAccess(ctx, tok, o, "h")
		case 4:
			err = d.RemoveGroupsFromAccess(ctx, tok, o, "g")
		case 5:
			err = d.AuthorizeIdentity(ctx, tok, o)
		case 6:
			if k != n-1 {
				nd.Stop()
			}
			err = d.Delete(ctx, tok, o)
		case 7:
			o, err = d.Encrypt(ctx, tok, object("new", ""))
		}
		must(err, "the operation")
		nd.Assert(len(st.ops) > from && c.calls > calls+1, "operations ask the identity provider and the storage")
		for _, p := range st.ops[from:] {
			nd.Assert(len(p.id) == 16 && nd.Eq(p.id, o.Bytes()), "an operation asks only for records of its object")
			nd.Assert(p.dt == io.DataTypeSealedObject || p.dt == io.DataTypeSealedAccess, "an operation asks only for records of its object")
		}
	}
	nd.Reach("end")
}

//prop: C26
// The same for the index and for the identity provider over a storage.
func H26Others() {
	vtime.Set(epoch, 0)
	c := &inCtx{}
	st := newStore()
	if nd.Choose("what", 2) == 0 {
		ip := &ctxIDP{c: c}
		tok := nd.String("token", pick("toklen", 0, 1, 3, 9, 80))
		ip.add(tok, ident("u", scopeAll))
		ip.token = tok
		x, err := index.NewSecureIndex(c.ctx("new"), &ctxKeys{c}, &ctxStore{st, c}, ip)
		must(err, "creating the index")
		must(x.Add(c.ctx("first"), tok, "w", "one"), "Add")
		must(x.Add(c.ctx("second"), tok, "w", "two"), "Add")
		from := len(st.ops)
		switch nd.Choose("op", 3) {
		case 0:
			must(x.Add(c.ctx("third"), tok, "w", "three"), "Add")
		case 1:
			_, err = x.Search(c.ctx("third"), tok, "w")
			must(err, "Search")
		case 2:
			must(x.Delete(c.ctx("third"), tok, "w", "one"), "Delete")
		}
		nd.Assert(len(st.ops) > from, "operations ask the storage")
		for _, p := range st.ops {
			nd.Assert(p.dt == io.DataTypeSealedNode, "an index asks only for index records")
		}
	} else {
		p, err := id.NewStandalone(saConfig(), &ctxStore{st, c})
		must(err, "creating the identity provider")
		uid, pw, err := p.NewUser(c.ctx("first"), id.ScopeAll)
		must(err, "NewUser")
		tok, _, err := p.LoginUser(c.ctx("second"), uid, pw)
		must(err, "LoginUser")
		gid, err := p.NewGroup(c.ctx("third"), tok, id.ScopeAll)
		must(err, "NewGroup")
		from := len(st.ops)
		switch nd.Choose("op", 6) {
		case 0:
			_, err = p.GetIdentity(c.ctx("fourth"), tok)
		case 1:
			_, err = p.ChangeUserPassword(c.ctx("fourth"), uid, pw)
		case 2:
			err = p.AddUserToGroups(c.ctx("fourth"), tok, uid, gid)
		case 3:
			err = p.RemoveUserFromGroups(c.ctx("fourth"), tok, uid, gid)
		case 4:
			err = p.DeleteUser(c.ctx("fourth"), tok, uid)
		case 5:
			_, _, err = p.LoginUser(c.ctx("fourth"), uid, pw)
		}
		must(err, "the operation")
		nd.Assert(len(st.ops) > from, "operations ask the storage")
		for _, q := range st.ops {
			nd.Assert(q.dt == id.DataTypeSealedUser || q.dt == id.DataTypeSealedGroup, "an identity provider asks only for users and groups")
		}
	}
	nd.Reach("end")
}
