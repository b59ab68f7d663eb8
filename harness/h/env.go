// Package h contains the harnesses: each states one aspect of a property of d1-lib over the library's public API.
package h

import (
	"context"
	"errors"

	"github.com/gofrs/uuid"
	json "github.com/json-iterator/go"

	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/io"
	"github.com/cybercryptio/d1-lib/v2/key"

	d1 "github.com/cybercryptio/d1-lib/v2"

	"verif/nd"
)

var bg = context.Background()

// pick chooses one of the given lengths.
func pick(name string, ls ...int) int { return ls[nd.Choose(name, len(ls))] }

func tiered(quick, thorough int) int {
	if nd.Tier() == 0 {
		return quick
	}
	return thorough
}

// ---- keys ----

func keyOf(b byte) []byte {
	k := make([]byte, 32)
	for i := range k {
		k[i] = b + byte(i)
	}
	return k
}

func keys() key.Keys {
	return key.Keys{KEK: keyOf(0x00), AEK: keyOf(0x20), TEK: keyOf(0x40), IEK: keyOf(0x60)}
}

func keyProvider() key.Provider {
	k := key.NewStatic(keys())
	return &k
}

// ---- identities ----

var errIDP = errors.New("identity provider: unknown token")

// idp maps tokens to identities.
type idp struct {
	tokens []string
	ids    []id.Identity
	not    map[string]bool // tokens that are refused, with an error next to the identity
}

// refuse makes the identity provider refuse a token, returning the identity together with an error.
func (p *idp) refuse(token string) { p.not = map[string]bool{token: true} }

func (p *idp) add(token string, i id.Identity) {
	p.tokens = append(p.tokens, token)
	p.ids = append(p.ids, i)
}

func (p *idp) GetIdentity(_ context.Context, token string) (id.Identity, error) {
	for i, t := range p.tokens {
		if t == token {
			if p.not[t] {
				return p.ids[i], errIDP
			}
			return p.ids[i], nil
		}
	}
	return id.Identity{}, errIDP
}

func ident(uid string, scope id.Scope, groups ...id.AccessGroup) id.Identity {
	m := map[string]id.AccessGroup{}
	for _, g := range groups {
		m[g.ID] = g
	}
	return id.Identity{ID: uid, Scopes: scope, Groups: m}
}

// ---- storage ----

var errStore = errors.New("storage failure")

type rec struct {
	id   []byte
	dt   io.DataType
	data []byte
}

type op struct {
	kind string
	id   []byte
	dt   io.DataType
	data []byte
}

// store is a storage provider that follows the documented contract, records what it is asked and can fail.
type store struct {
	recs   []rec
	ops    []op
	failAt int // index of the operation that fails, -1: none
	after  bool
	fail2  int
	failed op
	why    error // what the failing operation answers
}

func newStore() *store { return &store{failAt: -1, fail2: -1, why: errStore} }

func clone(b []byte) []byte { return append([]byte{}, b...) }

func (s *store) find(id []byte, dt io.DataType) int {
	for i, r := range s.recs {
		if r.dt == dt && len(r.id) == len(id) && nd.Eq(r.id, id) {
			return i
		}
	}
	return -1
}

// step records an operation; before: it fails without effect, after: it fails although the effect took place.
func (s *store) step(kind string, id []byte, dt io.DataType, data []byte) (before, after bool) {
	n := len(s.ops)
	s.ops = append(s.ops, op{kind, clone(id), dt, clone(data)})
	if n == s.failAt || n == s.fail2 {
		nd.Reach("fault")
		if s.after && kind != "get" {
			return false, true
		}
		return true, false
	}
	return false, false
}

func (s *store) res(after bool, err error) error {
	if after {
		return s.why
	}
	return err
}

func (s *store) Put(_ context.Context, id []byte, dt io.DataType, data []byte) error {
	b, a := s.step("put", id, dt, data)
	if b {
		return s.why
	}
	if s.find(id, dt) >= 0 {
		return io.ErrAlreadyExists
	}
	s.recs = append(s.recs, rec{clone(id), dt, clone(data)})
	return s.res(a, nil)
}

func (s *store) Get(_ context.Context, id []byte, dt io.DataType) ([]byte, error) {
	b, _ := s.step("get", id, dt, nil)
	if b {
		return nil, s.why
	}
	i := s.find(id, dt)
	if i < 0 {
		return nil, io.ErrNotFound
	}
	return clone(s.recs[i].data), nil
}

func (s *store) Update(_ context.Context, id []byte, dt io.DataType, data []byte) error {
	b, a := s.step("update", id, dt, data)
	if b {
		return s.why
	}
	i := s.find(id, dt)
	if i < 0 {
		return io.ErrNotFound
	}
	s.recs[i].data = clone(data)
	return s.res(a, nil)
}

func (s *store) Delete(_ context.Context, id []byte, dt io.DataType) error {
	b, a := s.step("delete", id, dt, nil)
	if b {
		return s.why
	}
	if i := s.find(id, dt); i >= 0 {
		s.recs = append(append([]rec{}, s.recs[:i]...), s.recs[i+1:]...)
	}
	return s.res(a, nil)
}

// mutations counts the operations that could have changed something.
func (s *store) mutations(from int) int {
	n := 0
	for _, o := range s.ops[from:] {
		if o.kind != "get" {
			n++
		}
	}
	return n
}

func (s *store) snapshot() []rec {
	var out []rec
	for _, r := range s.recs {
		out = append(out, rec{clone(r.id), r.dt, clone(r.data)})
	}
	return out
}

// sameRecs compares two snapshots as sets.
func sameRecs(a, b []rec) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		ok := false
		for _, y := range b {
			if x.dt == y.dt && len(x.id) == len(y.id) && nd.Eq(x.id, y.id) {
				ok = len(x.data) == len(y.data) && nd.Eq(x.data, y.data)
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// ---- d1 ----

const scopeAll = id.ScopeAll

// world is a D1 instance over a store with one identity provider.
type world struct {
	d  d1.D1
	st *store
	ip *idp
}

func newWorld() *world {
	w := &world{st: newStore(), ip: &idp{}}
	w.reopen()
	return w
}

// reopen creates a fresh instance over the same storage.
func (w *world) reopen() {
	d, err := d1.New(bg, keyProvider(), w.st, w.ip)
	must(err, "creating an instance")
	w.d = d
}

func must(err error, what string) {
	if err != nil {
		nd.Log(what, err)
	}
	nd.Assert(err == nil, what+" must succeed")
	if err != nil {
		nd.Stop()
	}
}

// setEq compares a set of strings with expected members (distinct).
func setEq(m map[string]struct{}, want []string) bool {
	if len(m) != len(want) {
		return false
	}
	for _, w := range want {
		if _, ok := m[w]; !ok {
			return false
		}
	}
	return true
}

// plain is an arbitrary string of n characters that JSON writes as they are.
func plain(name string, n int) string {
	s := nd.String(name, n)
	nd.Plain(s)
	return s
}

// long is a name of n bytes, of which some at the beginning, in the middle and at the end are arbitrary.
func long(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%23)
	}
	v := plain(name, 4)
	b[0], b[n/2], b[n-2], b[n-1] = v[0], v[1], v[2], v[3]
	return string(b)
}

// otherName is any string of some form that differs from the given one.
func otherName(s string) string {
	switch nd.Choose("form", 6) {
	case 0:
		return s + plain("suffix", pick("slen", 1, 2, 9))
	case 1:
		return plain("prefix", pick("plen", 1, 2, 7)) + s
	case 2:
		b := []byte(s)
		d := nd.Bytes("diff", len(b))
		same := true
		for i := range b {
			b[i] ^= d[i]
			same = nd.And(same, d[i] == 0)
			nd.Assume(b[i] < 0x80)
		}
		nd.Assume(nd.Not(same))
		return string(b)
	case 3:
		return s[:len(s)-1-nd.Choose("cut", 2)]
	case 4:
		i := pick("at", 0, 1, len(s)/2)
		return s[:i] + plain("infix", 1) + s[i:] + plain("end", 1)
	}
	return plain("name", pick("nlen", 0, 1, 3))
}

// idealOnly ends native runs over real primitives: the harness compares two runs over one stream of randomness.
func idealOnly() {
	if nd.Native() && !nd.Ideal() {
		nd.Stop()
	}
}

func member(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

func insert(list []string, s string) []string {
	if member(list, s) {
		return list
	}
	return append(append([]string{}, list...), s)
}

func remove(list []string, s string) []string {
	var out []string
	for _, x := range list {
		if x != s {
			out = append(out, x)
		}
	}
	return out
}

func object(pt, aad string) *data.Object {
	return &data.Object{Plaintext: []byte(pt), AssociatedData: []byte(aad)}
}

func symObject(name string, ptLen, aadLen int) *data.Object {
	return &data.Object{Plaintext: symBytes(name+".pt", ptLen), AssociatedData: symBytes(name+".aad", aadLen)}
}

// symBytes makes arbitrary bytes; none at all if n is negative.
func symBytes(name string, n int) []byte {
	if n < 0 {
		return nil
	}
	return nd.Bytes(name, n)
}

func cloneObject(o *data.Object) data.Object {
	return data.Object{Plaintext: clone(o.Plaintext), AssociatedData: clone(o.AssociatedData)}
}

func sameObject(a, b data.Object) bool {
	if len(a.Plaintext) != len(b.Plaintext) || len(a.AssociatedData) != len(b.AssociatedData) {
		return false
	}
	return nd.And(nd.Eq(a.Plaintext, b.Plaintext), nd.Eq(a.AssociatedData, b.AssociatedData))
}

func emptyObject(o data.Object) bool { return len(o.Plaintext) == 0 && len(o.AssociatedData) == 0 }

func groupAll(g string) id.AccessGroup { return id.AccessGroup{ID: g, Scopes: scopeAll} }

type ctxT = context.Context

func pick1(name string, ss ...string) string { return ss[nd.Choose(name, len(ss))] }

func jsonText(v interface{}) ([]byte, error) { return json.Marshal(v) }

// everything is one instance of each part of the library with something in it.
type everything struct {
	d   *d1.D1
	x   *index.SecureIndex
	p   *id.Standalone
	oid uuid.UUID
	tok data.SealedToken
	uid string
	pw  string
	ut  string
}

// newEverything keeps all parts in one store.
func newEverything(st io.Provider) *everything {
	e := &everything{}
	ip := &idp{}
	ip.add("t", ident("u", scopeAll))
	d, err := d1.New(bg, keyProvider(), st, ip)
	must(err, "creating an instance")
	e.d = &d
	x, err := index.NewSecureIndex(bg, keyProvider(), st, ip)
	must(err, "creating the index")
	e.x = &x
	p, err := id.NewStandalone(saConfig(), st)
	must(err, "creating the identity provider")
	e.p = &p
	e.oid, err = d.Encrypt(bg, "t", object("text", "aad"))
	must(err, "Encrypt")
	e.tok, err = d.CreateToken(bg, []byte("x"))
	must(err, "CreateToken")
	must(x.Add(bg, "t", "w", "i"), "Add")
	e.uid, e.pw, err = p.NewUser(bg, id.ScopeAll)
	must(err, "NewUser")
	e.ut, _, err = p.LoginUser(bg, e.uid, e.pw)
	must(err, "LoginUser")
	return e
}

const calls = 22

// call does one operation.
func (e *everything) call(ctx context.Context, op int) error {
	var err error
	switch op {
	case 0:
		_, err = e.d.Encrypt(ctx, "t", object("text", "aad"))
	case 1:
		if _, err := e.d.Decrypt(ctx, "t", uuid.Nil); err == nil {
			return errors.New("there is no such object")
		}
	case 2:
		err = e.x.Add(ctx, "t", "w", "j")
	case 3:
		_, _, err = e.p.NewUser(ctx, id.ScopeAll)
	case 4:
		_, err = e.d.Decrypt(ctx, "t", e.oid)
	case 5:
		err = e.d.Update(ctx, "t", e.oid, object("more", ""))
	case 6:
		err = e.d.Delete(ctx, "t", e.oid)
	case 7:
		_, err = e.d.CreateToken(ctx, []byte("y"))
	case 8:
		_, err = e.d.GetTokenContents(ctx, &e.tok)
	case 9:
		_, err = e.d.GetAccessGroups(ctx, "t", e.oid)
	case 10:
		err = e.d.AddGroupsToAccess(ctx, "t", e.oid, "h")
	case 11:
		err = e.d.RemoveGroupsFromAccess(ctx, "t", e.oid, "h")
	case 12:
		err = e.d.AuthorizeIdentity(ctx, "t", e.oid)
	case 13:
		_, err = e.x.Search(ctx, "t", "w")
	case 14:
		err = e.x.Delete(ctx, "t", "w", "i")
	case 15:
		_, err = e.p.GetIdentity(ctx, e.ut)
	case 16:
		_, _, err = e.p.LoginUser(ctx, e.uid, e.pw)
	case 17:
		_, err = e.p.ChangeUserPassword(ctx, e.uid, e.pw)
	case 18:
		_, err = e.p.NewGroup(ctx, e.ut)
	case 19:
		err = e.p.AddUserToGroups(ctx, e.ut, e.uid)
	case 20:
		err = e.p.RemoveUserFromGroups(ctx, e.ut, e.uid)
	case 21:
		err = e.p.DeleteUser(ctx, e.ut, e.uid)
	}
	return err
}

// nth gives different names for different numbers.
func nth(prefix string, i int) string {
	return prefix + string(rune('0'+i/100)) + string(rune('0'+i/10%10)) + string(rune('0'+i%10))
}

// names lists n different names.
func names(prefix string, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, nth(prefix, i))
	}
	return out
}

// many is a number beyond the sizes at which fixed tables, batches and counters end.
func many(name string) int { return pick(name, 9, 17, 33, 65, 129, 260) }

// somewhere is a position among n: the first, the last, or one in between.
func somewhere(name string, n int) int {
	if n < 4 {
		return nd.Choose(name, n)
	}
	return pick(name, 0, 1, n/2, n-2, n-1)
}
