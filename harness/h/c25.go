package h

import (
	"context"
	"encoding/base64"
	"encoding/hex"

	"github.com/rs/zerolog"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"
	"github.com/cybercryptio/d1-lib/v2/key"

	d1 "github.com/cybercryptio/d1-lib/v2"

	"verif/nd"
	"verif/vtime"
)

// sink collects the lines of a logger.
type sink struct{ lines [][]byte }

func (s *sink) Write(b []byte) (int, error) {
	s.lines = append(s.lines, clone(b))
	return len(b), nil
}

func (s *sink) logger() zerolog.Logger { return zerolog.New(s) }

// masked returns all that was logged with the given identifiers blanked.
func (s *sink) masked(ids ...string) []byte {
	var all []byte
	for _, l := range s.lines {
		all = append(all, l...)
	}
	for k, v := range ids {
		var out []byte
		for len(v) > 0 {
			i := nd.Find(all, []byte(v))
			if i < 0 {
				break
			}
			out = append(append(out, all[:i]...), '<', byte('0'+k))
			all = all[i+len(v):]
		}
		all = append(out, all...)
	}
	return all
}

// seen returns the identifiers under which the storage was asked for records, in the forms in which they may be logged.
func seen(st *store) []string {
	var out []string
next:
	for i, o := range st.ops {
		for _, p := range st.ops[:i] {
			if len(p.id) == len(o.id) && nd.Same(p.id, o.id) {
				continue next
			}
		}
		out = append(out, string(o.id), hex.EncodeToString(o.id), base64.StdEncoding.EncodeToString(o.id), base64.RawURLEncoding.EncodeToString(o.id))
	}
	return out
}

func symKeys() key.Keys {
	return key.Keys{KEK: nd.Bytes("kek", 32), AEK: nd.Bytes("aek", 32), TEK: nd.Bytes("tek", 32), IEK: nd.Bytes("iek", 32)}
}

//prop: C25
// Two runs of the object operations with different keys, plaintexts, associated data, token contents and randomness
// write the same log, apart from the identifiers of the objects.
func H25Objects() {
	nd.Opt("logs")
	vtime.Set(epoch, 0)
	n := pick("len", 1, 16)
	script := nd.Choose("script", 4)
	raw := nd.Bytes("raw", 3)
	run := func() []byte {
		s := &sink{}
		ctx := s.logger().WithContext(bg)
		k := key.NewStatic(symKeys())
		st, ip := newStore(), &idp{}
		t := plain("token", 3)
		v, nobody := t+"v", t+"n"
		ip.add(t, ident("u", scopeAll))
		ip.add(v, ident("v", scopeAll))
		d, err := d1.New(ctx, &k, st, ip)
		must(err, "creating an instance")
		oid, err := d.Encrypt(ctx, t, symObject("o", n, n), "g")
		must(err, "Encrypt")
		switch script {
		case 0:
			must(d.Update(ctx, t, oid, symObject("p", n, n)), "Update")
			_, err = d.Decrypt(ctx, t, oid)
			must(err, "Decrypt")
			must(d.Delete(ctx, t, oid), "Delete")
			_, err = d.Decrypt(ctx, t, oid)
			nd.Assert(err != nil, "a deleted object is gone")
		case 1:
			must(d.AddGroupsToAccess(ctx, t, oid, "h"), "AddGroupsToAccess")
			must(d.RemoveGroupsFromAccess(ctx, t, oid, "g"), "RemoveGroupsFromAccess")
			_, err = d.GetAccessGroups(ctx, t, oid)
			must(err, "GetAccessGroups")
			_, err = d.Decrypt(ctx, v, oid)
			nd.Assert(err != nil, "a stranger is refused")
		case 2:
			tok, err := d.CreateToken(ctx, nd.Bytes("contents", n))
			must(err, "CreateToken")
			_, err = d.GetTokenContents(ctx, &tok)
			must(err, "GetTokenContents")
			tok.Ciphertext = tamper("ct", tok.Ciphertext)
			_, err = d.GetTokenContents(ctx, &tok)
			nd.Assert(err != nil, "a modified token is refused")
		case 3:
			i := st.find(oid.Bytes(), 0)
			st.recs[i].data = clone(raw)
			_, err = d.Decrypt(ctx, t, oid)
			_, err = d.Decrypt(ctx, nobody, oid)
			nd.Assert(err != nil, "an unknown caller is refused")
		}
		return s.masked(append([]string{oid.String()}, seen(st)...)...)
	}
	a, b := run(), run()
	nd.Reach("compared")
	nd.Assert(len(a) == len(b) && nd.Eq(a, b), "the log does not depend on keys, contents or randomness")
}

//prop: C25
// The same for the index, whose keywords and identifiers differ, and for users, whose passwords and tokens do.
func H25Others() {
	nd.Opt("logs")
	vtime.Set(epoch, 0)
	script := nd.Choose("script", 4)
	kl, il := 1, 0
	if script < 2 {
		kl, il = pick("klen", 1, 4), pick("ilen", 0, 3)
	}
	run := func() []byte {
		s := &sink{}
		ctx := s.logger().WithContext(bg)
		st := newStore()
		var ids []string
		if script < 2 {
			k := key.NewStatic(symKeys())
			ip := &idp{}
			t := plain("token", 3)
			ip.add(t, ident("u", scopeAll))
			x, err := index.NewSecureIndex(ctx, &k, st, ip)
			must(err, "creating the index")
			w, i := nd.String("keyword", kl), plain("identifier", il)
			must(x.Add(ctx, t, w, i), "Add")
			if script == 1 {
				must(x.Add(ctx, t, w, i+"2"), "Add")
				must(x.Delete(ctx, t, w, i), "Delete")
			}
			_, err = x.Search(ctx, t, w)
			must(err, "Search")
			_, err = x.Search(ctx, t+"n", w)
			nd.Assert(err != nil, "an unknown caller is refused")
		} else {
			c := id.StandaloneConfig{UEK: nd.Bytes("uek", 32), GEK: nd.Bytes("gek", 32), TEK: nd.Bytes("tek", 32)}
			p, err := id.NewStandalone(c, st)
			must(err, "creating the identity provider")
			uid, pw, err := p.NewUser(ctx, id.ScopeAll)
			must(err, "NewUser")
			tok, _, err := p.LoginUser(ctx, uid, pw)
			must(err, "LoginUser")
			gid, err := p.NewGroup(ctx, tok, id.ScopeAll)
			must(err, "NewGroup")
			uid2, pw2, err := p.NewUser(ctx, id.ScopeAll)
			must(err, "NewUser")
			ids = []string{uid, gid, uid2}
			_, err = p.GetIdentity(ctx, tok)
			must(err, "GetIdentity")
			_, err = p.GetIdentity(ctx, "!"+plain("token", 3))
			nd.Assert(err != nil, "a string that is no token is refused")
			_, _, err = p.LoginUser(ctx, uid, plain("password", 1)+"x")
			nd.Assert(err != nil, "a string that is not the password is refused")
			if script == 2 {
				must(p.AddUserToGroups(ctx, tok, uid2, gid), "AddUserToGroups")
				must(p.RemoveUserFromGroups(ctx, tok, uid2, gid), "RemoveUserFromGroups")
				_, _, err = p.LoginUser(ctx, uid2, pw)
				nd.Assert(err != nil, "another password is refused")
			} else {
				pw3, err := p.ChangeUserPassword(ctx, uid2, pw2)
				must(err, "ChangeUserPassword")
				_, err = p.ChangeUserPassword(ctx, uid2, pw2)
				nd.Assert(err != nil, "the old password is refused")
				_, _, err = p.LoginUser(ctx, uid2, pw3)
				must(err, "LoginUser")
				must(p.DeleteUser(ctx, tok, uid2), "DeleteUser")
			}
		}
		return s.masked(append(ids, seen(st)...)...)
	}
	a, b := run(), run()
	nd.Reach("compared")
	nd.Assert(len(a) == len(b) && nd.Eq(a, b), "the log does not depend on keys, keywords, identifiers, passwords or tokens")
}

// callerContext is a context with a logger that has a field, and possibly room for more.
func callerContext(s *sink) context.Context {
	l := s.logger()
	if nd.Choose("room", 2) == 1 {
		l = l.With().Str("request", "r1").Logger()
	}
	return l.WithContext(bg)
}

//prop: C25
// A call adds nothing to the logger in the caller's context, and its own lines carry the caller's fields.
func H25Caller() {
	nd.Opt("logs")
	vtime.Set(epoch, 0)
	s := &sink{}
	ctx := callerContext(s)
	e := newEverything(newStore())
	zerolog.Ctx(ctx).Info().Msg("before")
	must(e.call(ctx, nd.Choose("op", calls)), "the operation")
	zerolog.Ctx(ctx).Info().Msg("before")
	n := len(s.lines)
	nd.Assert(n > 2, "calls are logged")
	nd.Assert(nd.Eq(s.lines[0], s.lines[n-1]), "the caller's logger is left alone")
}

//prop: C25 share=2
// Calls running at the same time under one logger write the lines they write on their own: no line carries the
// method, user or object of another call.
func H25Concurrent() {
	nd.Opt("logs")
	vtime.Set(epoch, 0)
	nd.SetPreempt(tiered(1, 2), true)
	s := &sink{}
	ctx := callerContext(s)
	w := newWorld()
	w.ip.add("ta", ident("alice", scopeAll))
	w.ip.add("tb", ident("bob", scopeAll))
	a, err := w.d.Encrypt(bg, "ta", object("a", ""))
	must(err, "Encrypt")
	b, err := w.d.Encrypt(bg, "tb", object("b", ""))
	must(err, "Encrypt")
	fs := []func(){func() { w.d.Decrypt(ctx, "ta", a) }}
	switch nd.Choose("other", 5) {
	case 0:
		fs = append(fs, func() { w.d.GetAccessGroups(ctx, "tb", b) })
	case 1:
		fs = append(fs, func() { w.d.CreateToken(ctx, []byte("x")) })
	case 2:
		fs = append(fs, func() { w.d.Decrypt(ctx, "nobody", b) })
	case 3:
		x := newIx()
		fs = append(fs, func() { x.x.Search(ctx, "t", "w") })
	case 4:
		p, err := id.NewStandalone(saConfig(), newStore())
		must(err, "creating the identity provider")
		uid, pw, err := p.NewUser(bg)
		must(err, "NewUser")
		fs = append(fs, func() { p.LoginUser(ctx, uid, pw) })
	}
	var own [][]byte
	for _, f := range fs {
		f()
	}
	own, s.lines = s.lines, nil
	nd.Par(fs...)
	nd.Reach("done")
	nd.Assert(len(s.lines) == len(own), "calls running at the same time write the lines they write on their own")
	for _, l := range s.lines {
		ok := false
		for k, o := range own {
			if len(l) == len(o) && nd.Same(l, o) {
				ok = true
				own = append(append([][]byte{}, own[:k]...), own[k+1:]...)
				break
			}
		}
		nd.Assert(ok, "calls running at the same time write the lines they write on their own")
	}
}
