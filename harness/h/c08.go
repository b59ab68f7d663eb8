package h

import (
	"errors"
	"time"

	json "github.com/json-iterator/go"

	"github.com/cybercryptio/d1-lib/v2/data"
	"github.com/cybercryptio/d1-lib/v2/id"

	"verif/nd"
	"verif/vtime"
)

func saConfig() id.StandaloneConfig {
	return id.StandaloneConfig{UEK: keyOf(0x10), GEK: keyOf(0x30), TEK: keyOf(0x50)}
}

// sa is a standalone identity provider over a store.
type sa struct {
	p  id.Standalone
	st *store
}

func newSA() *sa {
	s := &sa{st: newStore()}
	s.reopen()
	return s
}

func (s *sa) reopen() {
	p, err := id.NewStandalone(saConfig(), s.st)
	must(err, "creating the identity provider")
	s.p = p
}

func (s *sa) user(scopes ...id.Scope) (uid, pw string) {
	uid, pw, err := s.p.NewUser(bg, scopes...)
	must(err, "NewUser")
	return
}

func (s *sa) login(uid, pw string) string {
	t, _, err := s.p.LoginUser(bg, uid, pw)
	must(err, "LoginUser")
	return t
}

// anyPassword is an arbitrary password; it may or may not be pw.
func anyPassword(pw string) string {
	switch nd.Choose("pwkind", 5) {
	case 0:
		b := []byte(pw)
		d := nd.Bytes("pwdiff", len(b))
		for i := range b {
			b[i] ^= d[i]
			nd.Assume(b[i] != 0)
		}
		return string(b)
	case 1:
		return pw[:len(pw)-1-nd.Choose("pwcut", 2)]
	case 2:
		c := nd.Bytes("pwext", pick("extlen", 1, 2, 30))
		for i := range c {
			nd.Assume(c[i] != 0)
		}
		if nd.Choose("before", 2) == 1 {
			return string(c) + pw
		}
		return pw + string(c)
	case 3:
		return ""
	}
	b := nd.Bytes("pw", 8)
	for i := range b {
		nd.Assume(b[i] != 0)
	}
	return string(b)
}

//prop: C08 share=2
// Login succeeds exactly with the user's current password (any other string without NUL bytes is refused), also after
// password changes; a refused login or change has no effect.
func H08Password() {
	vtime.Set(epoch, 0)
	s := newSA()
	uid, pw := s.user(id.ScopeEncrypt)
	uid2, pw2 := s.user(id.ScopeDecrypt)
	nd.Assert(uid != uid2, "users have distinct identifiers")
	olds := []string{}
	n := nd.Choose("changes", tiered(2, 3))
	for i := 0; i < n; i++ {
		np, err := s.p.ChangeUserPassword(bg, uid, pw)
		must(err, "ChangeUserPassword")
		olds = append(olds, pw)
		pw = np
	}
	if nd.Choose("reopen", 2) == 1 {
		s.reopen()
	}
	var try string
	switch k := nd.Choose("try", 3); {
	case k == 0:
		try = anyPassword(pw)
	case k == 1 && n > 0:
		try = olds[nd.Choose("old", n)]
	case k == 2:
		try = pw2
	default:
		nd.Stop()
	}
	before := s.st.snapshot()
	good := len(try) == len(pw) && nd.EqStr(try, pw)
	if nd.Choose("op", 2) == 0 {
		t, exp, err := s.p.LoginUser(bg, uid, try)
		nd.Assert((err == nil) == good, "login succeeds exactly with the current password")
		if err != nil {
			nd.Reach("refused")
			nd.Assert(errors.Is(err, id.ErrNotAuthenticated) && t == "" && exp == 0, "a refused login returns nothing")
		} else {
			nd.Reach("in")
			nd.Assert(exp == epoch+3600, "the reported expiry is one hour ahead")
			i, err := s.p.GetIdentity(bg, t)
			nd.Assert(err == nil && i.ID == uid, "the token stands for the user that logged in")
		}
		nd.Assert(sameRecs(before, s.st.snapshot()), "login changes nothing in storage")
		return
	}
	np, err := s.p.ChangeUserPassword(bg, uid, try)
	nd.Assert((err == nil) == good, "changing the password needs the current password")
	if err != nil {
		nd.Reach("change refused")
		nd.Assert(errors.Is(err, id.ErrNotAuthenticated) && np == "" && sameRecs(before, s.st.snapshot()), "a refused change has no effect")
		s.login(uid, pw)
		return
	}
	_, _, err = s.p.LoginUser(bg, uid, pw)
	nd.Assert(err != nil, "the replaced password no longer works")
	s.login(uid, np)
	s.login(uid2, pw2)
}

//prop: C08
// Only the identifier of an existing user logs in: not one with anything before or behind it, not one altered in any
// way, also not with that user's password.
func H08Name() {
	vtime.Set(epoch, 0)
	s := newSA()
	uid, pw := s.user(id.ScopeEncrypt)
	uid2, pw2 := s.user(id.ScopeDecrypt)
	name := otherName(uid)
	nd.Assume(len(name) != len(uid2) || nd.Not(nd.EqStr(name, uid2)))
	if nd.Choose("password", 2) == 1 {
		pw = pw2
	}
	before := s.st.snapshot()
	t, exp, err := s.p.LoginUser(bg, name, pw)
	nd.Assert(errors.Is(err, id.ErrNotAuthenticated) && t == "" && exp == 0, "only users log in")
	np, err := s.p.ChangeUserPassword(bg, name, pw)
	nd.Assert(errors.Is(err, id.ErrNotAuthenticated) && np == "", "only users change passwords")
	nd.Assert(sameRecs(before, s.st.snapshot()), "a refused call changes nothing")
}

//prop: C08
// A token identifies exactly the user that logged in, with that user's scopes and groups as they are now, until it
// expires or the user is deleted.
func H08Identity() {
	vtime.Set(epoch, 0)
	s := newSA()
	sc := []id.Scope{id.Scope(nd.Uint64("s1")), id.Scope(nd.Uint64("s2"))}
	uid, pw := s.user(sc...)
	uid2, pw2 := s.user(id.ScopeDecrypt)
	t, t2 := s.login(uid, pw), s.login(uid2, pw2)
	gs := id.Scope(nd.Uint64("gs"))
	var groups []string
	n := nd.Choose("groups", 3)
	for i := 0; i < n; i++ {
		g, err := s.p.NewGroup(bg, t, gs)
		must(err, "NewGroup")
		groups = append(groups, g)
	}
	switch nd.Choose("then", 4) {
	case 0:
		i, err := s.p.GetIdentity(bg, t)
		must(err, "GetIdentity")
		nd.Reach("identity")
		nd.Assert(i.ID == uid && i.Scopes == sc[0]|sc[1] && len(i.Groups) == n, "the identity is the user's")
		for _, g := range groups {
			ag, ok := i.Groups[g]
			nd.Assert(ok && ag.ID == g && ag.Scopes == gs, "the identity has the user's groups with their scopes")
		}
		i, err = s.p.GetIdentity(bg, t2)
		must(err, "GetIdentity")
		nd.Assert(i.ID == uid2 && i.Scopes == id.ScopeDecrypt && len(i.Groups) == 0, "another user's identity is unaffected")
	case 1:
		sec, ns := later()
		vtime.Set(sec, ns)
		_, err := s.p.GetIdentity(bg, t)
		alive := nd.Or(sec < epoch+3600, nd.And(sec == epoch+3600, ns == 0))
		nd.Reach("time")
		nd.Assert(nd.And(err == nil, alive) || nd.And(err != nil, nd.Not(alive)), "a token identifies its user until it expires")
	case 2:
		must(s.p.DeleteUser(bg, t2, uid), "DeleteUser")
		_, err := s.p.GetIdentity(bg, t)
		nd.Reach("deleted")
		nd.Assert(err != nil, "a deleted user has no identity")
		_, _, err = s.p.LoginUser(bg, uid, pw)
		nd.Assert(errors.Is(err, id.ErrNotAuthenticated), "a deleted user cannot log in")
		_, err = s.p.ChangeUserPassword(bg, uid, pw)
		nd.Assert(errors.Is(err, id.ErrNotAuthenticated), "a deleted user cannot change the password")
	case 3:
		_, err := s.p.ChangeUserPassword(bg, uid, pw)
		must(err, "ChangeUserPassword")
		i, err := s.p.GetIdentity(bg, t2)
		must(err, "GetIdentity")
		nd.Assert(i.ID == uid2, "another user's token is unaffected by a password change")
		i, err = s.p.GetIdentity(bg, t)
		must(err, "GetIdentity")
		nd.Assert(i.Scopes == sc[0]|sc[1] && len(i.Groups) == n, "a password change keeps scopes and groups")
	}
}

//prop: C08
// No string but a genuine unexpired token identifies anyone: altered tokens, tokens of another provider, strings.
func H08Forged() {
	vtime.Set(epoch, 0)
	s := newSA()
	uid, pw := s.user(scopeAll)
	s.user(scopeAll)
	t := s.login(uid, pw)
	switch nd.Choose("how", 5) {
	case 0:
		tok, err := data.TokenFromString(t)
		must(err, "TokenFromString")
		switch nd.Choose("field", 3) {
		case 0:
			tok.Ciphertext = tamper("ct", tok.Ciphertext)
		case 1:
			tok.WrappedKey = tamper("wk", tok.WrappedKey)
		case 2:
			tok.ExpiryTime = tok.ExpiryTime.Add(time.Hour)
		}
		t, err = tok.String()
		must(err, "String")
	case 1:
		// a token of the same form made with another key
		o := id.StandaloneConfig{UEK: saConfig().UEK, GEK: saConfig().GEK, TEK: otherKey("tek", saConfig().TEK)}
		p, err := id.NewStandalone(o, s.st)
		must(err, "creating the identity provider")
		t, _, err = p.LoginUser(bg, uid, pw)
		must(err, "LoginUser")
	case 2:
		// a stored record presented as a token
		var u id.SealedUser
		must(json.Unmarshal(s.st.recs[nd.Choose("rec", 2)].data, &u), "reading the stored user")
		tok := data.SealedToken{ExpiryTime: vtime.Now().Add(time.Hour), Ciphertext: u.Ciphertext, WrappedKey: u.WrappedKey}
		var err error
		t, err = tok.String()
		must(err, "String")
	case 3:
		t = nd.String("token", nd.Choose("len", 5))
	case 4:
		t = []string{"", "null", "{}", "bnVsbA", "e30", "user", "a.b.c"}[nd.Choose("lit", 7)]
	}
	i, err := s.p.GetIdentity(bg, t)
	nd.Reach("tried")
	nd.Assert(err != nil && i.ID == "" && i.Scopes == 0 && len(i.Groups) == 0, "only a genuine token identifies a user")
}

//prop: C08 share=2
// The storage cannot turn one user into another: altered or exchanged user and group records never yield a login, an
// identity or scopes that the user does not have.
func H08Storage() {
	vtime.Set(epoch, 0)
	s := newSA()
	uid, pw := s.user(id.ScopeDecrypt)
	uid2, pw2 := s.user(id.ScopeAll)
	t, t2 := s.login(uid, pw), s.login(uid2, pw2)
	g1, err := s.p.NewGroup(bg, t, id.ScopeEncrypt)
	must(err, "NewGroup")
	g2, err := s.p.NewGroup(bg, t2, id.ScopeAll)
	must(err, "NewGroup")
	ui, ui2 := s.st.find([]byte(uid), id.DataTypeSealedUser), s.st.find([]byte(uid2), id.DataTypeSealedUser)
	gi, gi2 := s.st.find([]byte(g1), id.DataTypeSealedGroup), s.st.find([]byte(g2), id.DataTypeSealedGroup)
	switch nd.Choose("attack", 5) {
	case 0:
		s.st.recs[ui].data = s.st.recs[ui2].data
	case 1:
		s.st.recs[gi].data = s.st.recs[gi2].data
	case 2:
		s.st.recs[ui].data, s.st.recs[ui2].data = s.st.recs[ui2].data, s.st.recs[ui].data
	case 3:
		var u id.SealedUser
		must(json.Unmarshal(s.st.recs[ui].data, &u), "reading the stored user")
		switch nd.Choose("field", 3) {
		case 0:
			u.Ciphertext = tamper("ct", u.Ciphertext)
		case 1:
			u.WrappedKey = tamper("wk", u.WrappedKey)
		case 2:
			u.UID = plain("uid", 4)
		}
		b, err := json.Marshal(&u)
		must(err, "writing the stored user")
		s.st.recs[ui].data = b
	case 4:
		var g id.SealedGroup
		must(json.Unmarshal(s.st.recs[gi].data, &g), "reading the stored group")
		switch nd.Choose("field", 3) {
		case 0:
			g.Ciphertext = tamper("ct", g.Ciphertext)
		case 1:
			g.WrappedKey = tamper("wk", g.WrappedKey)
		case 2:
			g.GID = plain("gid", 4)
		}
		b, err := json.Marshal(&g)
		must(err, "writing the stored group")
		s.st.recs[gi].data = b
	}
	i, err := s.p.GetIdentity(bg, t)
	if err == nil {
		nd.Reach("identity")
		nd.Assert(i.ID == uid && i.Scopes == id.ScopeDecrypt, "the storage cannot give a user another user's scopes")
		_, has2 := i.Groups[g2]
		nd.Assert(!has2 && i.Groups[g1].Scopes&^id.ScopeEncrypt == 0, "the storage cannot give a user other groups or scopes")
	} else {
		nd.Reach("rejected")
	}
	_, _, err = s.p.LoginUser(bg, uid, pw2)
	nd.Assert(err != nil, "the storage cannot make another user's password work")
}

//prop: C08
// Many users with logins of their own: each token goes on identifying the user it was made for, also after others were
// deleted or changed their passwords.
func H08Many() {
	nd.Opt("long")
	vtime.Set(epoch, 0)
	s := newSA()
	n := pick("users", 9, 40)
	var us, ps, ts []string
	for i := 0; i < n; i++ {
		u, p := s.user(id.Scope(i))
		us, ps = append(us, u), append(ps, p)
		ts = append(ts, s.login(u, p))
	}
	k := somewhere("which", n)
	gone := nd.Choose("deleted", 2) == 1
	if gone {
		must(s.p.DeleteUser(bg, ts[0], us[k]), "DeleteUser")
	} else {
		p, err := s.p.ChangeUserPassword(bg, us[k], ps[k])
		must(err, "ChangeUserPassword")
		_, _, err = s.p.LoginUser(bg, us[k], ps[k])
		nd.Assert(err != nil, "an old password does not log in")
		ps[k] = p
	}
	for i := range us {
		x, err := s.p.GetIdentity(bg, ts[i])
		if i == k && gone {
			nd.Assert(err != nil, "a token of a deleted user identifies no one")
			continue
		}
		nd.Assert(err == nil && x.ID == us[i] && x.Scopes == id.Scope(i) && len(x.Groups) == 0, "a token identifies the user who logged in")
	}
	j := somewhere("other", n)
	_, _, err := s.p.LoginUser(bg, us[j], ps[k])
	nd.Assert((err == nil) == (j == k && !gone), "a password logs in its own user only")
}

//prop: C08
// Two instances over one storage, used in turns: a password changed, a user deleted or a membership changed through
// one counts in the other at once.
func H08Instances() {
	vtime.Set(epoch, 0)
	a := newSA()
	b := &sa{st: a.st}
	b.reopen()
	ps := [2]*sa{a, b}
	uid, pw := a.user(id.ScopeAll)
	uid2, pw2 := b.user(id.ScopeEncrypt)
	t, t2 := b.login(uid, pw), a.login(uid2, pw2)
	g, err := a.p.NewGroup(bg, t, id.ScopeDecrypt)
	must(err, "NewGroup")
	in, live, old := false, true, ""
	n := tiered(2, 3)
	for k := 0; k < n; k++ {
		p := ps[nd.Choose("instance", 2)].p
		switch nd.Choose("op", 6) {
		case 0, 1:
			in2 := nd.Choose("add", 2) == 1
			if in2 {
				err = p.AddUserToGroups(bg, t, uid2, g)
			} else {
				err = p.RemoveUserFromGroups(bg, t, uid2, g)
			}
			nd.Assert((err == nil) == live, "memberships of present users change, whichever instance knows them")
			in = live && in2
		case 2:
			must(p.DeleteUser(bg, t, uid2), "DeleteUser")
			live, in = false, false
		case 3:
			np, err := p.ChangeUserPassword(bg, uid2, pw2)
			nd.Assert((err == nil) == live, "the password changes with the current one, whichever instance set it")
			if err == nil {
				old, pw2 = pw2, np
			}
		case 4:
			_, _, err := p.LoginUser(bg, uid2, pw2)
			nd.Assert((err == nil) == live, "login succeeds exactly with the current password, whichever instance set it")
		case 5:
			i, err := p.GetIdentity(bg, t2)
			nd.Assert((err == nil) == live && (!live || (len(i.Groups) == 1) == in), "an identity is as it is now, whichever instance changed it")
		}
	}
	p := ps[nd.Choose("at last", 2)].p
	_, _, err = p.LoginUser(bg, uid2, pw2)
	nd.Assert((err == nil) == live, "login succeeds exactly with the current password, whichever instance set it")
	if old != "" {
		_, _, err = p.LoginUser(bg, uid2, old)
		nd.Assert(err != nil, "a password that was replaced is refused, whichever instance replaced it")
	}
	i, err := p.GetIdentity(bg, t2)
	nd.Assert((err == nil) == live, "the tokens of a deleted user are worthless, whichever instance deleted it")
	if live {
		_, ok := i.Groups[g]
		nd.Assert(ok == in && len(i.Groups) == map[bool]int{true: 1}[in] && i.Scopes == id.ScopeEncrypt, "an identity is as it is now, whichever instance changed it")
	}
}
