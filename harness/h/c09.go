package h

import (
	"errors"

	"github.com/cybercryptio/d1-lib/v2/id"

	"verif/nd"
	"verif/vtime"
)

//prop: C09 share=3
// Any history of creating groups and adding and removing users: a call succeeds exactly when the caller is a member
// of every named group, and memberships are exactly those the successful calls produce.
func H09History() {
	vtime.Set(epoch, 0)
	s := newSA()
	users := [3]string{}
	toks := [3]string{}
	scopes := [3]id.Scope{id.ScopeAll, id.ScopeNone, id.ScopeDecrypt}
	nu := tiered(2, 3)
	member := map[string]bool{}
	key := func(u int, g string) string { return users[u] + "/" + g }
	for i := 0; i < nu; i++ {
		uid, pw := s.user(scopes[i])
		users[i], toks[i] = uid, s.login(uid, pw)
	}
	gs := [2]id.Scope{id.Scope(nd.Uint64("gs0")), id.Scope(nd.Uint64("gs1"))}
	var groups []string
	for k := 0; k < 2; k++ {
		u := 0
		if k == 1 {
			u = nd.Choose("creator", 2)
		}
		g, err := s.p.NewGroup(bg, toks[u], gs[k])
		must(err, "NewGroup")
		groups = append(groups, g)
		member[key(u, g)] = true
	}
	nd.Assert(groups[0] != groups[1], "groups have distinct identifiers")
	n := tiered(2, 3)
	for i := 0; i < n; i++ {
		c, t := nd.Choose("caller", nu), nd.Choose("target", nu)
		var list []string
		switch nd.Choose("list", 5) {
		case 0:
			list = []string{groups[0]}
		case 1:
			list = []string{groups[1]}
		case 2:
			list = []string{groups[0], groups[1]}
		case 3:
			list = []string{groups[1], groups[0], groups[1]}
		case 4:
			list = nil
		}
		ok := true
		for _, g := range list {
			ok = ok && member[key(c, g)]
		}
		add := nd.Choose("op", 2) == 0
		before := s.st.snapshot()
		var err error
		if add {
			err = s.p.AddUserToGroups(bg, toks[c], users[t], list...)
		} else {
			err = s.p.RemoveUserFromGroups(bg, toks[c], users[t], list...)
		}
		nd.Assert((err == nil) == ok, "changing memberships succeeds exactly for members of all the groups")
		if ok {
			for _, g := range list {
				member[key(t, g)] = add
			}
		} else {
			nd.Reach("refused")
			nd.Assert(errors.Is(err, id.ErrNotAuthorized) && sameRecs(before, s.st.snapshot()), "a refused call has no effect")
		}
	}
	for u := 0; u < nu; u++ {
		i, err := s.p.GetIdentity(bg, toks[u])
		must(err, "GetIdentity")
		nd.Assert(i.ID == users[u] && i.Scopes == scopes[u], "memberships leave the user's own scopes alone")
		cnt := 0
		for k, g := range groups {
			ag, ok := i.Groups[g]
			nd.Assert(ok == member[key(u, g)], "memberships are exactly those the calls produce")
			if ok {
				cnt++
				nd.Assert(ag.ID == g && ag.Scopes == gs[k], "a group keeps the scopes it was created with")
			}
		}
		nd.Assert(len(i.Groups) == cnt, "a user is in no other group")
	}
}

//prop: C09
// Names that are not groups of the caller are refused: unknown strings, user identifiers (also the caller's own),
// the empty name. No one else's identity suffers.
func H09Names() {
	vtime.Set(epoch, 0)
	s := newSA()
	uid, pw := s.user(scopeAll)
	uid2, pw2 := s.user(scopeAll)
	t, t2 := s.login(uid, pw), s.login(uid2, pw2)
	g, err := s.p.NewGroup(bg, t, scopeAll)
	must(err, "NewGroup")
	name := ""
	switch nd.Choose("name", 4) {
	case 0:
		name = uid
	case 1:
		name = uid2
	case 2:
		name = plain("name", nd.Choose("len", 3))
	case 3:
		name = otherName(g)
	}
	list := []string{name}
	if w := nd.Choose("with", 3); w == 1 {
		list = []string{g, name}
	} else if w == 2 {
		list = []string{name, g}
	}
	before := s.st.snapshot()
	if nd.Choose("op", 2) == 0 {
		err = s.p.AddUserToGroups(bg, t, uid2, list...)
	} else {
		err = s.p.RemoveUserFromGroups(bg, t, uid2, list...)
	}
	nd.Reach("tried")
	nd.Assert(errors.Is(err, id.ErrNotAuthorized), "only the caller's groups can be given away")
	nd.Assert(sameRecs(before, s.st.snapshot()), "a refused call has no effect")
	i, err := s.p.GetIdentity(bg, t2)
	nd.Assert(err == nil && len(i.Groups) == 0, "no one can spoil another user's identity")
}

//prop: C09
// Every operation that needs a caller refuses strings that are not tokens, expired tokens and tokens of deleted users,
// without effect.
func H09Caller() {
	vtime.Set(epoch, 0)
	s := newSA()
	uid, pw := s.user(scopeAll)
	uid2, pw2 := s.user(scopeAll)
	t, t2 := s.login(uid, pw), s.login(uid2, pw2)
	g, err := s.p.NewGroup(bg, t, scopeAll)
	must(err, "NewGroup")
	switch nd.Choose("who", 4) {
	case 0:
		t = nd.String("token", nd.Choose("len", 4))
	case 1:
		vtime.Set(epoch+3600, 1)
	case 2:
		must(s.p.DeleteUser(bg, t2, uid), "DeleteUser")
	case 3:
		t = uid
	}
	before := s.st.snapshot()
	switch nd.Choose("op", 4) {
	case 0:
		var ng string
		ng, err = s.p.NewGroup(bg, t, scopeAll)
		nd.Assert(ng == "", "a refused call returns nothing")
	case 1:
		err = s.p.AddUserToGroups(bg, t, uid2, g)
	case 2:
		err = s.p.RemoveUserFromGroups(bg, t, uid2, g)
	case 3:
		err = s.p.DeleteUser(bg, t, uid2)
	}
	nd.Reach("tried")
	nd.Assert(err != nil, "a caller without identity is refused")
	nd.Assert(sameRecs(before, s.st.snapshot()), "a refused call has no effect")
}

//prop: C09
// Deleting a user removes that user and no one else; deleting again succeeds.
func H09Delete() {
	vtime.Set(epoch, 0)
	s := newSA()
	uid, pw := s.user(id.ScopeDecrypt)
	uid2, pw2 := s.user(id.ScopeEncrypt)
	t := s.login(uid, pw)
	g, err := s.p.NewGroup(bg, t, scopeAll)
	must(err, "NewGroup")
	must(s.p.AddUserToGroups(bg, t, uid2, g), "AddUserToGroups")
	must(s.p.DeleteUser(bg, t, uid2), "DeleteUser")
	must(s.p.DeleteUser(bg, t, uid2), "DeleteUser again")
	must(s.p.DeleteUser(bg, t, g), "DeleteUser of a group's identifier")
	_, _, err = s.p.LoginUser(bg, uid2, pw2)
	nd.Assert(err != nil, "a deleted user cannot log in")
	err = s.p.AddUserToGroups(bg, t, uid2, g)
	nd.Assert(errors.Is(err, id.ErrUserNotFound), "a deleted user cannot be added to groups")
	i, err := s.p.GetIdentity(bg, t)
	nd.Assert(err == nil && i.ID == uid && i.Scopes == id.ScopeDecrypt && len(i.Groups) == 1, "other users are unaffected")
	nd.Assert(i.Groups[g].Scopes == scopeAll, "groups are unaffected")
	nd.Reach("done")
}

//prop: C09
// Many groups: a call that names many of them succeeds exactly when the caller is a member of each, wherever in the list
// the other one is, and then takes effect for all of them.
func H09Many() {
	nd.Opt("long")
	vtime.Set(epoch, 0)
	s := newSA()
	uid, pw := s.user(id.ScopeAll)
	uid2, pw2 := s.user(id.ScopeNone)
	t, t2 := s.login(uid, pw), s.login(uid2, pw2)
	n := pick("groups", 5, 9, 17, 34)
	var all []string
	for i := 0; i < n; i++ {
		g, err := s.p.NewGroup(bg, t, id.Scope(i))
		must(err, "NewGroup")
		all = append(all, g)
	}
	other, err := s.p.NewGroup(bg, t2, id.ScopeAll)
	must(err, "NewGroup")
	k := somewhere("which", n)
	list := append([]string{}, all...)
	foreign := nd.Choose("foreign", 2) == 1
	if foreign {
		list[k] = other
	}
	before := s.st.snapshot()
	err = s.p.AddUserToGroups(bg, t, uid2, list...)
	nd.Assert((err == nil) == !foreign, "changing memberships succeeds exactly for members of all the groups")
	if foreign {
		nd.Reach("refused")
		nd.Assert(errors.Is(err, id.ErrNotAuthorized) && sameRecs(before, s.st.snapshot()), "a refused call has no effect")
		return
	}
	check := func(want []string) {
		i, err := s.p.GetIdentity(bg, t2)
		must(err, "GetIdentity")
		nd.Assert(len(i.Groups) == len(want)+1, "memberships are exactly those the calls produce")
		for j, g := range all {
			ag, ok := i.Groups[g]
			nd.Assert(ok == member(want, g) && (!ok || ag.Scopes == id.Scope(j)), "memberships are exactly those the calls produce")
		}
	}
	check(all)
	gone := []string{all[k]}
	if nd.Choose("remove", 2) == 1 {
		gone = append(append([]string{}, all[:k]...), all[k+1:]...)
	}
	must(s.p.RemoveUserFromGroups(bg, t, uid2, gone...), "RemoveUserFromGroups")
	want := all
	for _, g := range gone {
		want = remove(want, g)
	}
	check(want)
	must(s.p.AddUserToGroups(bg, t2, uid, other), "AddUserToGroups")
	i, err := s.p.GetIdentity(bg, t)
	nd.Assert(err == nil && len(i.Groups) == n+1, "the caller's own memberships are as before")
}
