package h

import (
	"errors"

	"github.com/cybercryptio/d1-lib/v2/id"
	"github.com/cybercryptio/d1-lib/v2/index"

	"verif/nd"
)

//prop: C11
// Every index operation succeeds exactly for an authenticated caller with the index scope; for others it fails and
// the storage is not even asked.
func H11Access() {
	x := newIx()
	x.add("w", "one")
	own := id.Scope(nd.Uint64("scope"))
	grp := id.Scope(nd.Uint64("group.scope"))
	known := pick1("known token", "caller", "", " ", "Bearer x")
	x.ip.add(known, ident("u2", own, id.AccessGroup{ID: pick1("group", "g", "u2", "u", ""), Scopes: grp}))
	tok := known
	refused := false
	switch nd.Choose("token", 4) {
	case 3:
		refused = true
		x.ip.refuse(tok)
	case 1:
		tok = nd.String("tok", nd.Choose("toklen", 3))
	case 2:
		tok = "u"
	}
	authentic := tok == known || tok == "t"
	authentic = authentic && !refused
	allowed := tok == "t" || tok == known && !refused && uint64(own)&uint64(id.ScopeIndex) != 0
	before, n := x.st.snapshot(), len(x.st.ops)
	var err error
	var r []string
	op := nd.Choose("op", 3)
	switch op {
	case 0:
		err = x.x.Add(bg, tok, "w", "two")
	case 1:
		r, err = x.x.Search(bg, tok, "w")
	case 2:
		err = x.x.Delete(bg, tok, "w", "one")
	}
	nd.Assert((err == nil) == allowed, "an index operation succeeds exactly for an authenticated caller with the index scope")
	if err == nil {
		nd.Reach("allowed")
		return
	}
	if authentic {
		nd.Reach("not authorized")
		nd.Assert(errors.Is(err, index.ErrNotAuthorized), "a caller without the scope is told so")
	} else {
		nd.Reach("not authenticated")
		nd.Assert(errors.Is(err, index.ErrNotAuthenticated), "an unknown caller is told so")
	}
	nd.Assert(len(r) == 0, "a refused search returns nothing")
	nd.Assert(len(x.st.ops) == n && sameRecs(before, x.st.snapshot()), "a refused operation does not touch the storage")
}

//prop: C11
// The decision is made anew for every call: a scope given or taken away counts from the next call on.
func H11Fresh() {
	x := newIx()
	x.ip.add("caller", ident("u2", 0))
	n := tiered(3, 4)
	for k := 0; k < n; k++ {
		s := id.Scope(nd.Uint64("scope"))
		x.ip.ids[1].Scopes = s
		var err error
		switch nd.Choose("op", 3) {
		case 0:
			err = x.x.Add(bg, "caller", "w", "two")
		case 1:
			_, err = x.x.Search(bg, "caller", "w")
		case 2:
			err = x.x.Delete(bg, "caller", "w", "one")
		}
		nd.Assert((err == nil) == (uint64(s)&uint64(id.ScopeIndex) != 0), "each call is decided by the caller's present scopes")
	}
}
