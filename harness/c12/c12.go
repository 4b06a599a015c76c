// Package c12: denials override grants, rights aggregate over groups.
package c12

import (
	"strings"

	"github.com/ixtendio/gofre/auth"
	"verifharness/sym"
)

// covers is the reference for scopes (see c11).
func covers(p, q string) bool {
	pl := strings.Split(p, "/")
	ql := strings.Split(q, "/")
	for i, l := range pl {
		if i >= len(ql) {
			return false
		}
		if l == "*" {
			if i == len(pl)-1 {
				return true
			}
			continue
		}
		if l != ql[i] {
			return false
		}
	}
	return len(pl) == len(ql)
}

func scope(name string) string {
	return []string{"a", "b", "a/b", "a/*", "*", "*/b", "a/c"}[sym.Choose(name, 7)]
}

func perm(name string) auth.Permission {
	return auth.Permission{Scope: scope(name + ".scope"), Access: auth.Access(sym.Uint64(name + ".access"))}
}

// grants is the reference for one role.
func grants(allowed, denied []auth.Permission, q auth.Permission) bool {
	ok := false
	for _, a := range allowed {
		if covers(a.Scope, q.Scope) {
			ok = sym.Or(ok, a.Access&q.Access == q.Access)
		}
	}
	for _, d := range denied {
		if covers(d.Scope, q.Scope) {
			ok = sym.And(ok, d.Access&q.Access == 0)
		}
	}
	return ok
}

// HarnessRole: allowed and denied permissions with arbitrary access words.
func HarnessRole() {
	var r auth.Role
	r.Name = "r"
	na, nd := sym.Choose("allowed", 3), sym.Choose("denied", 3)
	if !sym.Thorough() && na+nd > 3 {
		return
	}
	for i := 0; i < na; i++ {
		r.AllowedPermissions = append(r.AllowedPermissions, perm("a"))
	}
	for i := 0; i < nd; i++ {
		r.DeniedPermissions = append(r.DeniedPermissions, perm("d"))
	}
	q := auth.Permission{Scope: []string{"a", "a/b", "a/c", "b/b"}[sym.Choose("q.scope", 4)], Access: auth.Access(sym.Uint64("q.access"))}
	sym.Assume(q.Access != 0)
	got := r.HasPermission(q)
	sym.Observe("got", got)
	sym.Reach("role")
	sym.Assert(sym.Iff(got, grants(r.AllowedPermissions, r.DeniedPermissions, q)), "a role grants exactly the allowed accesses none of which is denied")
}

// HarnessUser: two groups of up to two roles each.
func HarnessUser() {
	var u auth.User
	want, wantRole := false, false
	asked := sym.Text("asked", 1+sym.Choose("askedlen", sym.Pick(1, 2)), "aA")
	q := auth.Permission{Scope: "a/b", Access: auth.Access(sym.Uint64("q.access"))}
	sym.Assume(q.Access != 0)
	ng := sym.Choose("groups", 3)
	for i := 0; i < ng; i++ {
		var g auth.Group
		gWant, gRole := false, false
		nr := sym.Choose("roles", 3)
		for j := 0; j < nr; j++ {
			r := auth.Role{Name: sym.Text("name", 1+sym.Choose("namelen", 2), "aA")}
			if sym.Choose("hasAllowed", 2) == 1 {
				r.AllowedPermissions = []auth.Permission{{Scope: "a/*", Access: auth.Access(sym.Uint64("a.access"))}}
			}
			if sym.Thorough() && sym.Choose("hasDenied", 2) == 1 {
				r.DeniedPermissions = []auth.Permission{{Scope: "a/b", Access: auth.Access(sym.Uint64("d.access"))}}
			}
			g.Roles = append(g.Roles, r)
			gWant = sym.Or(gWant, grants(r.AllowedPermissions, r.DeniedPermissions, q))
			gRole = sym.Or(gRole, r.Name == asked)
		}
		sym.Assert(sym.Iff(g.HasPermission(q), gWant), "a group has a permission exactly when one of its roles grants it")
		sym.Assert(sym.Iff(g.HasRole(asked), gRole), "a group has a role exactly when one of its roles bears the name")
		u.Groups = append(u.Groups, g)
		want = sym.Or(want, gWant)
		wantRole = sym.Or(wantRole, gRole)
	}
	got, gotRole := u.HasPermission(q), u.HasRole(asked)
	sym.Observe("got", got)
	sym.Observe("gotRole", gotRole)
	sym.Reach("user")
	sym.Assert(sym.Iff(got, want), "a user has a permission exactly when one of its roles grants it")
	sym.Assert(sym.Iff(gotRole, wantRole), "a user has a role exactly when one of its roles bears the name")
}

// HarnessMany: users of many groups, roles and permissions, of which any one may be the one that matters.
func HarnessMany() {
	n := sym.Size("n", []int{9, 33, 70}, 300, "auth")
	kind := sym.Choose("kind", 4)
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)]
	q := auth.Permission{Scope: "a/b", Access: auth.Access(sym.Uint64("q.access"))}
	sym.Assume(q.Access != 0)
	a, d := auth.Access(sym.Uint64("a.access")), auth.Access(sym.Uint64("d.access"))
	var u auth.User
	var g auth.Group
	r := auth.Role{Name: "r"}
	want := a&q.Access == q.Access
	asked := "asked"
	for i := 0; i < n; i++ {
		p := auth.Permission{Scope: "other/" + string(rune('a'+i%26)), Access: auth.Access(^uint32(0))}
		name := "r" + string(rune('a'+i%26))
		if i == at {
			p, name = auth.Permission{Scope: "a/*", Access: a}, asked
		}
		switch kind {
		case 0: // groups
			u.Groups = append(u.Groups, auth.Group{Roles: []auth.Role{{Name: name, AllowedPermissions: []auth.Permission{p}}}})
		case 1: // roles
			g.Roles = append(g.Roles, auth.Role{Name: name, AllowedPermissions: []auth.Permission{p}})
		case 2: // permissions
			r.Name = asked
			r.AllowedPermissions = append(r.AllowedPermissions, p)
		case 3: // denials
			r.Name = asked
			r.AllowedPermissions = []auth.Permission{{Scope: "*", Access: a}}
			if i == at {
				p.Access = d
			}
			r.DeniedPermissions = append(r.DeniedPermissions, p)
		}
	}
	switch kind {
	case 1:
		u.Groups = []auth.Group{g}
	case 2, 3:
		u.Groups = []auth.Group{{Roles: []auth.Role{r}}}
	}
	if kind == 3 {
		want = sym.And(want, d&q.Access == 0)
	}
	sym.Reach("user")
	sym.Assert(sym.Iff(u.HasPermission(q), want), "a user has a permission exactly when one of its roles grants it")
	sym.Assert(u.HasRole(asked) && !u.HasRole("ASKED") && !u.HasRole("aske"), "a user has a role exactly when one of its roles bears the name")
}

// HarnessHistory: the same user, groups and roles by name, with other contents every time; each answer is about what is
// there when it is asked for.
func HarnessHistory() {
	u := auth.User{Id: "u", IdentityPlatform: "p"}
	n := sym.Pick(2, 3)
	for i := 0; i < n; i++ {
		q := auth.Permission{Scope: []string{"a/b", "A/b"}[sym.Choose("q.scope", 2)], Access: auth.Access([]uint64{1, 3}[sym.Choose("q.access", 2)])}
		var r, other auth.Role
		r.Name, other.Name = "r", "s"
		switch sym.Choose("change", 5) {
		case 0: // granted
			r.AllowedPermissions = []auth.Permission{{Scope: "a/*", Access: auth.Access(sym.Uint64("a.access"))}}
		case 1: // denied again
			r.AllowedPermissions = []auth.Permission{{Scope: "*", Access: 3}}
			r.DeniedPermissions = []auth.Permission{{Scope: "a/b", Access: auth.Access(sym.Uint64("d.access"))}}
		case 2: // by another role
			other.AllowedPermissions = []auth.Permission{{Scope: "A/b", Access: auth.Access(sym.Uint64("a.access"))}}
		case 3: // by no role
		case 4: // the role has another name
			r.Name = "R"
			r.AllowedPermissions = []auth.Permission{{Scope: "a/b", Access: auth.Access(sym.Uint64("a.access"))}}
		}
		g, h := auth.Group{Name: "g", Roles: []auth.Role{r}}, auth.Group{Name: "h", Roles: []auth.Role{other}}
		u.Groups = []auth.Group{g, h}
		one, two := grants(r.AllowedPermissions, r.DeniedPermissions, q), grants(other.AllowedPermissions, other.DeniedPermissions, q)
		asked := []string{"r", "R"}[sym.Choose("asked", 2)]
		sym.Reach("user")
		sym.Assert(sym.Iff(r.HasPermission(q), one), "a role grants exactly the allowed accesses none of which is denied")
		sym.Assert(sym.Iff(g.HasPermission(q), one) && sym.Iff(h.HasPermission(q), two), "a group has a permission exactly when one of its roles grants it")
		sym.Assert(sym.Iff(u.HasPermission(q), sym.Or(one, two)), "a user has a permission exactly when one of its roles grants it")
		sym.Assert(u.HasRole(asked) == (r.Name == asked) && g.HasRole(asked) == (r.Name == asked) && !h.HasRole(asked), "a user has a role exactly when one of its roles bears the name")
	}
}

// HarnessRoles: what one role denies does not reach another, wherever the two stand.
func HarnessRoles() {
	q := auth.Permission{Scope: []string{"a/b", "a"}[sym.Choose("q.scope", 2)], Access: auth.Access(sym.Uint64("q.access"))}
	sym.Assume(q.Access != 0)
	role := func(name string) (r auth.Role, b bool) {
		r.Name = name
		shape := sym.Choose("shape", 5)
		ac, dn := auth.Access(sym.Uint64("a.access")), auth.Access(sym.Uint64("d.access"))
		if shape != 1 && shape != 4 {
			r.AllowedPermissions = []auth.Permission{{Scope: []string{"a/b", "*"}[shape%2], Access: ac}}
		}
		if shape > 0 && shape != 3 {
			r.DeniedPermissions = []auth.Permission{{Scope: []string{q.Scope, "*", "a/*"}[sym.Choose("denied scope", 3)], Access: dn}}
		}
		return r, grants(r.AllowedPermissions, r.DeniedPermissions, q)
	}
	same := sym.Choose("same name", 2) == 1
	r, one := role("r")
	name := "s"
	if same {
		name = "r"
	}
	s, two := role(name)
	g := auth.Group{Name: "g", Roles: []auth.Role{r, s}}
	u := auth.User{Id: "u", Groups: []auth.Group{g}}
	sym.Reach("roles")
	sym.Assert(sym.Iff(g.HasPermission(q), sym.Or(one, two)), "a group has a permission exactly when one of its roles grants it")
	sym.Assert(sym.Iff(u.HasPermission(q), sym.Or(one, two)), "a user has a permission exactly when one of its roles grants it")
	v := auth.User{Id: "u", Groups: []auth.Group{{Name: "g", Roles: []auth.Role{r}}, {Name: "g", Roles: []auth.Role{s}}}}
	sym.Assert(sym.Iff(v.HasPermission(q), sym.Or(one, two)), "the rights of all groups count")
}

// HarnessKnown: names and scopes that the code itself knows are like any other.
func HarnessKnown() {
	known := func(name string) string {
		if sym.Choose(name+".from", 2) == 0 {
			return []string{"admin", "root", "superuser", "*", "", "anonymous", "owner", "ADMIN", "system"}[sym.Choose(name, 9)]
		}
		return sym.Constant(name, "auth", "middleware")
	}
	n := known("name")
	asked := known("asked")
	acc := auth.Access(sym.Uint64("access"))
	r := auth.Role{Name: n, AllowedPermissions: []auth.Permission{{Scope: "x", Access: acc}}}
	g := auth.Group{Name: n, Roles: []auth.Role{r}}
	u := auth.User{Id: n, IdentityPlatform: n, Groups: []auth.Group{g}}
	q := auth.Permission{Scope: "x", Access: auth.Access(sym.Uint64("q.access"))}
	sym.Assume(q.Access != 0)
	sym.Reach("known")
	want := acc&q.Access == q.Access
	sym.Assert(sym.Iff(r.HasPermission(q), want) && sym.Iff(g.HasPermission(q), want) && sym.Iff(u.HasPermission(q), want), "a permission is granted by what a role allows, whatever its name")
	no := auth.User{Id: n, IdentityPlatform: n, Groups: []auth.Group{{Name: n, Roles: []auth.Role{{Name: n}}}}}
	sym.Assert(!no.HasPermission(q) && !no.Groups[0].HasPermission(q), "a name grants nothing")
	sym.Assert(u.HasRole(asked) == (n == asked) && g.HasRole(asked) == (n == asked), "a role is had under its own name")
	bare := auth.User{Id: asked, IdentityPlatform: asked, Groups: []auth.Group{{Name: asked}}}
	sym.Assert(!bare.HasRole(asked), "the name of a user or group is no role")
}
