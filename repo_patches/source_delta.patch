From b283b87ac3618fe51c4438897c24567ca91f9765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 01/53] fix: Queue.Empty and Stack.Empty recursed into
 themselves without end

---
 lib/queue.go | 2 +-
 lib/stack.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/queue.go b/lib/queue.go
index 328a328..7f0b656 100644
--- a/lib/queue.go
+++ b/lib/queue.go
@@ -47,7 +47,7 @@ func (q *Queue[T]) Len() int {
 }
 
 func (q *Queue[T]) Empty() bool {
-    return q.Empty()
+    return q.Len() == 0
 }
 
 func NewQueue[T any]() *Queue[T] {
diff --git a/lib/stack.go b/lib/stack.go
index 9972469..a21a701 100644
--- a/lib/stack.go
+++ b/lib/stack.go
@@ -39,7 +39,7 @@ func (s *Stack[T]) ClearAll() {
 }
 
 func (s *Stack[T]) Empty() bool {
-	return s.Empty()
+	return s.Len() == 0
 }
 
 func NewStack[T any]() *Stack[T] {
-- 
2.43.0


From 91210361910c02f26274a81914e8d24b1f210d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 02/53] fix: genericset <= and < test for (proper) subset, not
 for the negation of superset

---
 lib/starlark_types.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 50d6d22..d8bcfc7 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -585,8 +585,7 @@ func (g *GenericSet) CompareSameType(op syntax.Token, y_ starlark.Value, depth i
 		defer iter.Done()
 		return x.IsSuperset(iter)
 	case syntax.LE: // subset
-		gt, err := y.CompareSameType(syntax.GT, x, depth)
-		return !gt, err
+		return y.CompareSameType(syntax.GE, x, depth)
 	case syntax.GT: // proper superset
 		if x.Len() <= y.Len() {
 			return false, nil
@@ -595,8 +594,7 @@ func (g *GenericSet) CompareSameType(op syntax.Token, y_ starlark.Value, depth i
 		defer iter.Done()
 		return x.IsSuperset(iter)
 	case syntax.LT: // proper subset
-		ge, err := y.CompareSameType(syntax.GE, x, depth)
-		return !ge, err
+		return y.CompareSameType(syntax.GT, x, depth)
 	default:
 		return false, fmt.Errorf("%s %s %s not implemented", x.Type(), op, y.Type())
 	}
-- 
2.43.0


From 2e9e72e1c06e44ef44ed9dbd44c86993c3898c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 03/53] fix: assigning to a genericmap key no longer changes
 other maps and item lists that share the entry

---
 lib/starlark_types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index d8bcfc7..6fec4ed 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -307,11 +307,12 @@ func (g *GenericMap) Get(key starlark.Value) (v starlark.Value, found bool, err
 }
 
 func (g *GenericMap) SetKey(key, value starlark.Value) error {
-	for _, entry := range g.entries {
+	for i, entry := range g.entries {
 		if eq, err := starlark.Equal(entry[0], key); err != nil {
 			return fmt.Errorf("%s: %v", "genericmap", err)
 		} else if eq {
-			entry[1] = value
+			// entries are shared with other maps and with the lists items() returned
+			g.entries[i] = starlark.Tuple{entry[0], value}
 			return nil
 		}
 	}
-- 
2.43.0


From 1778adf24d546959043ddd401e0eca3176bf3880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 04/53] fix: genericmap construction and update replace
 existing keys instead of duplicating them

---
 lib/starlark_types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 6fec4ed..2767bc6 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -214,14 +214,18 @@ func updateDict(dict *GenericMap, args starlark.Tuple, kwargs []starlark.Tuple)
 		if mapping, ok := arg.(starlark.IterableMapping); ok {
 			items := mapping.Items()
 			for _, item := range items {
-				dict.entries = append(dict.entries, item)
+				if err := dict.SetKey(item[0], item[1]); err != nil {
+					return err
+				}
 			}
 		} else {
 			return fmt.Errorf("genericmap: got %s, want mapping", arg.Type())
 		}
 	}
 	for _, kwarg := range kwargs {
-		dict.entries = append(dict.entries, kwarg)
+		if err := dict.SetKey(kwarg[0], kwarg[1]); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 03047c218b4be55820078b3f07c7adbb070e4b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 05/53] fix: genericset issubset reports comparison errors

---
 lib/starlark_types.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 2767bc6..c75e304 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -847,6 +847,9 @@ func set_issubset(thread *starlark.Thread, b *starlark.Builtin, args starlark.Tu
 		return nil, err
 	}
 	diff, err := b.Receiver().(*GenericSet).IsSubset(other.(*GenericSet))
+	if err != nil {
+		return nil, nameErr(b, err)
+	}
 	return starlark.Bool(diff), nil
 }
 
-- 
2.43.0


From 44b46aa182f8b0d3cc1a6eb5edb01834c6e2374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 06/53] fix: genericset operations called without their
 argument report it instead of crashing

---
 lib/starlark_types.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index c75e304..1f6cf65 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -811,7 +811,7 @@ func set_clear(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwa
 func set_difference(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	// TODO: support multiple others: s.difference(*others)
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -827,7 +827,7 @@ func set_difference(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple
 func set_intersection(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	// TODO: support multiple others: s.difference(*others)
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -856,7 +856,7 @@ func set_issubset(thread *starlark.Thread, b *starlark.Builtin, args starlark.Tu
 // https://github.com/google/starlark-go/blob/master/doc/spec.md#set_issuperset.
 func set_issuperset(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -917,7 +917,7 @@ func set_remove(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kw
 // https://github.com/google/starlark-go/blob/master/doc/spec.md#set·symmetric_difference.
 func set_symmetric_difference(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var other starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &other); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &other); err != nil {
 		return nil, err
 	}
 	iter := other.Iterate()
@@ -932,7 +932,7 @@ func set_symmetric_difference(_ *starlark.Thread, b *starlark.Builtin, args star
 // https://github.com/google/starlark-go/blob/master/doc/spec.md#set·union.
 func set_union(_ *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var iterable starlark.Iterable
-	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 0, &iterable); err != nil {
+	if err := starlark.UnpackPositionalArgs(b.Name(), args, kwargs, 1, &iterable); err != nil {
 		return nil, err
 	}
 	iter := iterable.Iterate()
-- 
2.43.0


From f258b1066d1af071da6fcf26f158e1dff765b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 07/53] fix: bags with the same elements are equal whatever the
 elements print as

---
 lib/starlark_types.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 1f6cf65..0065e5b 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -1009,17 +1009,32 @@ func bagEqual(elems []starlark.Value, elems2 []starlark.Value, depth int) (bool,
 	if len(elems) != len(elems2) {
 		return false, nil
 	}
+	// Equal elements may print differently (a dict prints in insertion order), so they need not be
+	// at the same position.
+	used := make([]bool, len(elems2))
 	for i, elem := range elems {
-		eq, err := starlark.EqualDepth(elem, elems2[i], depth)
-		if err != nil {
-			return false, err
+		found := false
+		var incomparable error
+		for k := range elems2 {
+			j := (i + k) % len(elems2)
+			if used[j] {
+				continue
+			}
+			eq, err := starlark.EqualDepth(elem, elems2[j], depth)
+			if err != nil && k == 0 {
+				incomparable = err
+			}
+			if err == nil && eq {
+				used[j] = true
+				found = true
+				break
+			}
 		}
-		if !eq {
-			return false, nil
+		if !found {
+			return false, incomparable
 		}
 	}
 	return true, nil
-
 }
 
 func (b *Bag) Attr(name string) (starlark.Value, error) {
-- 
2.43.0


From 29a9fb79cd751c19596cea8a425f5731d30a96df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 08/53] fix: include the arguments of a call in the hash of its
 frame

Two states that differed only in the argument values of a function in
progress had the same hash, so the second one was dropped as visited.
---
 modelchecker/thread.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 6ab6506..c250d16 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -306,6 +306,12 @@ func (c *CallFrame) HashCode() string {
 	// This is to ensure that the same scoped variables are not treated the same
 	// if program counter is at different stmts.
 	h := c.scope.Hash()
+	// The arguments of the call are part of the state too.
+	vars, err := StringDictToJson(c.vars)
+	if err != nil {
+		panic(err)
+	}
+	h.Write(vars)
 	h.Write([]byte(c.pc))
 	if c.obj != nil {
 		h.Write([]byte(c.obj.RefString()))
-- 
2.43.0


From f713fab442ce007838e5cc6f3900524d60f3bf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:46 +0000
Subject: [PATCH 09/53] fix: clone a role that refers back to itself to one
 copy only

A role whose params or fields reach the role again was cloned twice, so after
a fork different references to the same role no longer compared equal.
---
 modelchecker/clone.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index e86df9b..f104491 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -247,25 +247,27 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 		if cached, ok := refs[value]; ok {
 			return cached, nil
 		} else {
-			params, err := deepCloneStarlarkValueWithPermutations(r.Params, refs, permutations, alt)
-			if err != nil {
-				return nil, err
-			}
-			fields, err := deepCloneStarlarkValueWithPermutations(r.Fields, refs, permutations, alt)
-			if err != nil {
-				return nil, err
-			}
+			// Register the copy before cloning its params and fields: they can refer back to this role,
+			// and must then refer to this copy.
 			newRole := &lib.Role{
 				ID:          id,
 				Name:        prefix,
 				Symmetric:   r.IsSymmetric(),
-				Params:      params.(*lib.Struct),
-				Fields:      fields.(*lib.Struct),
 				Methods:     r.Methods,
 				RoleMethods: r.RoleMethods,
 				InitValues:  r.InitValues,
 			}
 			refs[value] = newRole
+			params, err := deepCloneStarlarkValueWithPermutations(r.Params, refs, permutations, alt)
+			if err != nil {
+				return nil, err
+			}
+			fields, err := deepCloneStarlarkValueWithPermutations(r.Fields, refs, permutations, alt)
+			if err != nil {
+				return nil, err
+			}
+			newRole.Params = params.(*lib.Struct)
+			newRole.Fields = fields.(*lib.Struct)
 			return newRole, nil
 		}
 	default:
-- 
2.43.0


From e7b7b65e07ee765014bf8e52391825cd16556814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 10/53] fix: copy the contents of structs when a state is
 forked

Mutable values held in a starlark struct were shared by all forks, so a
change on one path leaked into the others; symmetric values in a struct
were not seen as in use.
---
 modelchecker/clone.go         | 18 ++++++++++++++++--
 modelchecker/state_visitor.go | 13 +++++++++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index f104491..b9d9b37 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/fizzbee-io/fizzbee/lib"
 	"go.starlark.net/starlark"
+	"go.starlark.net/starlarkstruct"
 )
 
 func deepCloneStarlarkValue(value starlark.Value, refs map[starlark.Value]starlark.Value) (starlark.Value, error) {
@@ -25,10 +26,9 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 	// "builtin_function_or_method".
 	switch value.Type() {
 
-	case "NoneType", "int", "float", "bool", "string", "bytes", "function", "range", "struct", "symmetric_values", "Channel", "symmetry_domain":
+	case "NoneType", "int", "float", "bool", "string", "bytes", "function", "range", "symmetric_values", "Channel", "symmetry_domain":
 		//case starlark.Bool, starlark.String, starlark.Int:
 		// For simple values, just return a copy
-		// Also starlark struct is immutable
 		// symmetry_domain is stateless configuration (Name, Limit, DomainType)
 		return value, nil
 
@@ -131,6 +131,20 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 		newDict := CloneDict(dict, refs, permutations, alt)
 		newVal.ReplaceEntriesFromStringDict(newDict)
 		return newVal, nil
+	case "struct":
+		// The fields of a starlark struct cannot be reassigned, but their values can be mutable.
+		v := value.(*starlarkstruct.Struct)
+		dict := starlark.StringDict{}
+		v.ToStringDict(dict)
+		newDict := CloneDict(dict, refs, permutations, alt)
+		for name, member := range dict {
+			if _, ok := newDict[name]; !ok {
+				newDict[name] = member
+			}
+		}
+		newVal := starlarkstruct.FromStringDict(v.Constructor(), newDict)
+		refs[value] = newVal
+		return newVal, nil
 	case "RoleStub":
 		// TODO(jp): Should this also reuse cached refs?
 		r := value.(*lib.RoleStub)
diff --git a/modelchecker/state_visitor.go b/modelchecker/state_visitor.go
index 866674d..b198e95 100644
--- a/modelchecker/state_visitor.go
+++ b/modelchecker/state_visitor.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/fizzbee-io/fizzbee/lib"
 	"go.starlark.net/starlark"
+	"go.starlark.net/starlarkstruct"
 )
 
 // StateVisitor defines the interface for visiting state elements during traversal
@@ -106,7 +107,7 @@ func visitStarlarkValue(value starlark.Value, visitor StateVisitor, visited map[
 
 	switch value.Type() {
 	case "NoneType", "int", "float", "bool", "string", "bytes", "function",
-		"builtin_function_or_method", "range", "struct", "symmetric_values",
+		"builtin_function_or_method", "range", "symmetric_values",
 		"model_value", "Channel":
 		return
 
@@ -180,6 +181,14 @@ func visitStarlarkValue(value starlark.Value, visitor StateVisitor, visited map[
 			visitStarlarkValue(val, visitor, visited)
 		}
 
+	case "struct":
+		st := value.(*starlarkstruct.Struct)
+		dict := starlark.StringDict{}
+		st.ToStringDict(dict)
+		for _, val := range dict {
+			visitStarlarkValue(val, visitor, visited)
+		}
+
 	case "role":
 		role := value.(*lib.Role)
 		if role.IsSymmetric() {
@@ -198,7 +207,7 @@ func visitStarlarkValue(value starlark.Value, visitor StateVisitor, visited map[
 // isPointerType returns true if the value is a pointer type that could cause cycles
 func isPointerType(value starlark.Value) bool {
 	switch value.Type() {
-	case "list", "set", "dict", "bag", "genericset", "genericmap", "record", "role", "RoleStub":
+	case "list", "set", "dict", "bag", "genericset", "genericmap", "record", "struct", "role", "RoleStub":
 		return true
 	default:
 		return false
-- 
2.43.0


From f4dc7e7e2cc22cb276b758eb73959a108f84f1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:30 +0000
Subject: [PATCH 11/53] fix: print a role without following references to other
 roles

Roles that refer to each other made String() recurse without end, which
crashed the checker, e.g. when hashing the remaining items of a for loop
over roles or ordering a dict keyed by roles.
---
 lib/starlark_role.go  | 24 ++++++++++++++++++++++--
 lib/starlarkstruct.go | 20 ++++++++++++--------
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/lib/starlark_role.go b/lib/starlark_role.go
index d247ec4..6215c55 100644
--- a/lib/starlark_role.go
+++ b/lib/starlark_role.go
@@ -130,14 +130,34 @@ func (r *Role) String() string {
 	b := strings.Builder{}
 	b.WriteString(fmt.Sprintf("role %s#%d (", r.Name, r.GetRef()))
 	if len(r.Params.AttrNames()) > 0 {
-		b.WriteString(r.Params.String())
+		writeRecord(&b, r.Params)
 		b.WriteString(",")
 	}
-	b.WriteString(r.Fields.String())
+	writeRecord(&b, r.Fields)
 	b.WriteString(")")
 	return b.String()
 }
 
+// writeRecord prints the record with the roles it refers to printed as references only:
+// roles commonly refer to each other, and printing them in full would not end.
+func writeRecord(b *strings.Builder, s *Struct) {
+	b.WriteString(s.constructorName())
+	b.WriteByte('(')
+	for i, e := range s.entries {
+		if i > 0 {
+			b.WriteString(", ")
+		}
+		b.WriteString(e.name)
+		b.WriteString(" = ")
+		value, err := MarshalJSONStarlarkValue(e.value, 0)
+		if err != nil {
+			value = []byte(e.value.Type())
+		}
+		b.Write(value)
+	}
+	b.WriteByte(')')
+}
+
 func (r *Role) MarshalJSON() ([]byte, error) {
 	b := strings.Builder{}
 	b.WriteString("{")
diff --git a/lib/starlarkstruct.go b/lib/starlarkstruct.go
index d6e01ae..b90ccec 100644
--- a/lib/starlarkstruct.go
+++ b/lib/starlarkstruct.go
@@ -153,14 +153,7 @@ func (s *Struct) ToStringDict(d starlark.StringDict) {
 
 func (s *Struct) String() string {
 	buf := new(strings.Builder)
-	switch constructor := s.constructor.(type) {
-	case starlark.String:
-		// NB: The Java implementation always prints struct
-		// even for Bazel provider instances.
-		buf.WriteString(constructor.GoString()) // avoid String()'s quotation
-	default:
-		buf.WriteString(s.constructor.String())
-	}
+	buf.WriteString(s.constructorName())
 	buf.WriteByte('(')
 	for i, e := range s.entries {
 		if i > 0 {
@@ -174,6 +167,17 @@ func (s *Struct) String() string {
 	return buf.String()
 }
 
+func (s *Struct) constructorName() string {
+	switch constructor := s.constructor.(type) {
+	case starlark.String:
+		// NB: The Java implementation always prints struct
+		// even for Bazel provider instances.
+		return constructor.GoString() // avoid String()'s quotation
+	default:
+		return s.constructor.String()
+	}
+}
+
 func (s *Struct) MarshalJSON() ([]byte, error) {
 	buf := new(strings.Builder)
 	buf.WriteString("{")
-- 
2.43.0


From 4cb8a8ba361d5fc4a7c3af7dd89688eac5ae0d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 12/53] fix: a nested block in a parallel block no longer drops
 the remaining statements

---
 modelchecker/thread.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index c250d16..c47db24 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -476,7 +476,11 @@ func (t *Thread) Execute() ([]*Process, bool) {
 	defer t.Process.propagateEnabled()
 	for t.Stack.Len() > 0 {
 		for t.currentFrame().pc == "" || strings.HasSuffix(t.currentFrame().pc, ".Block.$") {
-			yield = t.executeEndOfBlock()
+			forks, yield = t.executeEndOfBlockWithForks()
+			if len(forks) > 0 {
+				// The block was a statement of a parallel block that has more statements to run.
+				return forks, yield
+			}
 			if yield {
 				if !hasNonEndOfBlockStmts && t.Process.GetThreadsCount() < initialThreads && t.Process.Parent != nil && t.Process.Parent.Enabled {
 					t.Process.Fairness = t.Fairness
@@ -527,7 +531,10 @@ func (t *Thread) Execute() ([]*Process, bool) {
 				return forks, true
 			}
 			for t.Stack.Len() > 0 && (t.currentFrame().pc == "" || strings.HasSuffix(t.currentFrame().pc, ".Block.$")) {
-				t.executeEndOfBlock()
+				endForks, _ := t.executeEndOfBlockWithForks()
+				if len(endForks) > 0 {
+					return endForks, true
+				}
 			}
 
 			return forks, true
@@ -1223,9 +1230,16 @@ func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 }
 
 func (t *Thread) executeEndOfBlock() bool {
+	_, yield := t.executeEndOfBlockWithForks()
+	return yield
+}
+
+// executeEndOfBlockWithForks leaves the innermost block. When that block was a statement of a parallel block
+// with statements left to run, it returns one fork for each of them.
+func (t *Thread) executeEndOfBlockWithForks() ([]*Process, bool) {
 	frame := t.currentFrame()
 	if frame == nil {
-		return false
+		return nil, false
 	}
 	for {
 
@@ -1261,7 +1275,7 @@ func (t *Thread) executeEndOfBlock() bool {
 
 			if t.Stack.Len() == 0 {
 				t.Process.removeCurrentThread()
-				return true
+				return nil, true
 			} else {
 				frame = t.currentFrame()
 				// if protobuf is of type Function then it is a function call.
@@ -1290,8 +1304,7 @@ func (t *Thread) executeEndOfBlock() bool {
 					}
 					t.Process.updateAllVariablesInScope(returnedVars)
 					t.Process.RecordReturn(t.currentFrame(), oldFrame, starlark.None, oldScope.flow)
-					_, yield := t.executeEndOfStatement()
-					return yield
+					return t.executeEndOfStatement()
 				}
 
 			}
@@ -1299,7 +1312,7 @@ func (t *Thread) executeEndOfBlock() bool {
 		frame.pc = RemoveLastBlock(t.currentPc())
 		forks, yield := t.executeEndOfStatement()
 		if len(forks) > 0 || yield {
-			return yield
+			return forks, yield
 		}
 
 		if t.currentPc() != "" {
@@ -1309,9 +1322,9 @@ func (t *Thread) executeEndOfBlock() bool {
 	if frame.scope.flow == ast.Flow_FLOW_SERIAL ||
 		frame.scope.flow == ast.Flow_FLOW_PARALLEL {
 		// Only yield if there was at least one executable statement
-		return t.Process.Enabled
+		return nil, t.Process.Enabled
 	}
-	return false
+	return nil, false
 }
 
 func (t *Thread) CopyInitValuesForEphemeralFields(oldFrame *CallFrame) {
-- 
2.43.0


From 90b53e40f36d2dbaf0f06f6b370a2d29469b1da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:36 +0000
Subject: [PATCH 13/53] fix: a choice that executes nothing keeps what its step
 already executed

---
 modelchecker/processor.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index cf59137..a9e8b0a 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1128,6 +1128,13 @@ func (n *Node) ForkForAction(process *Process, role *lib.Role, action *ast.Actio
 	return forkNode
 }
 
+// continueStep marks n as a continuation of the step that parent is in the middle of: what parent has already
+// executed counts, even when the choice taken by n executes nothing itself.
+func (n *Node) continueStep(parent *Node, executed bool) {
+	n.Process.Enabled = n.Process.Enabled || executed
+	n.Process.ThreadProgress = parent.Process.ThreadProgress
+}
+
 func (n *Node) ForkForAlternatePaths(process *Process, name string) *Node {
 
 	forkNode := &Node{
@@ -2006,17 +2013,20 @@ func (p *Processor) probeNextStates(process *Process) []*NextTransition {
 				// Disabled path: a require failed or the body was a no-op.
 				continue
 			}
+			executed := n.Enabled
 			if n.ThreadProgress {
 				n.Enable()
 			}
 			h := n.HashCode()
-			if seenIntermediate[h] {
+			if enabled, seen := seenIntermediate[h]; seen && (enabled || !n.Enabled) {
 				continue
 			}
-			seenIntermediate[h] = true
+			seenIntermediate[h] = n.Enabled
 			if !yield {
 				for _, fork := range forks {
-					stack = append(stack, n.ForkForAlternatePaths(fork, fork.Name))
+					next := n.ForkForAlternatePaths(fork, fork.Name)
+					next.continueStep(n, executed)
+					stack = append(stack, next)
 				}
 				continue
 			}
@@ -2308,6 +2318,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	if len(forks) == 0 && !node.Enabled && !node.ThreadProgress {
 		return false, false
 	}
+	executed := node.Enabled
 	if node.ThreadProgress {
 		node.Enable()
 	}
@@ -2419,6 +2430,7 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	if !yield {
 		for _, fork := range forks {
 			newNode := node.ForkForAlternatePaths(fork, fork.Name)
+			newNode.continueStep(node, executed)
 			if p.ShouldScheduleNode(newNode) {
 				// Intermediate forks carry choice information in fork.Name:
 				// "Stmt:N" / "Any:var=value" / "For:value" / "checkpoint".
-- 
2.43.0


From e34ef136fe120323a2bc076d7efa21a43a043dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 14/53] fix: an if statement in a oneof block ends the oneof
 block

---
 modelchecker/protopath.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modelchecker/protopath.go b/modelchecker/protopath.go
index a282779..eebce19 100644
--- a/modelchecker/protopath.go
+++ b/modelchecker/protopath.go
@@ -225,6 +225,7 @@ func replaceLastStmts(input, replacement string) string {
 	}
 
 	lastMatch := matches[len(matches)-1]
-	result := input[:lastMatch[0]] + replacement + input[lastMatch[1]:]
+	// Anything after the last statement (like .IfStmt.Branches[0]) is inside that statement.
+	result := input[:lastMatch[0]] + replacement
 	return result
 }
-- 
2.43.0


From f424a66161d8f90c7ab5870f3709bed5b66a9e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 15/53] fix: pass in a oneof or parallel block does not fall
 through to the next statement

---
 modelchecker/thread.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index c47db24..ee8d3b0 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -599,6 +599,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 	if stmt.PyStmt != nil {
 		if stmt.PyStmt.GetCode() == "pass" {
 			t.Process.Enable()
+			flow := t.currentFrame().scope.flow
+			if flow == ast.Flow_FLOW_ONEOF || flow == ast.Flow_FLOW_PARALLEL {
+				return t.executeEndOfStatement()
+			}
 			t.currentFrame().pc = t.FindNextProgramCounter()
 			return nil, false
 		}
-- 
2.43.0


From 70c0b3aff10c1f0298b61456722f0a7e92dda45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:41 +0000
Subject: [PATCH 16/53] fix: an any statement in a oneof or parallel block ends
 in the block it belongs to

---
 modelchecker/thread.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index ee8d3b0..0f2f2d2 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1314,6 +1314,12 @@ func (t *Thread) executeEndOfBlockWithForks() ([]*Process, bool) {
 			}
 		}
 		frame.pc = RemoveLastBlock(t.currentPc())
+		if strings.HasSuffix(frame.pc, ".AnyStmt") {
+			// The any statement has its own scope around the scope of its block. Leave it too, so that the
+			// statement ends in the block it is a statement of.
+			frame.pc = RemoveLastSegment(frame.pc, ".AnyStmt")
+			frame.scope = frame.scope.parent
+		}
 		forks, yield := t.executeEndOfStatement()
 		if len(forks) > 0 || yield {
 			return forks, yield
-- 
2.43.0


From c37bbf521a8aba9927f177159c0edfa25ae41840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:09 +0000
Subject: [PATCH 17/53] fix: an any assignment in a oneof or parallel block
 does not fall through to the next statement

---
 modelchecker/thread.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 0f2f2d2..370fbb4 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -730,6 +730,11 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 
 			if stmt.AnyStmt.Block != nil {
 				fork.currentThread().currentFrame().pc = fmt.Sprintf("%s.AnyStmt.Block", currentFrame.pc)
+			} else if flow := currentFrame.scope.flow; flow == ast.Flow_FLOW_ONEOF || flow == ast.Flow_FLOW_PARALLEL {
+				// The statement does not fall through to the next one: it ends like an any statement with a block.
+				fork.currentThread().InsertNewScope()
+				fork.currentThread().InsertNewScope()
+				fork.currentThread().currentFrame().pc = fmt.Sprintf("%s.AnyStmt.Block.$", currentFrame.pc)
 			} else {
 				fork.currentThread().currentFrame().pc = t.FindNextProgramCounter()
 			}
-- 
2.43.0


From 51fb1eecde94b66322c5f9c317617aa67ae308e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:50 +0000
Subject: [PATCH 18/53] fix: a thread in a parallel block keeps its place
 between statements

---
 modelchecker/thread.go | 54 +++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 370fbb4..608beaa 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -468,7 +468,23 @@ func (t *Thread) Clone(refs map[starlark.Value]starlark.Value, permutations map[
 	return &Thread{Id: t.Id, Process: t.Process, Files: t.Files, Stack: t.Stack.Clone(refs, permutations, alt), Fairness: t.Fairness}
 }
 
+// Execute runs the thread until it yields, forks or is disabled.
 func (t *Thread) Execute() ([]*Process, bool) {
+	forks, yield := t.execute()
+	if len(forks) > 0 && t.Stack.Len() > 0 && t.currentPc() == "" {
+		// In a parallel block, with the next statement not chosen yet. The path of the block is needed to tell
+		// this point from the same point of another parallel block, and a yield point from a point where the
+		// choice is made at once.
+		pc := ParentBlockPath(forks[0].currentThread().currentPc()) + parallelPc
+		if !yield {
+			pc += ".now"
+		}
+		t.currentFrame().pc = pc
+	}
+	return forks, yield
+}
+
+func (t *Thread) execute() ([]*Process, bool) {
 	var forks []*Process
 	yield := false
 	hasNonEndOfBlockStmts := false
@@ -491,6 +507,12 @@ func (t *Thread) Execute() ([]*Process, bool) {
 		}
 		hasNonEndOfBlockStmts = true
 		frame := t.currentFrame()
+		if strings.HasSuffix(frame.pc, parallelPc) {
+			blockPath := strings.TrimSuffix(frame.pc, parallelPc)
+			forks = t.forkRemainingStmts(blockPath, convertToBlock(GetProtoFieldByPath(t.currentFileAst(), blockPath)))
+			frame.pc = ""
+			return forks, false
+		}
 		protobuf := GetProtoFieldByPath(t.currentFileAst(), frame.pc)
 
 		switch msg := protobuf.(type) {
@@ -1191,6 +1213,26 @@ func removeElement[T any](slice []T, index int) []T {
 	return append(newSlice, slice[index+1:]...)
 }
 
+// parallelPc ends the program counter of a thread in a parallel block that has not chosen its next statement.
+const parallelPc = ".parallel"
+
+// forkRemainingStmts returns one fork for each statement of the parallel block that did not run yet.
+func (t *Thread) forkRemainingStmts(blockPath string, b *ast.Block) []*Process {
+	skipstmts := t.currentFrame().scope.skipstmts
+	forks := make([]*Process, 0, len(b.Stmts)-len(skipstmts))
+	for i := range b.Stmts {
+		if ContainsInt(skipstmts, i) {
+			continue
+		}
+		fork := t.Process.Fork()
+		fork.Name = fmt.Sprintf("Stmt:%d", i)
+		fork.currentThread().currentFrame().pc = fmt.Sprintf("%s.Stmts[%d]", blockPath, i)
+		fork.currentThread().currentFrame().scope.skipstmts = append(fork.currentThread().currentFrame().scope.skipstmts, i)
+		forks = append(forks, fork)
+	}
+	return forks
+}
+
 func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 	enabled := t.Process.Enabled
 	currentFrame := t.currentFrame()
@@ -1220,17 +1262,7 @@ func (t *Thread) executeEndOfStatement() ([]*Process, bool) {
 			currentFrame.pc = EndOfBlock(t.currentPc())
 			return nil, false
 		}
-		forks := make([]*Process, 0, len(b.Stmts)-len(skipstmts))
-		for i := range b.Stmts {
-			if ContainsInt(skipstmts, i) {
-				continue
-			}
-			fork := t.Process.Fork()
-			fork.Name = fmt.Sprintf("Stmt:%d", i)
-			fork.currentThread().currentFrame().pc = fmt.Sprintf("%s.Stmts[%d]", blockPath, i)
-			fork.currentThread().currentFrame().scope.skipstmts = append(fork.currentThread().currentFrame().scope.skipstmts, i)
-			forks = append(forks, fork)
-		}
+		forks := t.forkRemainingStmts(blockPath, b)
 		currentFrame.pc = ""
 		return forks, enabled
 	default:
-- 
2.43.0


From 5f978c5aad86064780356f72e58d43dc47959fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:20 +0000
Subject: [PATCH 19/53] fix: break and continue inside an any statement leave
 its scope

---
 modelchecker/thread.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 608beaa..1f49831 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -817,6 +817,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		for !(strings.HasSuffix(currentFrame.pc, ".ForStmt") || strings.HasSuffix(currentFrame.pc, ".WhileStmt")) {
 			currentFrame.pc = RemoveLastBlock(currentFrame.pc)
 			currentFrame.scope = currentFrame.scope.parent
+			if strings.HasSuffix(currentFrame.pc, ".AnyStmt") {
+				// The any statement has its own scope around the scope of its block.
+				currentFrame.scope = currentFrame.scope.parent
+			}
 		}
 		currentFrame.scope = currentFrame.scope.parent
 		currentFrame.pc = RemoveLastLoop(currentFrame.pc)
@@ -829,6 +833,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 				break
 			}
 			currentFrame.scope = currentFrame.scope.parent
+			if strings.HasSuffix(currentFrame.pc, ".AnyStmt") {
+				// The any statement has its own scope around the scope of its block.
+				currentFrame.scope = currentFrame.scope.parent
+			}
 		}
 		currentFrame.pc = currentFrame.pc + ".Block.$"
 		return nil, false
-- 
2.43.0


From 992b05d305b1937c982ec2490ee05627e90ce8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:04 +0000
Subject: [PATCH 20/53] fix: a step that executed nothing is not merged with
 one that did

---
 modelchecker/processor.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index a9e8b0a..b25c120 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1135,6 +1135,19 @@ func (n *Node) continueStep(parent *Node, executed bool) {
 	n.Process.ThreadProgress = parent.Process.ThreadProgress
 }
 
+// stepHash extends the hash of a node in the middle of a step with what decides how the step goes on: a step that
+// has not executed anything so far does not yield, and is disabled if it ends like that, unless it is the progress
+// of a thread.
+func (n *Node) stepHash(hash string, executed bool, yield bool) string {
+	if yield || executed {
+		return hash
+	}
+	if n.ThreadProgress {
+		return hash + ".progress"
+	}
+	return hash + ".idle"
+}
+
 func (n *Node) ForkForAlternatePaths(process *Process, name string) *Node {
 
 	forkNode := &Node{
@@ -2018,10 +2031,11 @@ func (p *Processor) probeNextStates(process *Process) []*NextTransition {
 				n.Enable()
 			}
 			h := n.HashCode()
-			if enabled, seen := seenIntermediate[h]; seen && (enabled || !n.Enabled) {
+			sh := n.stepHash(h, executed, yield)
+			if enabled, seen := seenIntermediate[sh]; seen && (enabled || !n.Enabled) {
 				continue
 			}
-			seenIntermediate[h] = n.Enabled
+			seenIntermediate[sh] = n.Enabled
 			if !yield {
 				for _, fork := range forks {
 					next := n.ForkForAlternatePaths(fork, fork.Name)
@@ -2378,6 +2392,10 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	}
 
 	other, found, canonicalHash := p.findVisitedSymmetric(node)
+	if stepHash := node.stepHash(canonicalHash, executed, yield); stepHash != canonicalHash {
+		canonicalHash = stepHash
+		other, found = p.visited[canonicalHash]
+	}
 	if p.experimentalNoGraph {
 		// No-graph mode: visited stores hashes only (values are nil). Skip
 		// Attach (no graph edges) and skip the Enabled-vs-existing logic
-- 
2.43.0


From 4b91f9e8b4812f5873026033f01f502534b8482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 21/53] fix: number a new role after the roles of its state,
 not after the roles created so far

---
 lib/starlark_role.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/starlark_role.go b/lib/starlark_role.go
index 6215c55..dfa2731 100644
--- a/lib/starlark_role.go
+++ b/lib/starlark_role.go
@@ -224,12 +224,15 @@ func CreateRoleBuiltin(astRole *ast.Role, symmetric bool, roles *[]*Role) *starl
 	return starlark.NewBuiltin(name, func(t *starlark.Thread, b *starlark.Builtin,
 		args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 		params := FromKeywords(starlark.String("params"), kwargs)
-		nextRef := roleRefs[name]
-		if roleRefs[name] > 0 {
-			roleRefs[name]++
-		} else {
-			roleRefs[name] = 1
+		// The ref depends on the roles of this state only, not on the states explored before it, so that a state is
+		// the same in whatever order it is reached.
+		nextRef := int64(0)
+		for _, role := range *roles {
+			if role != nil && role.Name == name && role.GetRef() >= nextRef {
+				nextRef = role.GetRef() + 1
+			}
 		}
+		roleRefs[name] = nextRef + 1
 		fields := FromStringDict(starlark.String("fields"), starlark.StringDict{})
 		initValues := FromStringDict(starlark.String("init_values"), starlark.StringDict{})
 		roleMethods := make(map[string]*starlark.Builtin)
-- 
2.43.0


From 13e27365510900b1f30183c42442e6dcbc1d616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 22/53] fix: a call in a oneof block of a role does not crash
 the checker

---
 modelchecker/thread.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index 1f49831..cd22686 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1046,7 +1046,11 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 			}
 			newFrame.callerAssignVarNames = stmt.CallStmt.Vars
 			t.Process.Labels = append(t.Process.Labels, newFrame.Name+".call")
-			t.Process.RecordCall(frame, newFrame, parentScope.flow)
+			flow := ast.Flow_FLOW_ATOMIC
+			if parentScope != nil {
+				flow = parentScope.flow
+			}
+			t.Process.RecordCall(frame, newFrame, flow)
 
 			if stub == nil /*|| (stub.Channel.IsSynchronous() && stub.Channel.IsOrdered())*/ {
 				// TODO: Handle args
-- 
2.43.0


From f220f89505ab4bd915f2f66f91be600bb78743b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:40 +0000
Subject: [PATCH 23/53] fix: a branch of an any or parallel for statement gets
 its own copy of the chosen element

---
 modelchecker/processor.go | 14 +++++++++++++-
 modelchecker/thread.go    |  6 +++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index b25c120..ea649bb 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -342,6 +342,12 @@ func (p *Process) IsYieldNode() bool {
 }
 
 func (p *Process) Fork() *Process {
+	p2, _ := p.forkWithValue(nil)
+	return p2
+}
+
+// forkWithValue forks the process and returns with the fork its copy of the value x of this process (nil if x is nil).
+func (p *Process) forkWithValue(x starlark.Value) (*Process, starlark.Value) {
 	refs := make(map[starlark.Value]starlark.Value)
 
 	p2 := &Process{
@@ -382,6 +388,12 @@ func (p *Process) Fork() *Process {
 		clonedThreads[i] = thread.Clone(refs, nil, 0)
 		clonedThreads[i].Process = p2
 	}
+	if x != nil {
+		// A value that cannot be copied (a function, say) cannot be part of the state: it is passed on as it is.
+		if cloned, err := deepCloneStarlarkValueWithPermutations(x, refs, nil, 0); err == nil {
+			x = cloned
+		}
+	}
 	p2.Threads = clonedThreads
 	p2.Roles = MapRoleValuesInOrder(refs, p.Roles)
 	p2.Channels = make(map[int]*lib.Channel)
@@ -399,7 +411,7 @@ func (p *Process) Fork() *Process {
 		}
 	}
 
-	return p2
+	return p2, x
 }
 
 func (p *Process) CloneForAssert(permutations map[*lib.SymmetricValue][]*lib.SymmetricValue, alt int) *Process {
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index cd22686..a3ef21b 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -718,7 +718,7 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 		var x starlark.Value
 		for iter.Next(&x) {
 			//fmt.Printf("anyVariable: x: %s\n", x.String())
-			fork := t.Process.Fork()
+			fork, x := t.Process.forkWithValue(x)
 			fork.Name = fmt.Sprintf("Any:%s=%s", stmt.AnyStmt.LoopVars[0], x.String())
 			fork.ChoiceFairness = stmt.AnyStmt.Fairness.GetLevel()
 			if r, ok := x.(*lib.Role); ok {
@@ -1172,7 +1172,7 @@ func (t *Thread) executeForStatement() ([]*Process, bool) {
 		// should take only 1 second. Technically max time taken for each iteration.
 		// This is a subtle difference, but it will be important in the future for performance analysis. After all,
 		// if anyone uses parallel flow, it is to speed up.
-		fork := t.Process.Fork()
+		fork, x := t.Process.forkWithValue(x)
 		if r, ok := x.(*lib.Role); ok {
 			for _, role := range fork.Roles {
 				if r.RefString() == role.RefString() {
@@ -1183,7 +1183,7 @@ func (t *Thread) executeForStatement() ([]*Process, bool) {
 		}
 		fork.currentThread().currentFrame().scope.vars[scope.loopVars[0]] = x
 		fork.Name = fmt.Sprintf("For:%s", x.String())
-		newSlice := removeElement(scope.loopRange, i)
+		newSlice := removeElement(fork.currentThread().currentFrame().scope.loopRange, i)
 		fork.currentThread().currentFrame().scope.loopRange = newSlice
 
 		forks = append(forks, fork)
-- 
2.43.0


From 8635dc37e943bb96dffe5ccf325e9082e8b381bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:11 +0000
Subject: [PATCH 24/53] fix: transition assertions compare the yield points at
 the two ends of a step

They were also evaluated between the nodes in the middle of a step, on the
temporary values of an atomic action.
---
 modelchecker/invariants.go | 14 ++++++------
 modelchecker/processor.go  | 44 ++++++++++++++++++++++++++++++++------
 2 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index d6104ac..bec16f3 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -51,10 +51,11 @@ func CheckRefinement(process *Process, refinement *ast.Refinement, joinHashes Jo
 }
 
 func CheckTransitionInvariants(process *Process) map[int][]int {
-	if process.Parent == nil {
+	origin := process.stepOrigin()
+	if origin == nil {
 		return nil
 	}
-	if process.Heap.CachedHashCode == process.Parent.Heap.CachedHashCode && process.Parent.Heap.CachedHashCode != "" {
+	if process.Heap.CachedHashCode == origin.Heap.CachedHashCode && origin.Heap.CachedHashCode != "" {
 		return nil
 	}
 	results := make(map[int][]int)
@@ -62,7 +63,7 @@ func CheckTransitionInvariants(process *Process) map[int][]int {
 		results[i] = make([]int, 0)
 		for j, invariant := range file.Invariants {
 			if invariant.Block != nil && slices.Contains(invariant.TemporalOperators, "transition") {
-				passed := CheckTransitionAssertion(process, invariant, j)
+				passed := CheckTransitionAssertion(origin, process, invariant, j)
 				if !passed {
 					results[i] = append(results[i], j)
 				}
@@ -215,10 +216,7 @@ func execFunctionBlock(cloned *Process, name string, pc string) starlark.Value {
 	}
 }
 
-func CheckTransitionAssertion(process *Process, invariant *ast.Invariant, index int) bool {
-	if process.Parent == nil {
-		return true
-	}
+func CheckTransitionAssertion(origin *Process, process *Process, invariant *ast.Invariant, index int) bool {
 	beforeParam, afterParam := "before", "after"
 	if len(invariant.Params) == 2 {
 		beforeParam, afterParam = invariant.Params[0].GetName(), invariant.Params[1].GetName()
@@ -227,7 +225,7 @@ func CheckTransitionAssertion(process *Process, invariant *ast.Invariant, index
 	}
 	cloned := process.CloneForAssert(nil, 0)
 	cloned.Heap.state[afterParam] = starlarkstruct.FromStringDict(starlark.String(afterParam), cloned.Heap.state)
-	cloned.Heap.state[beforeParam] = starlarkstruct.FromStringDict(starlark.String(beforeParam), process.Parent.Heap.state)
+	cloned.Heap.state[beforeParam] = starlarkstruct.FromStringDict(starlark.String(beforeParam), origin.Heap.state)
 
 	return execAssertionFunction(cloned, index, invariant)
 }
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index ea649bb..8f8952d 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -341,6 +341,27 @@ func (p *Process) IsYieldNode() bool {
 	}
 }
 
+// stepOrigin returns the state in which the step that reached p started: the nearest yield point among the ancestors
+// of p, or the first of them if there is none. It is nil only if p has no ancestors.
+func (p *Process) stepOrigin() *Process {
+	origin := p.Parent
+	for origin != nil && !origin.IsYield && origin.Parent != nil {
+		origin = origin.Parent
+	}
+	return origin
+}
+
+func (p *Process) hasTransitionAssertions() bool {
+	for _, file := range p.Files {
+		for _, invariant := range file.Invariants {
+			if invariant.Block != nil && slices.Contains(invariant.TemporalOperators, "transition") {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (p *Process) Fork() *Process {
 	p2, _ := p.forkWithValue(nil)
 	return p2
@@ -1149,9 +1170,17 @@ func (n *Node) continueStep(parent *Node, executed bool) {
 
 // stepHash extends the hash of a node in the middle of a step with what decides how the step goes on: a step that
 // has not executed anything so far does not yield, and is disabled if it ends like that, unless it is the progress
-// of a thread.
+// of a thread. Transition assertions compare the end of the step with the state it started in.
 func (n *Node) stepHash(hash string, executed bool, yield bool) string {
-	if yield || executed {
+	if yield {
+		return hash
+	}
+	if n.Process.hasTransitionAssertions() {
+		if origin := n.Process.stepOrigin(); origin != nil {
+			hash = n.Process.HashCode() + "." + origin.HashCode()
+		}
+	}
+	if executed {
 		return hash
 	}
 	if n.ThreadProgress {
@@ -1348,6 +1377,7 @@ func (p *Processor) publishYieldPoint(yp *Node, forks []*Process) {
 	// Only called for NEW (not dedup-skipped) yield-points — processNode
 	// short-circuits before reaching the publish step on dedup hits.
 	p.uniqueYieldCount++
+	yp.Process.IsYield = true
 	if p.experimentalProcessedQueue {
 		yp.yieldForks = forks
 		p.expandedYieldPoints = append(p.expandedYieldPoints, yp)
@@ -2374,13 +2404,15 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 	// determined by the statement, and we include program counter in the hash code,
 	// this may not be an issue.
 	if node.actionDepth > 0 {
-		failedInvariants := CheckTransitionInvariants(node.Process)
+		var failedInvariants map[int][]int
+		// A transition is a whole step, from one yield point to the next.
+		if yield {
+			failedInvariants = CheckTransitionInvariants(node.Process)
+		}
 		if len(failedInvariants[0]) > 0 {
 			node.Inbound[0].FailedInvariants = failedInvariants
 			if !p.config.ContinuePathOnInvariantFailures {
-				if yield {
-					node.Name = "yield"
-				}
+				node.Name = "yield"
 				node.Attach()
 				p.intermediateStates.ClearAll()
 				return true, false
-- 
2.43.0


From e400ed20200906b07a9c1322d226463f944ad324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:28 +0000
Subject: [PATCH 25/53] fix: deadlocks are decided for each step, also where
 steps share nodes

A node in the middle of a step was counted for the first step that reached it
only, and enabled only along the path on which its successor had been explored:
states with live continuations were reported as deadlocks, and deadlocks were
missed.
---
 modelchecker/markovchain.go | 114 +++++++++++++++++++++++++-----------
 1 file changed, 80 insertions(+), 34 deletions(-)

diff --git a/modelchecker/markovchain.go b/modelchecker/markovchain.go
index e7c092e..abbc0f8 100644
--- a/modelchecker/markovchain.go
+++ b/modelchecker/markovchain.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"github.com/fizzbee-io/fizzbee/lib"
 	"math"
+	"slices"
 	"strings"
 )
 
@@ -484,39 +485,91 @@ func traverseDFS(node *Node, visited map[*Node]bool, result *[]*Node, yield *int
 	}
 }
 
+func isStepEnd(node *Node) bool {
+	return node.Name == "yield" || node.Name == "init" || node.Name == "crash"
+}
+
+// stepStarts returns the nodes from which one of the ends is reached within the same step, that is, without passing
+// through another yield point. Different steps may share the nodes in the middle.
+func stepStarts(nodes []*Node, ends []*Node) map[*Node]bool {
+	inbound := make(map[*Node][]*Node)
+	for _, node := range nodes {
+		for _, link := range node.Outbound {
+			inbound[link.Node] = append(inbound[link.Node], node)
+		}
+	}
+	starts := make(map[*Node]bool)
+	pending := slices.Clone(ends)
+	for len(pending) > 0 {
+		node := pending[len(pending)-1]
+		pending = pending[:len(pending)-1]
+		if starts[node] {
+			continue
+		}
+		starts[node] = true
+		if !isStepEnd(node) {
+			pending = append(pending, inbound[node]...)
+		}
+	}
+	return starts
+}
+
+// propagateEnabled enables the nodes in the middle of an action from which it goes on through an enabled node. This
+// completes what Process.propagateEnabled did along each path: where paths were merged, the node they share may have
+// been enabled on another one.
+func propagateEnabled(rootNode *Node) {
+	visited := map[*Node]bool{rootNode: true}
+	nodes := []*Node{rootNode}
+	inbound := make(map[*Node][]*Node)
+	for i := 0; i < len(nodes); i++ {
+		for _, link := range nodes[i].Outbound {
+			if !link.IsCrashLink() {
+				inbound[link.Node] = append(inbound[link.Node], nodes[i])
+			}
+			if !visited[link.Node] {
+				visited[link.Node] = true
+				nodes = append(nodes, link.Node)
+			}
+		}
+	}
+	pending := slices.DeleteFunc(nodes, func(node *Node) bool {
+		return node.Process == nil || !node.Process.Enabled
+	})
+	for len(pending) > 0 {
+		node := pending[len(pending)-1]
+		pending = pending[:len(pending)-1]
+		for _, parent := range inbound[node] {
+			if parent.Process != nil && !parent.Process.Enabled && parent.Process.GetThreadsCount() != 0 {
+				parent.Process.Enabled = true
+				pending = append(pending, parent)
+			}
+		}
+	}
+}
+
 func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, int) {
 	msgs := make([]string, 0)
 	msgSet := make(map[string]int)
-	type stat struct {
-		index int
-		deadNode *Node
-		livePaths int
-	}
-	visited := make(map[*Node]*stat)
+	propagateEnabled(rootNode)
+	visited := make(map[*Node]bool)
 	var result []*Node
-	type queuedEntry struct {
-		node *Node
-		yieldNode *Node
-	}
-	queue := lib.NewQueue[*queuedEntry]()
-	queue.Enqueue(&queuedEntry{
-		node:      rootNode,
-		yieldNode: rootNode,
-	})
+	// The nodes without a way to go on, and the nodes with a link to the end of a step.
+	deadEnds := make([]*Node, 0)
+	liveEnds := make([]*Node, 0)
+	queue := lib.NewQueue[*Node]()
+	queue.Enqueue(rootNode)
 	yield := 0
 	maxDepth := 0
 	for queue.Count() > 0 {
-		entry, _ := queue.Dequeue()
-		node := entry.node
-		if _, ok := visited[node]; ok {
+		node, _ := queue.Dequeue()
+		if visited[node] {
 			continue
 		}
-		visited[node] = &stat{}
+		visited[node] = true
 
 		if node.Process != nil && !node.Process.Enabled {
 			continue
 		}
-		visited[node].index = len(result)
 		result = append(result, node)
 		if node.Name == "yield" {
 			yield++
@@ -537,22 +590,15 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 		}
 		node.Outbound = enabledLinks
 
-		if len(enabledLinks)-crashLinks == 0 && visited[entry.yieldNode].deadNode == nil {
-			visited[entry.yieldNode].deadNode = node
+		if len(enabledLinks)-crashLinks == 0 {
+			deadEnds = append(deadEnds, node)
 		}
 
 		for _, link := range node.Outbound {
-			yieldNode := entry.yieldNode
-			if link.Node.Name == "yield" || link.Node.Name == "init" || link.Node.Name == "crash" {
-				if !link.IsCrashLink() {
-					visited[yieldNode].livePaths++
-				}
-				yieldNode = link.Node
+			if isStepEnd(link.Node) && !link.IsCrashLink() {
+				liveEnds = append(liveEnds, node)
 			}
-			queue.Enqueue(&queuedEntry{
-				node:      link.Node,
-				yieldNode: yieldNode,
-			})
+			queue.Enqueue(link.Node)
 
 			if link.Type == "action" {
 				if node == link.Node || node.HashCode() == link.Node.HashCode() {
@@ -609,9 +655,9 @@ func traverseBFS(rootNode *Node, maxActions int64) ([]*Node, []string, *Node, in
 		}
 	}
 	var deadlock *Node
+	stuck, live := stepStarts(result, deadEnds), stepStarts(result, liveEnds)
 	for _, node := range result {
-		entry := visited[node]
-		if entry.deadNode != nil && entry.livePaths == 0 && (node.Process == nil || (node.Stats != nil && node.Stats.TotalActions < int(maxActions))) {
+		if (node == rootNode || isStepEnd(node)) && stuck[node] && !live[node] && (node.Process == nil || (node.Stats != nil && node.Stats.TotalActions < int(maxActions))) {
 			// Return the yield node itself (not the dead non-yield node) so the
 			// deadlock trace stops at the meaningful stuck state rather than
 			// pointing into a dead nondeterministic branch.
-- 
2.43.0


From 84578ef30d9f8510d6af1dc668efe57f59eb9002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:44 +0000
Subject: [PATCH 26/53] fix: the first node of a step does not keep the name of
 its yield point

A node in the middle of a thread's step was named yield (with the processed
queue) or crash (after a crash), and was taken for a yield point by the search
for deadlocks, the count of states and the output.
---
 modelchecker/processor.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 8f8952d..5402181 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -351,6 +351,14 @@ func (p *Process) stepOrigin() *Process {
 	return origin
 }
 
+// nameStep gives the first node of a step its name if it would otherwise keep the name of the yield point it starts
+// from, and so be taken for a yield point itself.
+func (p *Process) nameStep(name string) {
+	if p.Name == "yield" || p.Name == "crash" {
+		p.Name = name
+	}
+}
+
 func (p *Process) hasTransitionAssertions() bool {
 	for _, file := range p.Files {
 		for _, invariant := range file.Invariants {
@@ -3250,6 +3258,7 @@ func (p *Processor) YieldNode(node *Node) {
 		}
 		name := fmt.Sprintf("thread-%d", i)
 		newNode := node.ForkForAlternatePaths(thread.Process.Fork(), name)
+		newNode.Process.nameStep(name)
 		newNode.Current = i
 		newNode.Inbound[len(newNode.Inbound)-1].ReqId = i
 		newNode.ThreadProgress = true
@@ -3301,6 +3310,7 @@ func (p *Processor) YieldFork(node *Node, process *Process) {
 		}
 		name := fmt.Sprintf("thread-%d", i)
 		newNode := node.ForkForAlternatePaths(thread.Process.Fork(), name)
+		newNode.Process.nameStep(name)
 		newNode.Current = i
 		newNode.Inbound[len(newNode.Inbound)-1].ReqId = i
 		newNode.ThreadProgress = true
@@ -3330,6 +3340,7 @@ func (p *Processor) scheduleChannelMessages(node *Node) {
 		for j, _ := range msgs {
 			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
 			newNode := node.ForkForAlternatePaths(node.Process.Fork(), linkName)
+			newNode.Process.nameStep(linkName)
 			newMsg := newNode.ChannelMessages[i][j]
 			newNode.ChannelMessages[i] = append(newNode.ChannelMessages[i][:j], newNode.ChannelMessages[i][j+1:]...)
 			thread := newNode.Process.NewThread()
-- 
2.43.0


From 2f5f6dcf0ababcae241956d884840728e36f4a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:59 +0000
Subject: [PATCH 27/53] fix: reaching a visited state is no deadlock in
 no_graph mode

---
 modelchecker/processor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 5402181..37ca6ff 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2455,6 +2455,10 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 		// in no_graph mode we don't keep the existing Node to compare.
 		if found {
 			// Pure dedup hit; the current node won't be retained either.
+			// Reaching a visited state is a transition out of the current
+			// yield-point here too: without counting it, a yield-point whose
+			// successors are all visited is reported as a deadlock.
+			p.dedupHitsInExpansion++
 			return false, false
 		}
 		p.visited[canonicalHash] = nil
-- 
2.43.0


From a9dd55a05c5bacc9c6a0842dbe7179fd9e9fde14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:31 +0000
Subject: [PATCH 28/53] fix: no_graph mode reports a violated transition
 assertion instead of crashing

---
 main.go                   | 2 ++
 modelchecker/processor.go | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/main.go b/main.go
index 58b645c..3138f2f 100644
--- a/main.go
+++ b/main.go
@@ -764,6 +764,8 @@ func modelCheckSingleSpec(f *ast.File, stateConfig *ast.StateSpaceOptions, dirPa
 			if failedNode != nil {
 				if failedNode.FailedInvariants != nil && len(failedNode.FailedInvariants) > 0 && len(failedNode.FailedInvariants[0]) > 0 {
 					fmt.Println("FAILED: Model checker failed. Invariant:", f.Invariants[failedNode.FailedInvariants[0][0]].Name)
+				} else if len(failedNode.Inbound) > 0 && len(failedNode.Inbound[0].FailedInvariants[0]) > 0 {
+					fmt.Println("FAILED: Model checker failed. Transition Invariant:", f.Invariants[failedNode.Inbound[0].FailedInvariants[0][0]].Name)
 				} else {
 					fmt.Println("FAILED: Model checker failed")
 				}
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 37ca6ff..6681f7e 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1126,6 +1126,10 @@ func (n *Node) Attach() {
 		return
 	}
 	parent := n.Inbound[0].Node
+	if parent == nil {
+		// no_graph mode drops the reference to the parent (breakParentRef).
+		return
+	}
 	newOutLink := &Link{
 		Node:           n,
 		Type:           n.Inbound[0].Type,
-- 
2.43.0


From 934f047cc9632e0ffbb0bb9d27fec6fe539f38be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:03 +0000
Subject: [PATCH 29/53] fix: no_graph mode checks exists assertions

---
 main.go                   |  7 +++++++
 modelchecker/processor.go | 41 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/main.go b/main.go
index 3138f2f..4c7f7e2 100644
--- a/main.go
+++ b/main.go
@@ -782,6 +782,13 @@ func modelCheckSingleSpec(f *ast.File, stateConfig *ast.StateSpaceOptions, dirPa
 				fmt.Println("Model checker stopped")
 				return nil
 			}
+			if missing := p1.MissingExistsWitnesses(); len(missing) > 0 {
+				fmt.Println("\nFAILED: Expected states never reached")
+				for i2, invariant := range missing {
+					fmt.Printf("Invariant %d: %s\n", i2, f.Invariants[invariant.InvariantIndex].Name)
+				}
+				return nil
+			}
 			fmt.Println("PASSED: Model checker completed successfully")
 			return rootNode
 		}
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 6681f7e..e799f9c 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1297,6 +1297,11 @@ type Processor struct {
 	// Used by no-graph mode to report "Unique states" without the in-memory
 	// graph traversal (markovchain's yieldsCount).
 	uniqueYieldCount int
+
+	// witnessed: for each file and invariant, whether some yield-point was a
+	// witness for it. Only maintained in no_graph mode, where there is no
+	// graph to look for witnesses of exists assertions after the run.
+	witnessed [][]bool
 }
 
 // GetEarlyDeadlock returns the first deadlocked yield-point detected during
@@ -1390,6 +1395,9 @@ func (p *Processor) publishYieldPoint(yp *Node, forks []*Process) {
 	// short-circuits before reaching the publish step on dedup hits.
 	p.uniqueYieldCount++
 	yp.Process.IsYield = true
+	if p.experimentalNoGraph {
+		p.recordWitnesses(yp.Process)
+	}
 	if p.experimentalProcessedQueue {
 		yp.yieldForks = forks
 		p.expandedYieldPoints = append(p.expandedYieldPoints, yp)
@@ -1404,6 +1412,39 @@ func (p *Processor) publishYieldPoint(yp *Node, forks []*Process) {
 	}
 }
 
+// recordWitnesses remembers the invariants the yield-point is a witness for.
+func (p *Processor) recordWitnesses(process *Process) {
+	if p.witnessed == nil {
+		p.witnessed = make([][]bool, len(process.Witness))
+		for i, w := range process.Witness {
+			p.witnessed[i] = make([]bool, len(w))
+		}
+	}
+	for i, w := range process.Witness {
+		for j, found := range w {
+			p.witnessed[i][j] = p.witnessed[i][j] || found
+		}
+	}
+}
+
+// MissingExistsWitnesses returns the exists assertions that no yield-point of
+// a no_graph run was a witness for, as CheckSimpleExistsWitness does from the
+// graph in the other modes.
+func (p *Processor) MissingExistsWitnesses() []*InvariantPosition {
+	missing := make([]*InvariantPosition, 0)
+	for i, file := range p.Files {
+		for j, invariant := range file.Invariants {
+			if invariant.Block == nil || !slices.Contains(invariant.TemporalOperators, "exists") {
+				continue
+			}
+			if p.witnessed == nil || !p.witnessed[i][j] {
+				missing = append(missing, NewInvariantPosition(i, j))
+			}
+		}
+	}
+	return missing
+}
+
 // GetUniqueYieldCount returns the number of distinct yield-points discovered
 // during the run. Equivalent to markovchain's yieldsCount but maintained
 // incrementally so it's available even in no-graph mode where the post-run
-- 
2.43.0


From fc05aa789ef4ec536fa4987e63cf75cb6943d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:31 +0000
Subject: [PATCH 30/53] fix: no_graph mode finds deadlocks behind states
 visited in the middle of a step

---
 modelchecker/processor.go | 68 +++++++++++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 17 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index e799f9c..1c9da78 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1292,6 +1292,11 @@ type Processor struct {
 	// visited state — a live transition that wouldn't grow the queue.)
 	dedupHitsInExpansion int
 
+	// midStepHitsInExpansion: in no_graph mode, the hits of visited states in
+	// the middle of a step. Whether these steps have a live end is only known
+	// after looking again, see hasLiveSuccessor.
+	midStepHitsInExpansion int
+
 	// uniqueYieldCount: incremented each time publishYieldPoint records a
 	// NEW yield-point (after dedup, so duplicates do not double-count).
 	// Used by no-graph mode to report "Unique states" without the in-memory
@@ -1403,13 +1408,7 @@ func (p *Processor) publishYieldPoint(yp *Node, forks []*Process) {
 		p.expandedYieldPoints = append(p.expandedYieldPoints, yp)
 		return
 	}
-	if len(forks) > 0 {
-		for _, fork := range forks {
-			p.YieldFork(yp, fork)
-		}
-	} else {
-		p.YieldNode(yp)
-	}
+	p.scheduleSuccessors(yp, forks)
 }
 
 // recordWitnesses remembers the invariants the yield-point is a witness for.
@@ -1794,13 +1793,8 @@ func (p *Processor) startProcessedQueue() (init *Node, failedNode *Node, err err
 
 		// Replay the deferred YieldNode/YieldFork to schedule yp's
 		// successor action-starts into pendingActionStarts.
-		if len(yp.yieldForks) > 0 {
-			for _, fork := range yp.yieldForks {
-				p.YieldFork(yp, fork)
-			}
-		} else {
-			p.YieldNode(yp)
-		}
+		forks := yp.yieldForks
+		p.scheduleSuccessors(yp, forks)
 		// yieldForks no longer needed; release for GC.
 		yp.yieldForks = nil
 
@@ -1813,6 +1807,7 @@ func (p *Processor) startProcessedQueue() (init *Node, failedNode *Node, err err
 		// Both must be zero to flag yp as a deadlock.
 		queueLenBefore := p.queue.Len()
 		p.dedupHitsInExpansion = 0
+		p.midStepHitsInExpansion = 0
 
 		earlyReturn, failedNode = p.drainAndFlush(startTime, &prevCount, failedNode)
 		if earlyReturn {
@@ -1829,7 +1824,8 @@ func (p *Processor) startProcessedQueue() (init *Node, failedNode *Node, err err
 		if p.config.GetDeadlockDetection() &&
 			p.queue.Len() == queueLenBefore &&
 			p.dedupHitsInExpansion == 0 &&
-			yp.actionDepth < int(p.config.Options.MaxActions) {
+			yp.actionDepth < int(p.config.Options.MaxActions) &&
+			!(p.midStepHitsInExpansion > 0 && p.hasLiveSuccessor(yp, forks, startTime, &prevCount)) {
 			if p.earlyDeadlock == nil {
 				p.earlyDeadlock = yp
 			}
@@ -1857,6 +1853,38 @@ func (p *Processor) startProcessedQueue() (init *Node, failedNode *Node, err err
 	return p.Init, failedNode, err
 }
 
+// scheduleSuccessors schedules the steps that can follow the yield-point.
+func (p *Processor) scheduleSuccessors(yp *Node, forks []*Process) {
+	if len(forks) > 0 {
+		for _, fork := range forks {
+			p.YieldFork(yp, fork)
+		}
+	} else {
+		p.YieldNode(yp)
+	}
+}
+
+// hasLiveSuccessor expands yp once more, without regard to what was visited
+// before and without recording anything, to find out whether some step from
+// yp reaches a yield-point.
+func (p *Processor) hasLiveSuccessor(yp *Node, forks []*Process, startTime time.Time, prevCount *int) bool {
+	visited, expanded, yieldCount := p.visited, p.expandedYieldPoints, p.uniqueYieldCount
+	p.visited, p.expandedYieldPoints = make(map[string]*Node), nil
+	defer func() {
+		p.visited, p.expandedYieldPoints, p.uniqueYieldCount = visited, expanded, yieldCount
+		p.pendingActionStarts = nil
+	}()
+	p.scheduleSuccessors(yp, forks)
+	for len(p.pendingActionStarts) > 0 && len(p.expandedYieldPoints) == 0 {
+		as := p.pendingActionStarts[0]
+		p.pendingActionStarts = p.pendingActionStarts[1:]
+		if as.actionDepth <= int(p.config.Options.MaxActions) {
+			p.expandToYield(as, startTime, prevCount)
+		}
+	}
+	return len(p.expandedYieldPoints) > 0
+}
+
 // drainAndFlush drains pendingActionStarts (running expandToYield on each)
 // and then flushes any resulting yield-points into p.queue. Used by
 // startProcessedQueue from both Phase 1 (post-Init, covers processInit's
@@ -2502,8 +2530,14 @@ func (p *Processor) processNode(node *Node) (bool, bool) {
 			// Pure dedup hit; the current node won't be retained either.
 			// Reaching a visited state is a transition out of the current
 			// yield-point here too: without counting it, a yield-point whose
-			// successors are all visited is reported as a deadlock.
-			p.dedupHitsInExpansion++
+			// successors are all visited is reported as a deadlock. A visited
+			// state in the middle of a step is no such transition, the step
+			// may have turned out to be disabled later.
+			if yield {
+				p.dedupHitsInExpansion++
+			} else {
+				p.midStepHitsInExpansion++
+			}
 			return false, false
 		}
 		p.visited[canonicalHash] = nil
-- 
2.43.0


From 416d4322ed548842f6c9446f4116dd97aad546d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:46 +0000
Subject: [PATCH 31/53] fix: a fair choice where a loop closes does not hide
 the weakly fair actions

---
 modelchecker/invariants.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index bec16f3..2a2d8c3 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -697,7 +697,8 @@ func isFairCycle(path []*Link, debugLog bool) (bool, *CycleCallbackResult) {
 		if debugLog {
 			fmt.Println("isChoiceLink", isChoiceLink)
 		}
-		if firstYield == -1 {
+		if firstYield == -1 && !isChoiceLink {
+			// Whether a weakly fair action is enabled is only known at the yield points.
 			firstYield = i
 		}
 		prevNodeHasNonCrashLink = false
-- 
2.43.0


From 1dba67997d8a7d963d2121b9e5fe0c2c27991073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:49 +0000
Subject: [PATCH 32/53] fix: fairness of a continuing thread is judged by that
 thread's position

---
 modelchecker/invariants.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index 2a2d8c3..04d9989 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -799,9 +799,11 @@ func fairnessLinkName(node *Node, outLink *Link) (string, ast.FairnessLevel, boo
 		}
 		fairness = ast.FairnessLevel_FAIRNESS_LEVEL_STRONG
 	} else if isThreadLink {
-		linkName = linkName + "|" + node.currentThread().currentPc()
-		if node.currentThread().currentFrame().obj != nil {
-			linkName = linkName + "|" + node.currentThread().currentFrame().obj.RefStringShort()
+		// The thread that continues is not necessarily the one that ran last.
+		thread := node.Threads[outLink.ReqId]
+		linkName = linkName + "|" + thread.currentPc()
+		if thread.currentFrame().obj != nil {
+			linkName = linkName + "|" + thread.currentFrame().obj.RefStringShort()
 		}
 		fairness = ast.FairnessLevel_FAIRNESS_LEVEL_STRONG
 	}
-- 
2.43.0


From 4c7a25375abb57da194817e4f5909dfd63c2b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:26 +0000
Subject: [PATCH 33/53] fix: a crash of a role instance stops the threads of
 that instance only

---
 modelchecker/processor.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 1c9da78..6153d76 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -728,6 +728,17 @@ func (p *Process) removeThread(threadIndex int) {
 	}
 }
 
+// removeThreadsOf removes the threads running in the given role instance. The threads of the other
+// instances of the same role go on.
+func (p *Process) removeThreadsOf(role *lib.Role) {
+	for i, thread := range p.Threads {
+		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.RefStringShort() != role.RefStringShort() {
+			continue
+		}
+		p.removeThread(i)
+	}
+}
+
 // GetAllVariables returns all variables visible in the Current thread.
 // This includes state variables and variables from the Current thread's variables in the top call frame
 func (p *Process) GetAllVariables() starlark.StringDict {
@@ -2696,12 +2707,7 @@ func (p *Processor) crashRole(node *Node, role *lib.Role) (*Node, *Node) {
 	if !p.ShouldScheduleNode(crashNode) {
 		return nil, nil
 	}
-	for i, thread := range crashNode.Threads {
-		if thread == nil || thread.currentFrame().obj == nil || thread.currentFrame().obj.Name != role.Name {
-			continue
-		}
-		crashNode.removeThread(i)
-	}
+	crashNode.removeThreadsOf(role)
 	// Reset ephemeral variables
 	p.ResetEphemeralVariables(crashNode, role)
 	crashNode.Enable()
-- 
2.43.0


From db338b1cdc45b98f4ade1031758155c22b049289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:26 +0000
Subject: [PATCH 34/53] fix: a role waiting for a call does not crash after
 another role's crash either

---
 modelchecker/processor.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 6153d76..b035297 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2660,7 +2660,7 @@ func (p *Processor) crashProcess(node *Node) *Node {
 	for i, role := range p.Files[0].Roles {
 		roleMap[role.Name] = i
 	}
-	failedNode := p.crashRoles(node, slices.Clone(safeRolesList))
+	failedNode := p.crashRoles(node, safeRolesList)
 	if failedNode != nil {
 		return failedNode
 	}
@@ -2687,7 +2687,8 @@ func (p *Processor) crashRoles(node *Node, safeRolesList []*lib.Role) *Node {
 			if crashNode == nil {
 				continue
 			}
-			failedNode = p.crashRoles(crashNode, slices.Clone(append(safeRolesList, role)))
+			// The roles that are safe now are those of the crashed process, not of this one
+			failedNode = p.crashProcess(crashNode)
 			if failedNode != nil {
 				return failedNode
 			}
-- 
2.43.0


From 0e8e361d9d4c395cd7891e4e610af31cfd8ae7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:52 +0000
Subject: [PATCH 35/53] fix: roles can crash in states reached by the crash of
 a thread

---
 modelchecker/processor.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index b035297..1f0e69a 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -1240,6 +1240,7 @@ type Processor struct {
 	random             rand.Rand
 	Seed               int64
 	durabilitySpec     *DurabilitySpec
+	threadCrashes      []*Node // reached by the crash of a thread; crashes of roles still to be explored
 	isTest             bool
 	hashes             JoinHashes
 	guidedTrace        *GuidedTrace
@@ -1716,6 +1717,19 @@ func (p *Processor) expandToYield(node *Node, startTime time.Time, prevCount *in
 				break
 			}
 		}
+		// A state reached by the crash of a thread is a yield point like any other (and may be
+		// reached by a step later, which is then merged with it): the roles can crash there too.
+		threadCrashes := p.threadCrashes
+		p.threadCrashes = nil
+		for _, threadCrash := range threadCrashes {
+			crashed := p.crashProcess(threadCrash)
+			if crashed != nil && crashFailedNode == nil {
+				crashFailedNode = crashed
+			}
+		}
+		if crashFailedNode != nil && !p.config.ContinueOnInvariantFailures {
+			break
+		}
 		if p.intermediateStates.Len() == 0 {
 			break
 		}
@@ -2760,6 +2774,7 @@ func (p *Processor) crashThread(node *Node) {
 	crashNode.Attach()
 	p.visited[canonicalHash] = crashNode
 	p.publishYieldPoint(crashNode, nil)
+	p.threadCrashes = append(p.threadCrashes, crashNode)
 }
 
 func (p *Process) getSymmetryTranslations() []string {
-- 
2.43.0


From 3a4d4c35bab26fe6b7f45b8be598682ff0968e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:46 +0000
Subject: [PATCH 36/53] fix: a crash resets the ephemeral fields to what Init
 set in that behaviour

---
 modelchecker/clone.go     |  6 +++++-
 modelchecker/processor.go | 25 +++++++++++++++++++++++--
 modelchecker/thread.go    |  7 +------
 3 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/modelchecker/clone.go b/modelchecker/clone.go
index b9d9b37..a6b9bd2 100644
--- a/modelchecker/clone.go
+++ b/modelchecker/clone.go
@@ -269,7 +269,6 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 				Symmetric:   r.IsSymmetric(),
 				Methods:     r.Methods,
 				RoleMethods: r.RoleMethods,
-				InitValues:  r.InitValues,
 			}
 			refs[value] = newRole
 			params, err := deepCloneStarlarkValueWithPermutations(r.Params, refs, permutations, alt)
@@ -280,8 +279,13 @@ func deepCloneStarlarkValueWithPermutations(value starlark.Value, refs map[starl
 			if err != nil {
 				return nil, err
 			}
+			initValues, err := deepCloneStarlarkValueWithPermutations(r.InitValues, refs, permutations, alt)
+			if err != nil {
+				return nil, err
+			}
 			newRole.Params = params.(*lib.Struct)
 			newRole.Fields = fields.(*lib.Struct)
+			newRole.InitValues = initValues.(*lib.Struct)
 			return newRole, nil
 		}
 	default:
diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 1f0e69a..7cddeba 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -675,6 +675,14 @@ func (p *Process) HashCode() string {
 			panic(err)
 		}
 		h.Write(bytes)
+		// What a crash resets the ephemeral fields to is part of the state too
+		if len(role.InitValues.AttrNames()) > 0 {
+			bytes, err = role.InitValues.MarshalJSON()
+			if err != nil {
+				panic(err)
+			}
+			h.Write(bytes)
+		}
 	}
 	// hash the heap variables as well
 	heapHash := p.Heap.HashCode()
@@ -3729,12 +3737,25 @@ func (p *Processor) ResetEphemeralVariables(node *Node, oldRole *lib.Role) {
 	if role == nil {
 		return
 	}
-	for _, fieldName := range role.InitValues.AttrNames() {
-		attr, _ := role.InitValues.Attr(fieldName)
+	// The fields get copies, the values of Init are needed again at the next crash
+	initValues := node.Process.cloneWithinProcess(role.InitValues)
+	for _, fieldName := range initValues.AttrNames() {
+		attr, _ := initValues.Attr(fieldName)
 		role.Fields.SetField(fieldName, attr)
 	}
 }
 
+// cloneWithinProcess clones the record; references to the roles of the process stay references to them.
+func (p *Process) cloneWithinProcess(record *lib.Struct) *lib.Struct {
+	refs := make(map[starlark.Value]starlark.Value)
+	for _, role := range p.Roles {
+		refs[role] = role
+	}
+	cloned, err := deepCloneStarlarkValue(record, refs)
+	PanicOnError(err)
+	return cloned.(*lib.Struct)
+}
+
 func (p *Processor) shouldThreadCrash(node *Node) bool {
 	if node.Process.GetThreadsCount() == 0 || node.Process.Current == -1 || !p.config.Options.GetCrashOnYield() {
 		return false
diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index a3ef21b..d8e57f6 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -1387,12 +1387,7 @@ func (t *Thread) executeEndOfBlockWithForks() ([]*Process, bool) {
 }
 
 func (t *Thread) CopyInitValuesForEphemeralFields(oldFrame *CallFrame) {
-	fields := oldFrame.obj.Fields
-	fieldsCloned, err := deepCloneStarlarkValue(fields, nil)
-	if err != nil {
-		panic(err)
-	}
-	fieldsClonedStruct := fieldsCloned.(*lib.Struct)
+	fieldsClonedStruct := t.Process.cloneWithinProcess(oldFrame.obj.Fields)
 	for _, fieldName := range fieldsClonedStruct.AttrNames() {
 		isDurable := t.Process.durabilitySpec.IsFieldDurable(oldFrame.obj.Name, fieldName)
 		if isDurable {
-- 
2.43.0


From 2bbb236c09ed769e0ccac7d69f60f7bfc6e77299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:02 +0000
Subject: [PATCH 37/53] fix: the progress of a guided trace is that of the
 furthest path, not of all paths together

---
 modelchecker/trace.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modelchecker/trace.go b/modelchecker/trace.go
index 45bca93..56f7e1f 100644
--- a/modelchecker/trace.go
+++ b/modelchecker/trace.go
@@ -148,7 +148,8 @@ func (p *Processor) ShouldScheduleNode(node *Node) bool {
 	// Schedule only if link name matches
 	if linkName == expectedLinkName {
 		node.guidedTrace.Advance()
-		p.guidedTrace.Advance()
+		// Several paths may follow the trace; report how far the furthest one came.
+		p.guidedTrace.currentIndex = max(p.guidedTrace.currentIndex, node.guidedTrace.currentIndex)
 		return true
 	}
 
-- 
2.43.0


From 6edc8f28c9440d7ae87206b9f9d4412bc6f58e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:02 +0000
Subject: [PATCH 38/53] fix: a guided trace can return to a state it has passed

---
 modelchecker/processor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 7cddeba..b85a790 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2820,6 +2820,10 @@ func (p *Process) minHashCode(hashes []string) string {
 // findVisitedSymmetric looks up a node in the visited map by trying all symmetry
 // permutation hashes. Returns the matching node and true if found, nil and false otherwise.
 func (p *Processor) findVisitedSymmetric(node *Node) (*Node, bool, string) {
+	if p.guidedTrace != nil {
+		// The rest of a trace leads on from a state it comes back to: nothing is merged.
+		return nil, false, node.HashCode()
+	}
 	// Skip symmetry reduction in simulation mode (we only check one path
 	// anyway) or when explicitly disabled. Disabling keeps every persisted
 	// state concrete — no canonical renaming of symmetric values/roles —
-- 
2.43.0


From 8c76ca0e34c822375f431f7142ce643147480800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:02 +0000
Subject: [PATCH 39/53] fix: a violation in the middle of a guided trace is
 reported

---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 4c7f7e2..12b28c6 100644
--- a/main.go
+++ b/main.go
@@ -793,8 +793,8 @@ func modelCheckSingleSpec(f *ast.File, stateConfig *ast.StateSpaceOptions, dirPa
 			return rootNode
 		}
 
-		// Check if trace was fully executed
-		if guidedTrace != nil && !guidedTrace.IsExhausted() {
+		// Check if trace was fully executed (a violation ends the run before)
+		if guidedTrace != nil && failedNode == nil && !guidedTrace.IsExhausted() {
 			fmt.Printf("WARNING: Trace execution incomplete. Expected %d links, executed %d links.\n",
 				len(guidedTrace.LinkNames), guidedTrace.GetCurrentIndex())
 			fmt.Println("The trace may contain links that don't match the model or are unreachable.")
-- 
2.43.0


From 957e4e742936934890d010b671ce692405a02c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:08 +0000
Subject: [PATCH 40/53] fix: itertools.chain takes any number of iterables

It failed for every argument: UnpackArgs has no notion of variadic arguments.
---
 lib/starlark_itertools.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index bd6a24d..ddd1f9d 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -18,12 +18,15 @@ var ItertoolsModule = &starlarkstruct.Module{
 }
 
 func itertoolsChain(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
-	var iterables []starlark.Iterable
-	if err := starlark.UnpackArgs("chain", args, kwargs, "*", &iterables); err != nil {
-		return nil, err
+	if len(kwargs) > 0 {
+		return nil, fmt.Errorf("chain: unexpected keyword arguments")
 	}
 	var result []starlark.Value
-	for _, iterable := range iterables {
+	for i, arg := range args {
+		iterable, ok := arg.(starlark.Iterable)
+		if !ok {
+			return nil, fmt.Errorf("chain: argument %d is not iterable", i)
+		}
 		iter := iterable.Iterate()
 		defer iter.Done()
 		var v starlark.Value
-- 
2.43.0


From 137aa657d572ca7c39a897a32c07e45ed7ce5b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:08 +0000
Subject: [PATCH 41/53] fix: itertools.product of four or more iterables does
 not overwrite its tuples

---
 lib/starlark_itertools.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index ddd1f9d..4eefc01 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -147,7 +147,8 @@ func itertoolsProduct(thread *starlark.Thread, fn *starlark.Builtin, args starla
 	var product func(int, []starlark.Value)
 	product = func(depth int, acc []starlark.Value) {
 		if depth == len(pools) {
-			result = append(result, starlark.Tuple(acc))
+			// The elements of acc are shared with the tuples that continue the same prefix
+			result = append(result, append(starlark.Tuple{}, acc...))
 			return
 		}
 		for _, val := range pools[depth] {
-- 
2.43.0


From e3b4e3a7214d8b891724ded5d32929810b23e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:08 +0000
Subject: [PATCH 42/53] fix: itertools.product honors repeat

The keyword is documented, and was ignored.
---
 lib/starlark_itertools.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index 4eefc01..40f9d30 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -123,6 +123,13 @@ func itertoolsPermutations(thread *starlark.Thread, fn *starlark.Builtin, args s
 }
 
 func itertoolsProduct(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
+	repeat := 1
+	if err := starlark.UnpackArgs("product", nil, kwargs, "repeat?", &repeat); err != nil {
+		return nil, err
+	}
+	if repeat < 0 {
+		return nil, fmt.Errorf("product: repeat cannot be negative")
+	}
 	iterables := make([]starlark.Iterable, len(args))
 	for i, arg := range args {
 		iter, ok := arg.(starlark.Iterable)
@@ -142,6 +149,11 @@ func itertoolsProduct(thread *starlark.Thread, fn *starlark.Builtin, args starla
 			pools[i] = append(pools[i], v)
 		}
 	}
+	once := pools
+	pools = nil
+	for ; repeat > 0; repeat-- {
+		pools = append(pools, once...)
+	}
 
 	var result []starlark.Value
 	var product func(int, []starlark.Value)
-- 
2.43.0


From af0f61db53e21ec34e6ddd979f904a21901506e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:08 +0000
Subject: [PATCH 43/53] fix: itertools.permutations permutes all elements if r
 is left out

r=None is documented, and was rejected.
---
 lib/starlark_itertools.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index 40f9d30..99033f2 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -77,8 +77,8 @@ func itertoolsCombinations(thread *starlark.Thread, fn *starlark.Builtin, args s
 
 func itertoolsPermutations(thread *starlark.Thread, fn *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 	var iterable starlark.Iterable
-	var r int
-	if err := starlark.UnpackArgs("permutations", args, kwargs, "iterable", &iterable, "r", &r); err != nil {
+	var length starlark.Value = starlark.None
+	if err := starlark.UnpackArgs("permutations", args, kwargs, "iterable", &iterable, "r?", &length); err != nil {
 		return nil, err
 	}
 
@@ -90,6 +90,13 @@ func itertoolsPermutations(thread *starlark.Thread, fn *starlark.Builtin, args s
 		items = append(items, v)
 	}
 	n := len(items)
+	r := n
+	if length != starlark.None {
+		var err error
+		if r, err = starlark.AsInt32(length); err != nil {
+			return nil, fmt.Errorf("permutations: for parameter r: %v", err)
+		}
+	}
 	if r > n || r < 0 {
 		return starlark.NewList(nil), nil
 	}
-- 
2.43.0


From 7e026086ed5fbdf06a24b8525a916eb841ed52b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:09 +0000
Subject: [PATCH 44/53] fix: itertools.combinations_with_replacement of no
 elements chosen from none

There is one such combination, as for itertools.combinations.
---
 lib/starlark_itertools.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/starlark_itertools.go b/lib/starlark_itertools.go
index 99033f2..38fd391 100644
--- a/lib/starlark_itertools.go
+++ b/lib/starlark_itertools.go
@@ -193,7 +193,7 @@ func itertoolsCombinationsWithReplacement(thread *starlark.Thread, fn *starlark.
 		items = append(items, v)
 	}
 	n := len(items)
-	if r < 0 || n == 0 {
+	if r < 0 {
 		return starlark.NewList(nil), nil
 	}
 
-- 
2.43.0


From 7719107b68d0186a4ea1bc69d1a0bc8d27263a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:54 +0000
Subject: [PATCH 45/53] fix: the values of a recorded call are listed in the
 order of their names

---
 modelchecker/processor.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index b85a790..9f95364 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -933,8 +933,13 @@ func (p *Process) RecordCall(callerFrame *CallFrame, receiverFrame *CallFrame, f
 	if receiverFrame.obj != nil {
 		msg.Receivers = []string{receiverFrame.obj.RefStringShort()}
 	}
-	for name, value := range receiverFrame.vars {
-		str := strings.ReplaceAll(value.String(), lib.SymmetryPrefix, "")
+	names := make([]string, 0, len(receiverFrame.vars))
+	for name := range receiverFrame.vars {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		str := strings.ReplaceAll(receiverFrame.vars[name].String(), lib.SymmetryPrefix, "")
 		msg.Values = append(msg.Values, &ast.NameValue{Name: name, Value: str})
 	}
 	if flow != ast.Flow_FLOW_ATOMIC {
-- 
2.43.0


From 747343710476804c565d56c6df57fb91eb2b32b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:57 +0000
Subject: [PATCH 46/53] fix: messages of several channels are delivered in the
 same order in every run

---
 modelchecker/processor.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/modelchecker/processor.go b/modelchecker/processor.go
index 9f95364..b6a945f 100644
--- a/modelchecker/processor.go
+++ b/modelchecker/processor.go
@@ -2094,8 +2094,8 @@ func (p *Processor) probeNextStates(process *Process) []*NextTransition {
 	}
 
 	// 2. Pending channel message deliveries (mirrors scheduleChannelMessages).
-	for i, msgs := range process.ChannelMessages {
-		for j := range msgs {
+	for _, i := range process.channelsWithMessages() {
+		for j := range process.ChannelMessages[i] {
 			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
 			nn := base.ForkForAlternatePaths(process.Fork(), linkName)
 			newMsg := nn.ChannelMessages[i][j]
@@ -3457,9 +3457,19 @@ func (p *Processor) YieldFork(node *Node, process *Process) {
 	}
 }
 
+// channelsWithMessages returns the ids of the channels that hold messages, in ascending order.
+func (p *Process) channelsWithMessages() []int {
+	ids := make([]int, 0, len(p.ChannelMessages))
+	for id := range p.ChannelMessages {
+		ids = append(ids, id)
+	}
+	sort.Ints(ids)
+	return ids
+}
+
 func (p *Processor) scheduleChannelMessages(node *Node) {
-	for i, msgs := range node.ChannelMessages {
-		for j, _ := range msgs {
+	for _, i := range node.channelsWithMessages() {
+		for j := range node.ChannelMessages[i] {
 			linkName := fmt.Sprintf("channel-%d-message-%d", i, j)
 			newNode := node.ForkForAlternatePaths(node.Process.Fork(), linkName)
 			newNode.Process.nameStep(linkName)
-- 
2.43.0


From 513c9a5373bedf74c9c5d8d72dc21ddc834923f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:02 +0000
Subject: [PATCH 47/53] fix: the communication diagram is drawn in the same
 order in every run

---
 modelchecker/graph.go | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/modelchecker/graph.go b/modelchecker/graph.go
index 55d3731..939e250 100644
--- a/modelchecker/graph.go
+++ b/modelchecker/graph.go
@@ -455,6 +455,15 @@ func GenerateFailurePath(nodes []*Link, name string, invariant *InvariantPositio
 	return builder.String()
 }
 
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for key := range m {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func GenerateCommunicationGraph(messages []string) string {
 	// TODO: Handle assymetric communication
 	// For now, if there are 2 senders and 3 receivers, we will have 6 possible communication links
@@ -512,8 +521,8 @@ func GenerateCommunicationGraph(messages []string) string {
 		}
 	}
 
-	for roleName, replicated := range roleNames {
-		if replicated {
+	for _, roleName := range sortedKeys(roleNames) {
+		if roleNames[roleName] {
 			// Add a html type node table to represent replicated service
 			// for example, if there are multiple instances of Participant, we will have
 			//     "Participant" [shape=none label=<
@@ -529,12 +538,22 @@ func GenerateCommunicationGraph(messages []string) string {
 			builder.WriteString("      </table>>]\n")
 		}
 	}
-	for p, m := range uniqueMessages {
+	pairs := make([]lib.Pair[string, string], 0, len(uniqueMessages))
+	for p := range uniqueMessages {
+		pairs = append(pairs, p)
+	}
+	sort.Slice(pairs, func(i, j int) bool {
+		if pairs[i].First != pairs[j].First {
+			return pairs[i].First < pairs[j].First
+		}
+		return pairs[i].Second < pairs[j].Second
+	})
+	for _, p := range pairs {
 		sender := p.First
 		receiver := p.Second
 		// Concatenate all the messages
 		label := ""
-		for message := range m {
+		for _, message := range sortedKeys(uniqueMessages[p]) {
 			if label != "" {
 				label += ", "
 			}
@@ -561,7 +580,8 @@ func GenerateCommunicationGraph(messages []string) string {
 		}
 	}
 
-	for receiver, actions := range uniqueActions {
+	for _, receiver := range sortedKeys(uniqueActions) {
+		actions := uniqueActions[receiver]
 		// for each receiver, add the actions
 		// - if the action is unfair add a hidden node and add an edge from the action to the receiver with action name as label
 		// - if there is at least one fair action, add a html table hidden node with one row for each action with no label and port name as action name
@@ -569,8 +589,8 @@ func GenerateCommunicationGraph(messages []string) string {
 
 		// Add a hidden node for each action
 		hasFairAction := false
-		for action, fairness := range actions {
-
+		for _, action := range sortedKeys(actions) {
+			fairness := actions[action]
 			if fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNKNOWN || fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNFAIR {
 				actionNodeName := fmt.Sprintf("action%s%s", receiver, action)
 				builder.WriteString(fmt.Sprintf("  \"%s\" [label=\"\" shape=\"none\"]\n", actionNodeName))
@@ -581,7 +601,8 @@ func GenerateCommunicationGraph(messages []string) string {
 		}
 		if hasFairAction {
 			builder.WriteString(fmt.Sprintf("  \"FairAction%s\" [shape=none label=<<table cellpadding=\"14\" cellspacing=\"8\" style=\"invisible\"><tr>\n", receiver))
-			for action, fairness := range actions {
+			for _, action := range sortedKeys(actions) {
+				fairness := actions[action]
 				if !(fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNKNOWN || fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNFAIR) {
 					builder.WriteString(fmt.Sprintf("      <td port=\"%s\"></td>\n", action))
 				}
@@ -589,7 +610,8 @@ func GenerateCommunicationGraph(messages []string) string {
 			builder.WriteString("      </tr></table>>]\n")
 			// Make the FairAction node at the same rank as the receiver
 			builder.WriteString(fmt.Sprintf("  { rank=same; \"%s\"; \"FairAction%s\"; }\n", receiver, receiver))
-			for action, fairness := range actions {
+			for _, action := range sortedKeys(actions) {
+				fairness := actions[action]
 				if !(fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNKNOWN || fairness == proto.FairnessLevel_FAIRNESS_LEVEL_UNFAIR) {
 					builder.WriteString(fmt.Sprintf("  \"FairAction%s\":%s -> \"%s\" [label=\"%s\"];\n", receiver, action, receiver, action))
 				}
-- 
2.43.0


From 02ab5c683580c21f8a0e773119bc81ab71ee7b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:12 +0000
Subject: [PATCH 48/53] fix: the function that handles a channel message may
 return a value

---
 modelchecker/thread.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modelchecker/thread.go b/modelchecker/thread.go
index d8e57f6..33ef5dd 100644
--- a/modelchecker/thread.go
+++ b/modelchecker/thread.go
@@ -882,8 +882,10 @@ func (t *Thread) executeStatement() ([]*Process, bool) {
 					t.Process.Returns[convertToFunction(function).Name] = val
 				} else if _, ok := action.(*ast.Role); ok {
 					actionPath = pathComp[0] + "." + pathComp[1]
-					action1 = GetProtoFieldByPath(fileAst, actionPath).(*ast.Action)
-					t.Process.Returns[oldFrame.obj.RefStringShort()+"."+convertToAction(action1).Name] = val
+					// What the function that handled a channel message returns has no receiver.
+					if action1, ok := GetProtoFieldByPath(fileAst, actionPath).(*ast.Action); ok {
+						t.Process.Returns[oldFrame.obj.RefStringShort()+"."+convertToAction(action1).Name] = val
+					}
 					t.Process.Enable()
 				} else {
 					panic(fmt.Sprintf("Unknown protobuf type: %T, value %v at path %s", action, action, currentFrame.pc))
-- 
2.43.0


From b398c0ad190674210baf9dc425171b03d6c09381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:35 +0000
Subject: [PATCH 49/53] fix: the exported graph files are the same in every run

---
 modelchecker/graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modelchecker/graph.go b/modelchecker/graph.go
index 939e250..b437788 100644
--- a/modelchecker/graph.go
+++ b/modelchecker/graph.go
@@ -205,7 +205,7 @@ func writeNodeJsonsToFile(nodeJsons []string, filename string) error {
 }
 
 func writeProtoMsgToFile(message proto3.Message, filename string) error {
-	data, err := proto3.Marshal(message)
+	data, err := proto3.MarshalOptions{Deterministic: true}.Marshal(message)
 	if err != nil {
 		log.Fatalf("Failed to serialize message: %v", err)
 		return err
-- 
2.43.0


From 9ef0b3bfeab09859e4c7dabeb81e883ad894d21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:37 +0000
Subject: [PATCH 50/53] fix: a record given two values for a field is an error

---
 lib/starlarkstruct.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/starlarkstruct.go b/lib/starlarkstruct.go
index b90ccec..6b5b3f6 100644
--- a/lib/starlarkstruct.go
+++ b/lib/starlarkstruct.go
@@ -42,7 +42,13 @@ func Make(_ *starlark.Thread, _ *starlark.Builtin, args starlark.Tuple, kwargs [
 	if len(args) > 0 {
 		return nil, fmt.Errorf("struct: unexpected positional arguments")
 	}
-	return FromKeywords(Default, kwargs), nil
+	s := FromKeywords(Default, kwargs)
+	for i := 1; i < len(s.entries); i++ {
+		if s.entries[i-1].name == s.entries[i].name {
+			return nil, fmt.Errorf("record: multiple values for field %s", s.entries[i].name)
+		}
+	}
+	return s, nil
 }
 
 // FromKeywords returns a new struct instance whose fields are specified by the
-- 
2.43.0


From 051c52c2de348793a112548133f7251941505b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:35:41 +0000
Subject: [PATCH 51/53] fix: an enum with two members of one name, or a name
 that is not a string, is an error

---
 lib/starlark_types.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/starlark_types.go b/lib/starlark_types.go
index 0065e5b..3ed364a 100644
--- a/lib/starlark_types.go
+++ b/lib/starlark_types.go
@@ -171,6 +171,17 @@ func MakeEnum(_ *starlark.Thread, _ *starlark.Builtin, args starlark.Tuple, kwar
 	for _, arg := range args {
 		kwargs = append(kwargs, starlark.Tuple{arg, arg})
 	}
+	seen := make(map[starlark.String]bool, len(kwargs))
+	for _, kwarg := range kwargs {
+		name, ok := kwarg[0].(starlark.String)
+		if !ok {
+			return nil, fmt.Errorf("enum: the name of a member must be a string, not %s", kwarg[0].Type())
+		}
+		if seen[name] {
+			return nil, fmt.Errorf("enum: multiple members have the name %s", string(name))
+		}
+		seen[name] = true
+	}
 	return starlarkstruct.FromKeywords(starlark.String("enum"), kwargs), nil
 }
 
-- 
2.43.0


From 26872053075be8486b332f72f9a67eef48382d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:03 +0000
Subject: [PATCH 52/53] fix: the failing path of a nondeterministic liveness
 check is the same in every run

---
 modelchecker/invariants.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index 04d9989..2ecd396 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -396,7 +396,10 @@ func AlwaysEventuallyFast(nodes []*Node, predicate Predicate) ([]*Link, bool) {
 	if len(falseNodes) > 0 {
 		var closestDeadNode *Node
 
-		for node, _ := range falseNodes {
+		for _, node := range nodes {
+			if !falseNodes[node] {
+				continue
+			}
 			//fmt.Println("-\n",node.String(), count)
 			if closestDeadNode == nil || (closestDeadNode.GetThreadsCount() > 0 && node.GetThreadsCount() == 0) {
 				closestDeadNode = node
-- 
2.43.0


From e0654568c6c5a8afaa34653b211e9309f8192a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:38 +0000
Subject: [PATCH 53/53] fix: a nondeterministic liveness check of a run that
 can end is no internal error

---
 modelchecker/invariants.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/modelchecker/invariants.go b/modelchecker/invariants.go
index 2ecd396..d65539a 100644
--- a/modelchecker/invariants.go
+++ b/modelchecker/invariants.go
@@ -512,10 +512,6 @@ func EventuallyAlwaysFast(nodes []*Node, predicate Predicate) ([]*Link, bool) {
 	visited := make(map[*Node]bool)
 	queue := lib.NewQueue[*Node]()
 	for _, node := range nodes {
-		if len(node.Outbound) == 0 {
-			fmt.Println("Deadlock detected, at node: ", node.String())
-			panic("Deadlock detected, at node: " + node.String())
-		}
 		relevant, value := predicate(node)
 		if relevant && !value {
 			queue.Enqueue(node)
-- 
2.43.0

