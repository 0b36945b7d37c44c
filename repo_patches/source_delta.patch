From 6df1628f537a051eaf1f473cd9cb685afc8a60c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 01/53] fix: do not return trust chains that are not anchored
 or not signature-verified

An entity without (usable) authority hints was returned as a one-element
trust chain without any signature verification; the same was true for a
trust anchor resolving itself with pinned keys.
---
 trustresolver.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 5523cde..055aaee 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -228,7 +228,11 @@ func (r *TrustResolver) Resolve() {
 
 // VerifySignatures verifies the signatures of the internal trust tree
 func (r *TrustResolver) VerifySignatures() {
-	r.trustTree.verifySignatures(r.TrustAnchors)
+	if !r.trustTree.verifySignatures(r.TrustAnchors) {
+		// nothing in the tree can be trusted, so there must not be any trust chains
+		r.trustTree = trustTree{}
+		return
+	}
 	if err := r.cacheSetTrustTree(); err != nil {
 		internal.Log(err.Error())
 	}
@@ -436,18 +440,23 @@ func (t *trustTree) verifySignatures(anchors TrustAnchors) bool {
 	if t.signaturesVerified {
 		return true
 	}
-	if t.Subordinate != nil {
-		for _, ta := range anchors {
-			if utils.Equal(ta.EntityID, t.Entity.Issuer, t.Entity.Subject, t.Subordinate.Issuer) {
-				// t is about a TA
-				jwks := ta.JWKS
-				if jwks.Set == nil {
-					jwks = t.Entity.JWKS
-				}
-				t.signaturesVerified = t.Entity.Verify(jwks) && t.Subordinate.Verify(jwks)
-				return t.signaturesVerified
-			}
+	if t.Entity == nil {
+		return false
+	}
+	for _, ta := range anchors {
+		if !utils.Equal(ta.EntityID, t.Entity.Issuer, t.Entity.Subject) {
+			continue
+		}
+		if t.Subordinate != nil && t.Subordinate.Issuer != ta.EntityID {
+			continue
+		}
+		// t is about a TA
+		jwks := ta.JWKS
+		if jwks.Set == nil {
+			jwks = t.Entity.JWKS
 		}
+		t.signaturesVerified = t.Entity.Verify(jwks) && (t.Subordinate == nil || t.Subordinate.Verify(jwks))
+		return t.signaturesVerified
 	}
 	iValid := 0
 	for _, tt := range t.Authorities {
-- 
2.43.0


From 6b16ba600647174a7b84d73541a411d00d9fa43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 02/53] fix: check identity and validity period of the starting
 entity's configuration

---
 trustresolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index 055aaee..b70c7a6 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -212,6 +212,10 @@ func (r *TrustResolver) Resolve() {
 	if err != nil {
 		return
 	}
+	if !utils.Equal(starting.Issuer, starting.Subject, r.StartingEntity) || !starting.TimeValid() {
+		internal.Log("entity configuration of starting entity is not valid")
+		return
+	}
 	if len(r.Types) > 0 {
 		utils.NilAllExceptByTag(starting.Metadata, r.Types)
 	}
-- 
2.43.0


From 464d61e1045a57e47d9a3a4b07b503ed1c6443b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 03/53] fix: resolving an entity without metadata must not
 panic

---
 trustresolver.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index b70c7a6..31d2632 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -216,12 +216,16 @@ func (r *TrustResolver) Resolve() {
 		internal.Log("entity configuration of starting entity is not valid")
 		return
 	}
-	if len(r.Types) > 0 {
-		utils.NilAllExceptByTag(starting.Metadata, r.Types)
+	var entityTypes []string
+	if starting.Metadata != nil {
+		if len(r.Types) > 0 {
+			utils.NilAllExceptByTag(starting.Metadata, r.Types)
+		}
+		entityTypes = starting.Metadata.GuessEntityTypes()
 	}
 	r.trustTree = trustTree{
 		Entity:              starting,
-		includedEntityTypes: strset.New(starting.Metadata.GuessEntityTypes()...),
+		includedEntityTypes: strset.New(entityTypes...),
 		subordinateIDs:      strset.New(starting.Subject),
 	}
 	r.trustTree.resolve(r.TrustAnchors)
-- 
2.43.0


From d69f34f70f8cc4121fa1a2ea195f69771dbd1713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 04/53] fix: do not cache values without a positive lifetime

Redis stores values with a negative expiration forever; trust trees and trust
chains were cached with a negative lifetime.
---
 cache/cache.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 635d577..7249339 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -91,8 +91,14 @@ func EntityStmtCacheKey(subID, issID string) string {
 	return Key(KeyEntityStatement, subkey)
 }
 
-// Set caches a value for the given key and duration in the cache
+// Set caches a value for the given key and duration in the cache; a value that
+// is already expired, i.e. the duration is not positive, is not cached
 func Set(key string, value any, duration time.Duration) error {
+	if duration <= 0 {
+		// cache implementations might give non-positive durations a special
+		// meaning, e.g. to never expire
+		return nil
+	}
 	return cacheCache.Set(key, value, duration)
 }
 
-- 
2.43.0


From 169e85d9e7e49b29c1a7b30d54e93d900c0b45ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 05/53] fix: preserve which metadata claims are set when
 caching entity statements

Metadata policies were applied differently (or not at all) to statements
obtained from the cache.
---
 entitystatement.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/entitystatement.go b/entitystatement.go
index 816bbe3..480d338 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -60,6 +60,17 @@ func (e *EntityStatement) UnmarshalMsgpack(data []byte) error {
 	}
 	e.EntityStatementPayload = ee.Payload
 	e.jwtMsg = &ee.JWTMsg
+	if e.jwtMsg.Message == nil {
+		return nil
+	}
+	// The msgpack representation does not preserve which metadata claims were
+	// present in the jwt, but this is relevant when applying metadata policies;
+	// therefore, the payload is taken from the jwt.
+	var fromJWT EntityStatementPayload
+	if err := json.Unmarshal(e.jwtMsg.Payload(), &fromJWT); err != nil {
+		return err
+	}
+	e.EntityStatementPayload = fromJWT
 	return nil
 }
 
-- 
2.43.0


From 921515de3cf6bdeed7ae23b390eee6da1494757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 06/53] fix: an unknown policy operator must not drop the other
 operators when merging

---
 metadataPolicy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index e79c97b..a0957c5 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -213,7 +213,7 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 		if !ok {
 			// return nil, errors.Errorf("unknown policy operator '%s'; cannot combine these policies", op)
 			// We already checked that this is not a crit operator, so it is just ignored
-			return nil, nil
+			continue
 		}
 		combined, err := operator.Merge(av, bv, pathInfo)
 		if err != nil {
-- 
2.43.0


From c611e9aac7b2824550731808b1c1ee423289d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 07/53] fix: verify a metadata policy also if the other
 policies in the chain are empty

---
 metadataPolicy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index a0957c5..485bf5e 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -177,7 +177,7 @@ func combineMetadataPolicy(parent, sub MetadataPolicy, pathInfo string) (Metadat
 		return parent, nil
 	}
 	if len(parent) == 0 {
-		return sub, nil
+		return sub, sub.Verify(pathInfo)
 	}
 	out := make(MetadataPolicy)
 	for k, pv := range parent {
-- 
2.43.0


From 9b0ab02e76debda46f099b310691c0eda3a313a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:22 +0000
Subject: [PATCH 08/53] fix: slices with duplicate entries are not equal if
 they contain different elements

---
 internal/utils/slices.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index f18a91d..e33ac6b 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -171,12 +171,7 @@ func SliceEqual(a, b interface{}) bool {
 	if aV.Len() != bV.Len() {
 		return false
 	}
-	for i := 0; i < aV.Len(); i++ {
-		if !ReflectSliceContains(aV.Index(i).Interface(), bs) {
-			return false
-		}
-	}
-	return true
+	return ReflectIsSubsetOf(as, bs) && ReflectIsSubsetOf(bs, as)
 }
 
 // Slicify checks if an interface{} is a slice and if not returns a slice of the same type (as an interface{})
-- 
2.43.0


From 339cc1a4792642c3fedfc0a971f5687ba5ab5fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 09/53] fix: ignore unknown non-critical policy operators when
 verifying a policy

---
 metadataPolicy.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index 485bf5e..227ddbc 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -6,8 +6,6 @@ import (
 
 	"github.com/pkg/errors"
 	"tideland.dev/go/slices"
-
-	"github.com/go-oidfed/lib/internal/utils"
 )
 
 // MetadataPolicies is a type for holding the different MetadataPolicy
@@ -232,12 +230,15 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 
 // Verify verifies that the MetadataPolicyEntry is valid
 func (p MetadataPolicyEntry) Verify(pathInfo string) error {
-	activeOperators := utils.MapKeys(p)
-	for _, opN := range activeOperators {
-		op, ok := operators[opN]
-		if !ok {
-			continue
+	activeOperators := make([]PolicyOperatorName, 0, len(p))
+	for opN := range p {
+		// unknown operators are ignored, unless they are critical which is checked elsewhere
+		if _, known := operators[opN]; known {
+			activeOperators = append(activeOperators, opN)
 		}
+	}
+	for _, opN := range activeOperators {
+		op := operators[opN]
 		mayCombine := op.MayCombineWith()
 		if mayCombine == nil {
 			continue
-- 
2.43.0


From aad83f20855df4cf68fed56d3bdf1e7843d19439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 10/53] fix: apply metadata policies to claims and entity types
 unknown to the module

Statements with a metadata policy for an unknown entity type could not be
parsed, applying such a policy panicked and policies for unknown claims of
known entity types were silently ignored.
---
 metadata.go       | 58 +++++++++++++++++++++++++++++++++++++++++++++++
 metadataPolicy.go | 10 +++++---
 2 files changed, 65 insertions(+), 3 deletions(-)

diff --git a/metadata.go b/metadata.go
index a9bf786..4871d2d 100644
--- a/metadata.go
+++ b/metadata.go
@@ -276,17 +276,25 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 	if policy == nil {
 		return metadata, nil
 	}
+	if claims, ok := metadata.(map[string]any); ok {
+		return applyPolicyToClaims(claims, policy, ownTag)
+	}
 	v := reflect.ValueOf(metadata)
+	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
+		return nil, errors.Errorf("metadata for '%s' is not an object", ownTag)
+	}
 	t := v.Elem().Type()
 
 	wasSetField := v.Elem().FieldByName("wasSet")
 	wasSet := *(*map[string]bool)(unsafe.Pointer(wasSetField.UnsafeAddr())) // skipcq:  GSC-G103
+	knownClaims := make(map[string]bool)
 	for i := 0; i < t.NumField(); i++ {
 		j, ok := t.Field(i).Tag.Lookup("json")
 		if !ok {
 			continue
 		}
 		j = strings.TrimSuffix(j, ",omitempty")
+		knownClaims[j] = true
 		p, ok := policy[j]
 		if !ok {
 			continue
@@ -310,9 +318,59 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 		}
 	}
 
+	extraField := v.Elem().FieldByName("Extra")
+	if !extraField.IsValid() || !extraField.CanSet() {
+		return metadata, nil
+	}
+	extra, ok := extraField.Interface().(map[string]any)
+	if !ok {
+		return metadata, nil
+	}
+	extraPolicy := make(MetadataPolicy)
+	for claim, p := range policy {
+		if !knownClaims[claim] {
+			extraPolicy[claim] = p
+		}
+	}
+	if len(extraPolicy) == 0 {
+		return metadata, nil
+	}
+	appliedExtra, err := applyPolicyToClaims(extra, extraPolicy, ownTag)
+	if err != nil {
+		return nil, err
+	}
+	if len(appliedExtra) > 0 {
+		extraField.Set(reflect.ValueOf(appliedExtra))
+	} else {
+		extraField.SetZero()
+	}
 	return metadata, nil
 }
 
+// applyPolicyToClaims applies a MetadataPolicy to metadata of an entity type
+// unknown to this module
+func applyPolicyToClaims(claims map[string]any, policy MetadataPolicy, ownTag string) (
+	map[string]any, error,
+) {
+	out := make(map[string]any, len(claims))
+	for k, v := range claims {
+		out[k] = v
+	}
+	for k, p := range policy {
+		value, set := claims[k]
+		applied, err := p.ApplyTo(value, set, fmt.Sprintf("%s.%s", ownTag, k))
+		if err != nil {
+			return nil, err
+		}
+		if applied == nil {
+			delete(out, k)
+		} else {
+			out[k] = applied
+		}
+	}
+	return out, nil
+}
+
 // FindEntityMetadata finds metadata for the specified entity type in the
 // metadata and decodes it into the provided metadata object.
 func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
diff --git a/metadataPolicy.go b/metadataPolicy.go
index 227ddbc..4042ce6 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -51,9 +51,13 @@ func (m *MetadataPolicies) UnmarshalJSON(data []byte) error {
 	if len(extra) > 0 {
 		policyMap := make(map[string]MetadataPolicy)
 		for k, v := range extra {
-			policy, ok := v.(MetadataPolicy)
-			if !ok {
-				return errors.Errorf("non MetadataPolicy in metadata policies")
+			policyData, err := json.Marshal(v)
+			if err != nil {
+				return errors.WithStack(err)
+			}
+			var policy MetadataPolicy
+			if err = json.Unmarshal(policyData, &policy); err != nil {
+				return errors.Wrap(err, "non MetadataPolicy in metadata policies")
 			}
 
 			policyMap[k] = policy
-- 
2.43.0


From 679350726f0e10ff7fe8e854c09ab706d5550697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 11/53] fix: merging and applying policies must not panic on
 mixed types nor modify its inputs

---
 internal/utils/slices.go | 96 ++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 54 deletions(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index e33ac6b..e2ef5a8 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -21,55 +21,23 @@ func RemoveFromSlice[C comparable](slice []C, v C) []C {
 	return result
 }
 
-// ReflectSliceCast casts a slice to another type using reflection
+// ReflectSliceCast casts a slice to another type using reflection; if the elements do not have the right type, the
+// slice is returned as it is
 func ReflectSliceCast(slice, newType any) any {
-	if !IsSlice(slice) {
+	if !IsSlice(slice) || !IsSlice(newType) {
 		return slice
 	}
 	typeType := reflect.TypeOf(newType)
 	sliceV := reflect.ValueOf(slice)
-	out := reflect.MakeSlice(typeType, sliceV.Len(), sliceV.Len())
 	for i := 0; i < sliceV.Len(); i++ {
-		vv := sliceV.Index(i)
-		var v reflect.Value
-		// This is stupid and has faults, but I did not find a better way
-		switch typeType.Elem().Kind() {
-		case reflect.Bool:
-			v = reflect.ValueOf(vv.Interface().(bool))
-		case reflect.Int:
-			v = reflect.ValueOf(vv.Interface().(int))
-		case reflect.Int8:
-			v = reflect.ValueOf(vv.Interface().(int8))
-		case reflect.Int16:
-			v = reflect.ValueOf(vv.Interface().(int16))
-		case reflect.Int32:
-			v = reflect.ValueOf(vv.Interface().(int32))
-		case reflect.Int64:
-			v = reflect.ValueOf(vv.Interface().(int64))
-		case reflect.Uint:
-			v = reflect.ValueOf(vv.Interface().(uint))
-		case reflect.Uint8:
-			v = reflect.ValueOf(vv.Interface().(uint8))
-		case reflect.Uint16:
-			v = reflect.ValueOf(vv.Interface().(uint16))
-		case reflect.Uint32:
-			v = reflect.ValueOf(vv.Interface().(uint32))
-		case reflect.Uint64:
-			v = reflect.ValueOf(vv.Interface().(uint64))
-		case reflect.Uintptr:
-			v = reflect.ValueOf(vv.Interface().(*uint))
-		case reflect.Float32:
-			v = reflect.ValueOf(vv.Interface().(float32))
-		case reflect.Float64:
-			v = reflect.ValueOf(vv.Interface().(float64))
-		case reflect.Interface:
-			v = vv
-		case reflect.String:
-			v = reflect.ValueOf(vv.Interface().(string))
-		default:
-			v = vv.Convert(typeType.Elem())
+		elem := sliceV.Index(i).Interface()
+		if elem == nil || !reflect.TypeOf(elem).AssignableTo(typeType.Elem()) {
+			return slice
 		}
-		out.Index(i).Set(v)
+	}
+	out := reflect.MakeSlice(typeType, sliceV.Len(), sliceV.Len())
+	for i := 0; i < sliceV.Len(); i++ {
+		out.Index(i).Set(reflect.ValueOf(sliceV.Index(i).Interface()))
 	}
 	return out.Interface()
 }
@@ -92,18 +60,26 @@ func ReflectSliceContains(v, slice any) bool {
 func ReflectUnion(a, b any) any {
 	as := Slicify(a)
 	bs := Slicify(b)
-	out := reflect.ValueOf(as)
-	bV := reflect.ValueOf(bs)
-	if bV.Len() == 0 {
-		return out.Interface()
+	if bs == nil || reflect.ValueOf(bs).Len() == 0 {
+		return as
 	}
-	if out.Len() == 0 || out.Index(0).Type() != bV.Index(0).Type() {
-		bs = ReflectSliceCast(bs, as)
-		bV = reflect.ValueOf(bs)
+	if as == nil {
+		return bs
 	}
-	if out.Len() == 0 {
-		return bV.Interface()
+	bs = ReflectSliceCast(bs, as)
+	if reflect.ValueOf(as).Len() == 0 {
+		return bs
 	}
+	if reflect.TypeOf(as).Elem() != reflect.TypeOf(bs).Elem() {
+		// no common element type
+		as = toAnySlice(as)
+		bs = toAnySlice(bs)
+	}
+	aV := reflect.ValueOf(as)
+	bV := reflect.ValueOf(bs)
+	// always use a new slice, appending must not change the underlying array of the passed slice
+	out := reflect.MakeSlice(aV.Type(), 0, aV.Len()+bV.Len())
+	out = reflect.AppendSlice(out, aV)
 	for i := 0; i < bV.Len(); i++ {
 		v := bV.Index(i)
 		if !ReflectSliceContains(v.Interface(), out.Interface()) {
@@ -113,14 +89,23 @@ func ReflectUnion(a, b any) any {
 	return out.Interface()
 }
 
+func toAnySlice(slice any) any {
+	sliceV := reflect.ValueOf(slice)
+	out := make([]any, sliceV.Len())
+	for i := range out {
+		out[i] = sliceV.Index(i).Interface()
+	}
+	return out
+}
+
 // ReflectIntersect uses reflection to compute the intersection of two slices
 func ReflectIntersect(a, b any) any {
 	as := Slicify(a)
 	bs := Slicify(b)
-	aV := reflect.ValueOf(as)
-	if aV.Type() != reflect.ValueOf(bs).Type() {
-		bs = ReflectSliceCast(bs, as)
+	if as == nil {
+		return as
 	}
+	aV := reflect.ValueOf(as)
 	out := reflect.New(reflect.TypeOf(as)).Elem()
 	for i := 0; i < aV.Len(); i++ {
 		v := aV.Index(i)
@@ -135,6 +120,9 @@ func ReflectIntersect(a, b any) any {
 func ReflectIsSubsetOf(is, of any) bool {
 	is = Slicify(is)
 	of = Slicify(of)
+	if is == nil {
+		return true
+	}
 	isV := reflect.ValueOf(is)
 	for i := 0; i < isV.Len(); i++ {
 		v := isV.Index(i)
-- 
2.43.0


From 45ea4fff2e72e20206016ef82b586491034ca830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 12/53] fix: policy results of a different type must not panic

Numeric claims could not be combined with any policy (json numbers are float64)
and a policy with the wrong type crashed the process.
---
 metadata.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/metadata.go b/metadata.go
index 4871d2d..3423e36 100644
--- a/metadata.go
+++ b/metadata.go
@@ -300,7 +300,12 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 			continue
 		}
 		f := reflect.Indirect(v).Field(i)
-		value, err := p.ApplyTo(f.Interface(), wasSet[t.Field(i).Name], fmt.Sprintf("%s.%s", ownTag, j))
+		claim := f.Interface()
+		if f.CanInt() {
+			// policies are obtained from json, where all numbers are float64
+			claim = float64(f.Int())
+		}
+		value, err := p.ApplyTo(claim, wasSet[t.Field(i).Name], fmt.Sprintf("%s.%s", ownTag, j))
 		if err != nil {
 			return nil, err
 		}
@@ -311,10 +316,12 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 				rV = reflect.ValueOf(strings.Join(strSlice, " "))
 			}
 		}
-		if rV.IsValid() {
-			f.Set(rV)
-		} else {
+		if !rV.IsValid() {
 			f.SetZero()
+		} else if rV.Type().AssignableTo(f.Type()) {
+			f.Set(rV)
+		} else if err = setFromJSON(f, value); err != nil {
+			return nil, errors.Wrapf(err, "policy result for '%s.%s' has the wrong type", ownTag, j)
 		}
 	}
 
@@ -347,6 +354,21 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 	return metadata, nil
 }
 
+// setFromJSON sets the field to a value of a different type if they have the
+// same json representation
+func setFromJSON(field reflect.Value, value any) error {
+	data, err := json.Marshal(value)
+	if err != nil {
+		return err
+	}
+	target := reflect.New(field.Type())
+	if err = json.Unmarshal(data, target.Interface()); err != nil {
+		return err
+	}
+	field.Set(target.Elem())
+	return nil
+}
+
 // applyPolicyToClaims applies a MetadataPolicy to metadata of an entity type
 // unknown to this module
 func applyPolicyToClaims(claims map[string]any, policy MetadataPolicy, ownTag string) (
-- 
2.43.0


From 1a0d5d26f93c0b3da27f6447c14ca8e08fd50a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 13/53] fix: enforce essential for absent array claims and
 accept explicit false or zero

---
 policyoperators.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/policyoperators.go b/policyoperators.go
index 882e81b..02bb462 100644
--- a/policyoperators.go
+++ b/policyoperators.go
@@ -330,6 +330,21 @@ var policyOperatorDefault = NewPolicyOperator(
 	},
 )
 
+// isAbsent checks if a metadata value must be considered absent. For slices, booleans, and numbers the zero value is a
+// legit value if it was explicitly set.
+func isAbsent(value any, valueSet bool) bool {
+	if value == nil {
+		return true
+	}
+	v := reflect.ValueOf(value)
+	switch v.Kind() {
+	case reflect.Slice, reflect.Bool, reflect.Int64, reflect.Float64:
+		return !valueSet && v.IsZero()
+	default:
+		return v.IsZero()
+	}
+}
+
 var policyOperatorEssential = NewPolicyOperator(
 	PolicyOperatorEssential,
 	func(a, b any, _ string) (any, error) {
@@ -350,8 +365,7 @@ var policyOperatorEssential = NewPolicyOperator(
 		if policyValue == nil {
 			return value, valueSet, nil
 		}
-		if essential, eok := policyValue.(bool); eok && essential &&
-			(value == nil || (!utils.IsSlice(value) && reflect.ValueOf(value).IsZero())) {
+		if essential, eok := policyValue.(bool); eok && essential && isAbsent(value, valueSet) {
 			return nil, valueSet, errors.Errorf("metadata value for '%s' not set but required", pathInfo)
 		}
 		return value, valueSet, nil
-- 
2.43.0


From 7b8bb783de627c5a90c8d889d83d4ee4e8d492f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 14/53] fix: apply list policy operators to the individual
 scope values

---
 metadata.go       |  7 +++++++
 metadataPolicy.go | 14 ++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/metadata.go b/metadata.go
index 3423e36..364ca39 100644
--- a/metadata.go
+++ b/metadata.go
@@ -304,6 +304,13 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 		if f.CanInt() {
 			// policies are obtained from json, where all numbers are float64
 			claim = float64(f.Int())
+		} else if t.Field(i).Name == "Scope" && f.Kind() == reflect.String && p.hasListOperator() {
+			// a space-delimited string is treated as an array
+			var scopes []string
+			if s := f.String(); s != "" {
+				scopes = strings.Fields(s)
+			}
+			claim = scopes
 		}
 		value, err := p.ApplyTo(claim, wasSet[t.Field(i).Name], fmt.Sprintf("%s.%s", ownTag, j))
 		if err != nil {
diff --git a/metadataPolicy.go b/metadataPolicy.go
index 4042ce6..1328b05 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -263,6 +263,20 @@ func (p MetadataPolicyEntry) Verify(pathInfo string) error {
 	return nil
 }
 
+// hasListOperator checks if the MetadataPolicyEntry contains an operator that works on arrays
+func (p MetadataPolicyEntry) hasListOperator() bool {
+	for _, op := range []PolicyOperatorName{
+		PolicyOperatorAdd,
+		PolicyOperatorSubsetOf,
+		PolicyOperatorSupersetOf,
+	} {
+		if _, ok := p[op]; ok {
+			return true
+		}
+	}
+	return false
+}
+
 // ApplyTo applies this MetadataPolicyEntry to the passed value and returns the resulting value
 func (p MetadataPolicyEntry) ApplyTo(value any, valueSet bool, pathInfo string) (any, error) {
 	var err error
-- 
2.43.0


From 3b7b853c1312d801229e288f6f995311a5c5ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 15/53] fix: only report trust marks that were issued for the
 entity

---
 discovery.go         |  8 ++++++--
 metadata_resolver.go |  4 +++-
 trustmark.go         | 26 ++++++++++++++++++++++++++
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/discovery.go b/discovery.go
index 4554f91..4396b38 100644
--- a/discovery.go
+++ b/discovery.go
@@ -328,7 +328,9 @@ func (d *SimpleEntityCollector) collect(
 										ta, taErr = GetEntityConfiguration(req.TrustAnchor)
 									},
 								)
-								if taErr != nil || trustMarkInfo.VerifyFederation(&ta.EntityStatementPayload) != nil {
+								if taErr != nil || trustMarkInfo.verifyFederationForSubject(
+									&ta.EntityStatementPayload, subordinateID,
+								) != nil {
 									includeEntity = false
 									break
 								}
@@ -426,7 +428,9 @@ func (d *SimpleEntityCollector) collect(
 										},
 									)
 									if taErr == nil {
-										collectedEntity.TrustMarks = entityConfig.TrustMarks.VerifiedFederation(&ta.EntityStatementPayload)
+										collectedEntity.TrustMarks = entityConfig.TrustMarks.verifiedFederationForSubject(
+											&ta.EntityStatementPayload, subordinateID,
+										)
 									}
 								}
 
diff --git a/metadata_resolver.go b/metadata_resolver.go
index 6cac3b0..6f7719f 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -76,7 +76,9 @@ func (r LocalMetadataResolver) ResolveResponsePayload(req apimodel.ResolveReques
 	if err != nil {
 		return
 	}
-	res.TrustMarks = chain[0].TrustMarks.VerifiedFederation(&chain[len(chain)-1].EntityStatementPayload)
+	res.TrustMarks = chain[0].TrustMarks.verifiedFederationForSubject(
+		&chain[len(chain)-1].EntityStatementPayload, chain[0].Subject,
+	)
 	return
 }
 
diff --git a/trustmark.go b/trustmark.go
index 5714f3d..b7222d7 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -28,6 +28,19 @@ func (tms TrustMarkInfos) VerifiedFederation(ta *EntityStatementPayload) (verifi
 	return
 }
 
+// verifiedFederationForSubject verifies all TrustMarkInfos by using the passed trust anchor and returns only the valid
+// TrustMarkInfos that were issued for the passed subject
+func (tms TrustMarkInfos) verifiedFederationForSubject(
+	ta *EntityStatementPayload, subject string,
+) (verified TrustMarkInfos) {
+	for _, tm := range tms {
+		if err := tm.verifyFederationForSubject(ta, subject); err == nil {
+			verified = append(verified, tm)
+		}
+	}
+	return
+}
+
 // VerifiedExternal verifies all TrustMarkInfos by using the passed trust mark issuer jwks and optionally the passed
 // trust mark owner jwks and returns only the valid TrustMarkInfos
 func (tms TrustMarkInfos) VerifiedExternal(
@@ -130,6 +143,19 @@ func (tm *TrustMarkInfo) VerifyFederation(ta *EntityStatementPayload) error {
 	return mark.VerifyFederation(ta)
 }
 
+// verifyFederationForSubject verifies the TrustMarkInfo by using the passed trust anchor and also verifies that it was
+// issued for the passed subject
+func (tm *TrustMarkInfo) verifyFederationForSubject(ta *EntityStatementPayload, subject string) error {
+	mark, err := tm.TrustMark()
+	if err != nil {
+		return err
+	}
+	if mark.Subject != subject {
+		return errors.Errorf("trust mark was not issued for '%s'", subject)
+	}
+	return tm.VerifyFederation(ta)
+}
+
 // VerifyExternal verifies the TrustMarkInfo by using the passed trust mark issuer jwks and optionally the passed
 // trust mark owner jwks
 func (tm *TrustMarkInfo) VerifyExternal(
-- 
2.43.0


From 0df22eebe7ccc0e9167ff9560b8b15a32b29cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:47 +0000
Subject: [PATCH 16/53] fix: honor a custom lifetime when issuing a delegation
 jwt

---
 trustmark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index b7222d7..4c9af44 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -589,7 +589,7 @@ func (tmo TrustMarkOwner) DelegationJWT(trustMarkType, sub string, lifetime ...t
 	if len(lifetime) > 0 {
 		lf = lifetime[0]
 	}
-	if spec.DelegationLifetime != 0 {
+	if lf != 0 {
 		delegation.ExpiresAt = &unixtime.Unixtime{Time: now.Add(lf)}
 	}
 	return tmo.TrustMarkDelegationSigner.JWT(delegation)
-- 
2.43.0


From 96682969f0bd88cfb37cc77b33f7b17e5081053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 17/53] fix: refresh cached statements in the grace period
 after the lifetime factor elapsed

---
 trustresolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trustresolver.go b/trustresolver.go
index 31d2632..8257aa3 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -557,7 +557,8 @@ func getEntityStatementOrConfiguration(
 		go func() {
 			remainingLifetime := time.Until(stmt.ExpiresAt.Time)
 			totalLifetime := stmt.ExpiresAt.Sub(stmt.IssuedAt.Time)
-			if remainingLifetime <= ResolverCacheGracePeriod && float64(remainingLifetime)/float64(totalLifetime) > ResolverCacheLifetimeElapsedGraceFactor {
+			elapsedLifetime := totalLifetime - remainingLifetime
+			if remainingLifetime <= ResolverCacheGracePeriod && float64(elapsedLifetime)/float64(totalLifetime) > ResolverCacheLifetimeElapsedGraceFactor {
 				internal.Log("Within grace period, refreshing entity statement")
 				_, err := obtainAndSetEntityStatementOrConfiguration(
 					subID,
-- 
2.43.0


From 9df8909927de8362ab61b9fe5a459cc05cddf1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 18/53] fix: keep the scores aligned with the chains when
 sorting trust chains

---
 trustchainfilter.go | 47 ++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/trustchainfilter.go b/trustchainfilter.go
index f253fce..98996ee 100644
--- a/trustchainfilter.go
+++ b/trustchainfilter.go
@@ -20,32 +20,47 @@ func (c TrustChains) Filter(filter ...TrustChainsFilter) TrustChains {
 
 // SortAsc sorts multiple TrustChains ascending by using the passed TrustChainScoringFnc
 func (c TrustChains) SortAsc(scorer TrustChainScoringFnc) TrustChains {
-	scores := make([]int, len(c))
-	for i, tc := range c {
-		scores[i] = scorer(tc)
-	}
-
-	sort.Slice(
-		c, func(i, j int) bool {
-			return scores[i] < scores[j] // skipcq: GO-W4009
-		},
-	)
+	sort.Stable(newScoredTrustChains(c, scorer))
 	return c
 }
 
 // SortDesc sorts multiple TrustChains descending by using the passed TrustChainScoringFnc
 func (c TrustChains) SortDesc(scorer TrustChainScoringFnc) TrustChains {
+	sort.Stable(sort.Reverse(newScoredTrustChains(c, scorer)))
+	return c
+}
+
+// scoredTrustChains implements sort.Interface to sort TrustChains together with their scores
+type scoredTrustChains struct {
+	chains TrustChains
+	scores []int
+}
+
+func newScoredTrustChains(c TrustChains, scorer TrustChainScoringFnc) scoredTrustChains {
 	scores := make([]int, len(c))
 	for i, tc := range c {
 		scores[i] = scorer(tc)
 	}
+	return scoredTrustChains{
+		chains: c,
+		scores: scores,
+	}
+}
 
-	sort.Slice(
-		c, func(i, j int) bool {
-			return scores[i] > scores[j] // skipcq: GO-W4009
-		},
-	)
-	return c
+// Len implements the sort.Interface interface
+func (s scoredTrustChains) Len() int {
+	return len(s.chains)
+}
+
+// Less implements the sort.Interface interface
+func (s scoredTrustChains) Less(i, j int) bool {
+	return s.scores[i] < s.scores[j]
+}
+
+// Swap implements the sort.Interface interface
+func (s scoredTrustChains) Swap(i, j int) {
+	s.chains[i], s.chains[j] = s.chains[j], s.chains[i]
+	s.scores[i], s.scores[j] = s.scores[j], s.scores[i]
 }
 
 // TrustChainScoringFnc a function type that takes a TrustChain and calculates a score for the chain.
-- 
2.43.0


From 7703a7c827d7c55a3ccf166c247471f24df14970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 19/53] fix: populate all claims of a resolve response when
 (un)marshaling it

---
 trustresolver.go | 74 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 17 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 8257aa3..1167af9 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/pkg/errors"
 	"github.com/scylladb/go-set/strset"
 	"github.com/vmihailenco/msgpack/v5"
 	"golang.org/x/crypto/sha3"
@@ -47,34 +48,73 @@ type ResolveResponse struct {
 	ResolveResponsePayload `json:",inline"`
 }
 
+// resolveResponsePayloadFields has the same fields as ResolveResponsePayload, but not its methods
+type resolveResponsePayloadFields ResolveResponsePayload
+
+// resolveResponseFields holds all explicit claims of a ResolveResponse
+type resolveResponseFields struct {
+	Issuer    string            `json:"iss"`
+	Subject   string            `json:"sub"`
+	IssuedAt  unixtime.Unixtime `json:"iat"`
+	ExpiresAt unixtime.Unixtime `json:"exp"`
+	Audience  string            `json:"aud,omitempty"`
+	resolveResponsePayloadFields
+}
+
 // MarshalJSON implements the json.Marshaler interface.
 // It also marshals extra fields.
 func (r ResolveResponse) MarshalJSON() ([]byte, error) {
-	payload, err := r.ResolveResponsePayload.MarshalJSON()
+	explicitFields, err := json.Marshal(
+		resolveResponseFields{
+			Issuer:                       r.Issuer,
+			Subject:                      r.Subject,
+			IssuedAt:                     r.IssuedAt,
+			ExpiresAt:                    r.ExpiresAt,
+			Audience:                     r.Audience,
+			resolveResponsePayloadFields: resolveResponsePayloadFields(r.ResolveResponsePayload),
+		},
+	)
 	if err != nil {
 		return nil, err
 	}
-	type additionalData struct {
+	return extraMarshalHelper(explicitFields, r.Extra)
+}
+
+// UnmarshalJSON implements the json.Unmarshaler interface.
+// It also unmarshalls additional fields into the Extra claim.
+func (r *ResolveResponse) UnmarshalJSON(data []byte) error {
+	var fields struct {
 		Issuer    string            `json:"iss"`
 		Subject   string            `json:"sub"`
 		IssuedAt  unixtime.Unixtime `json:"iat"`
 		ExpiresAt unixtime.Unixtime `json:"exp"`
-		Audience  string            `json:"aud,omitempty"`
-	}
-	additional, err := json.Marshal(
-		additionalData{
-			Issuer:    r.Issuer,
-			Subject:   r.Subject,
-			IssuedAt:  r.IssuedAt,
-			ExpiresAt: r.ExpiresAt,
-			Audience:  r.Audience,
-		},
-	)
-	if err != nil {
-		return nil, err
 	}
-	additional[0] = ','
-	return extraMarshalHelper(append(payload[:len(payload)-1], additional...), r.Extra)
+	if err := json.Unmarshal(data, &fields); err != nil {
+		return errors.WithStack(err)
+	}
+	payload := ResolveResponsePayload{}
+	if err := json.Unmarshal(data, &payload); err != nil {
+		return err
+	}
+	for _, claim := range []string{"iss", "sub", "iat", "exp"} {
+		delete(payload.Extra, claim)
+	}
+	audience, audIsString := payload.Extra["aud"].(string)
+	if audIsString {
+		delete(payload.Extra, "aud")
+	}
+	if len(payload.Extra) == 0 {
+		payload.Extra = nil
+	}
+	*r = ResolveResponse{
+		Issuer:                 fields.Issuer,
+		Subject:                fields.Subject,
+		IssuedAt:               fields.IssuedAt,
+		ExpiresAt:              fields.ExpiresAt,
+		Audience:               audience,
+		ResolveResponsePayload: payload,
+	}
+	return nil
 }
 
 // ResolveResponsePayload holds the actual payload of a resolve response
-- 
2.43.0


From 00f224cb7d5fde5acfcdf214a0f49246961d2c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 20/53] fix: an unusable resolve response does not confirm that
 there is no valid trust chain

---
 metadata_resolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metadata_resolver.go b/metadata_resolver.go
index 6f7719f..4960266 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -169,8 +169,9 @@ func (r SimpleRemoteMetadataResolver) ResolveResponsePayload(req apimodel.Resolv
 func (r SimpleRemoteMetadataResolver) ResolvePossible(req apimodel.ResolveRequest) (bool, bool) {
 	_, resStatus, err := r.ResolveResponse(req)
 	if err != nil {
+		// the response could not be obtained or understood, so nothing is confirmed
 		internal.Log(err.Error())
-		return false, true
+		return false, false
 	}
 	switch resStatus {
 	case resolveStatusValid, resolveStatusOnlyValidTrustChain:
-- 
2.43.0


From b60e375fc865cf64a553e5ae7351b0a0b67320ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 21/53] fix: data race between the workers of an entity
 collection

---
 discovery.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/discovery.go b/discovery.go
index 4396b38..863c601 100644
--- a/discovery.go
+++ b/discovery.go
@@ -165,6 +165,18 @@ type EntityCollector interface {
 // federation
 type SimpleEntityCollector struct {
 	visitedEntities *strset.Set
+	visitedMu       sync.Mutex
+}
+
+// visit marks the passed entity as visited and returns if it was not visited before
+func (d *SimpleEntityCollector) visit(entityID string) bool {
+	d.visitedMu.Lock()
+	defer d.visitedMu.Unlock()
+	if d.visitedEntities.Has(entityID) {
+		return false
+	}
+	d.visitedEntities.Add(entityID)
+	return true
 }
 
 // SimpleOPCollector is an EntityCollector that uses the
@@ -269,11 +281,10 @@ func (d *SimpleEntityCollector) collect(
 	for _, authority := range authorities {
 		run(
 			func() {
-				if d.visitedEntities.Has(authority.EntityID) {
+				if !d.visit(authority.EntityID) {
 					internal.Logf("Already visited: %s -> skipping", authority.EntityID)
 					return
 				}
-				d.visitedEntities.Add(authority.EntityID)
 
 				stmt, err := GetEntityConfiguration(authority.EntityID)
 				if err != nil {
-- 
2.43.0


From d298406ff8f16352a6795fe159c881f5a0bb8dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 22/53] fix: set the ui infos, including keywords, of collected
 entities

---
 discovery.go | 2 +-
 metadata.go  | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/discovery.go b/discovery.go
index 863c601..7d3bcdb 100644
--- a/discovery.go
+++ b/discovery.go
@@ -76,7 +76,7 @@ func (e *CollectedEntity) setUIInfoField(
 		structField := uiInfoType.Field(i)
 		tag := structField.Tag.Get("json")
 		tagName := tag
-		if commaIdx := len(tag); commaIdx != -1 {
+		if commaIdx := strings.IndexByte(tag, ','); commaIdx != -1 {
 			tagName = tag[:commaIdx]
 		}
 
diff --git a/metadata.go b/metadata.go
index 364ca39..03b50f2 100644
--- a/metadata.go
+++ b/metadata.go
@@ -136,9 +136,8 @@ func (m Metadata) IterateStringSliceClaim(tag string, iterator func(entityType s
 				jsonTag := subStructField.Tag.Get("json")
 				jsonTag = strings.TrimSuffix(jsonTag, ",omitempty")
 
-				if jsonTag == tag && subField.Kind() == reflect.String {
-					slice := subField.Interface().([]string)
-					if slice != nil {
+				if jsonTag == tag && subField.Kind() == reflect.Slice {
+					if slice, ok := subField.Interface().([]string); ok && slice != nil {
 						iterator(entityTag, slice)
 					}
 					break
-- 
2.43.0


From aab0aeb057aad73fa20c57e299076e5c745ef721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 23/53] fix: accept a configured trust mark jwt

---
 trustmark_refresher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index e33741e..22c80ef 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -45,7 +45,7 @@ func (c *EntityConfigurationTrustMarkConfig) Verify(
 	}
 
 	if c.JWT != "" {
-		parsed, err := jwt.Parse([]byte(c.JWT))
+		parsed, err := jwt.ParseInsecure([]byte(c.JWT))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From b3ab9db0e0235899a866bb45b5acc415a324150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 24/53] fix: do not omit non-expiring trust marks and data race
 when refreshing trust marks

---
 trustmark_refresher.go | 93 ++++++++++++++++++++++++++++++++----------
 1 file changed, 72 insertions(+), 21 deletions(-)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index 22c80ef..8e15011 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -2,6 +2,7 @@ package oidfed
 
 import (
 	"net/url"
+	"sync"
 	"time"
 
 	"github.com/lestrrat-go/jwx/v3/jwt"
@@ -28,6 +29,10 @@ type EntityConfigurationTrustMarkConfig struct {
 	sub                  string
 	ownTrustMarkEndpoint string
 	ownTrustMarkIssuer   *TrustMarkIssuer
+	// mutex protects JWT, expiration, and lastTried
+	mutex sync.Mutex
+	// refreshMutex assures that there is only a single refresh at a time
+	refreshMutex sync.Mutex
 }
 
 // Verify verifies that the EntityConfigurationTrustMarkConfig is correct and also extracts trust mark id and issuer
@@ -84,35 +89,86 @@ func (c *EntityConfigurationTrustMarkConfig) TrustMarkJWT() (string, error) {
 	if !c.Refresh {
 		return c.JWT, nil
 	}
-	if c.JWT != "" && unixtime.Until(c.expiration) > c.MinLifetime.Duration {
-		if unixtime.Until(c.expiration) < c.RefreshGracePeriod.Duration {
-			go c.refresh()
-		}
-		return c.JWT, nil
+	if jwt, ok := c.usableJWT(); ok {
+		return jwt, nil
+	}
+	c.refreshMutex.Lock()
+	defer c.refreshMutex.Unlock()
+	if jwt, ok := c.usableJWT(); ok {
+		// refreshed in the meantime
+		return jwt, nil
 	}
 	err := c.refresh()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	return c.JWT, err
 }
 
-// refresh refreshes the trust mark at the trust mark issuer's trust mark endpoint
-func (c *EntityConfigurationTrustMarkConfig) refresh() error {
+// usableJWT returns the current trust mark jwt if it still can be used; if it will expire soon it is refreshed in the
+// background
+func (c *EntityConfigurationTrustMarkConfig) usableJWT() (string, bool) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.JWT == "" {
+		return "", false
+	}
+	if c.expiration.IsZero() {
+		// does not expire
+		return c.JWT, true
+	}
+	if unixtime.Until(c.expiration) <= c.MinLifetime.Duration {
+		return "", false
+	}
+	if unixtime.Until(c.expiration) < c.RefreshGracePeriod.Duration {
+		go c.backgroundRefresh()
+	}
+	return c.JWT, true
+}
+
+func (c *EntityConfigurationTrustMarkConfig) backgroundRefresh() {
+	if !c.refreshMutex.TryLock() {
+		return
+	}
+	defer c.refreshMutex.Unlock()
+	if err := c.refresh(); err != nil {
+		internal.Log(err.Error())
+	}
+}
+
+// try checks if it can be tried to obtain a new trust mark and marks it as tried
+func (c *EntityConfigurationTrustMarkConfig) try() bool {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	if time.Since(c.lastTried.Time) < time.Minute {
+		return false
+	}
+	c.lastTried = unixtime.Now()
+	return true
+}
+
+func (c *EntityConfigurationTrustMarkConfig) setJWT(jwt string, exp *unixtime.Unixtime) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	c.JWT = jwt
+	if exp != nil {
+		c.expiration = *exp
+	} else {
+		c.expiration = unixtime.Unixtime{}
+	}
+}
+
+// refresh refreshes the trust mark at the trust mark issuer's trust mark endpoint; the caller must hold the refreshMutex
+func (c *EntityConfigurationTrustMarkConfig) refresh() error {
+	if !c.try() {
 		// Only try once a minute to obtain a new trust mark
 		return errors.New("only trying to refresh trust mark once a minute")
 	}
-	c.lastTried = unixtime.Now()
 	if c.SelfIssued {
 		tmi, err := c.ownTrustMarkIssuer.IssueTrustMark(c.TrustMarkType, c.sub)
 		if err != nil {
 			return err
 		}
-		c.JWT = tmi.TrustMarkJWT
-		exp := tmi.trustmark.ExpiresAt
-		if exp != nil {
-			c.expiration = *exp
-		} else {
-			c.expiration = unixtime.Unixtime{}
-		}
+		c.setJWT(tmi.TrustMarkJWT, tmi.trustmark.ExpiresAt)
 		return nil
 	}
 
@@ -144,11 +200,6 @@ func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 	if err != nil {
 		return err
 	}
-	c.JWT = string(tm.jwtMsg.RawJWT)
-	if tm.ExpiresAt != nil {
-		c.expiration = *tm.ExpiresAt
-	} else {
-		c.expiration = unixtime.Unixtime{}
-	}
+	c.setJWT(string(tm.jwtMsg.RawJWT), tm.ExpiresAt)
 	return nil
 }
-- 
2.43.0


From d2a6a58c3ba3af639ad5ac27d66f7bfba780b5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 25/53] fix: resolving op metadata of an entity that is no op
 must not panic

---
 federation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/federation.go b/federation.go
index bddd1d7..e944601 100644
--- a/federation.go
+++ b/federation.go
@@ -146,5 +146,8 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	if err != nil {
 		return nil, errors.Wrap(err, "no trust chain with valid metadata found")
 	}
+	if metadata == nil || metadata.OpenIDProvider == nil {
+		return nil, errors.Errorf("'%s' does not have openid provider metadata", issuer)
+	}
 	return metadata.OpenIDProvider, nil
 }
-- 
2.43.0


From 240d066802f57b7b93b5e33040d9c7d25a2ded9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 26/53] fix: keep the query parameters of the authorization
 endpoint

---
 authcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authcode.go b/authcode.go
index 85eb3db..a2ced29 100644
--- a/authcode.go
+++ b/authcode.go
@@ -151,7 +151,7 @@ func (f FederationLeaf) GetAuthorizationURL(
 	if err != nil {
 		return "", errors.WithStack(err)
 	}
-	q := url.Values{}
+	q := u.Query()
 	q.Set("request", string(requestObject))
 	q.Set("client_id", f.EntityID)
 	q.Set("response_type", "code")
-- 
2.43.0


From 0ddbeef74cc9206633c5694cb3b70f62ff102f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 27/53] fix: respect the configured keys of trust anchors when
 resolving op metadata and filtering entities

---
 discovery.go         | 17 +++++++++++------
 federation.go        | 21 ++++++++++++++-------
 metadata_resolver.go | 24 ++++++++++++++++++++----
 3 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/discovery.go b/discovery.go
index 7d3bcdb..0e79c37 100644
--- a/discovery.go
+++ b/discovery.go
@@ -569,12 +569,17 @@ type EntityCollectionFilterVerifiedChains struct {
 
 // Filter implements the EntityCollectionFilter interface
 func (f EntityCollectionFilterVerifiedChains) Filter(e *CollectedEntity) bool {
-	confirmedValid, _ := DefaultMetadataResolver.ResolvePossible(
-		apimodel.ResolveRequest{
-			Subject:     e.EntityID,
-			TrustAnchor: f.TrustAnchors.EntityIDs(),
-		},
-	)
+	req := apimodel.ResolveRequest{
+		Subject:     e.EntityID,
+		TrustAnchor: f.TrustAnchors.EntityIDs(),
+	}
+	var confirmedValid bool
+	switch resolver := DefaultMetadataResolver.(type) {
+	case LocalMetadataResolver:
+		confirmedValid, _ = resolver.resolveToTrustAnchorsPossible(req, f.TrustAnchors)
+	default:
+		confirmedValid, _ = DefaultMetadataResolver.ResolvePossible(req)
+	}
 	return confirmedValid
 }
 
diff --git a/federation.go b/federation.go
index e944601..c213299 100644
--- a/federation.go
+++ b/federation.go
@@ -136,13 +136,20 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	if set {
 		return &opm, nil
 	}
-	metadata, err := DefaultMetadataResolver.Resolve(
-		apimodel.ResolveRequest{
-			Subject:     issuer,
-			TrustAnchor: f.TrustAnchors.EntityIDs(),
-			EntityTypes: []string{"openid_provider"},
-		},
-	)
+	req := apimodel.ResolveRequest{
+		Subject:     issuer,
+		TrustAnchor: f.TrustAnchors.EntityIDs(),
+		EntityTypes: []string{"openid_provider"},
+	}
+	var metadata *Metadata
+	switch resolver := DefaultMetadataResolver.(type) {
+	case LocalMetadataResolver:
+		var res ResolveResponsePayload
+		res, _, err = resolver.resolveToTrustAnchors(req, f.TrustAnchors)
+		metadata = res.Metadata
+	default:
+		metadata, err = DefaultMetadataResolver.Resolve(req)
+	}
 	if err != nil {
 		return nil, errors.Wrap(err, "no trust chain with valid metadata found")
 	}
diff --git a/metadata_resolver.go b/metadata_resolver.go
index 4960266..3a54990 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -39,13 +39,23 @@ func (r LocalMetadataResolver) Resolve(req apimodel.ResolveRequest) (*Metadata,
 	return res.Metadata, nil
 }
 
-func (LocalMetadataResolver) resolveResponsePayloadWithoutTrustMarks(
+func (r LocalMetadataResolver) resolveResponsePayloadWithoutTrustMarks(
 	req apimodel.ResolveRequest,
 ) (
 	res ResolveResponsePayload, chain TrustChain, err error,
+) {
+	return r.resolveToTrustAnchors(req, NewTrustAnchorsFromEntityIDs(req.TrustAnchor...))
+}
+
+// resolveToTrustAnchors resolves the request with the passed TrustAnchors instead of the ones from the request;
+// compared to the request the TrustAnchors can also hold the keys of the trust anchors
+func (LocalMetadataResolver) resolveToTrustAnchors(
+	req apimodel.ResolveRequest, anchors TrustAnchors,
+) (
+	res ResolveResponsePayload, chain TrustChain, err error,
 ) {
 	tr := TrustResolver{
-		TrustAnchors:   NewTrustAnchorsFromEntityIDs(req.TrustAnchor...),
+		TrustAnchors:   anchors,
 		StartingEntity: req.Subject,
 		Types:          req.EntityTypes,
 	}
@@ -83,9 +93,15 @@ func (r LocalMetadataResolver) ResolveResponsePayload(req apimodel.ResolveReques
 }
 
 // ResolvePossible implements the MetadataResolver interface
-func (LocalMetadataResolver) ResolvePossible(req apimodel.ResolveRequest) (bool, bool) {
+func (r LocalMetadataResolver) ResolvePossible(req apimodel.ResolveRequest) (bool, bool) {
+	return r.resolveToTrustAnchorsPossible(req, NewTrustAnchorsFromEntityIDs(req.TrustAnchor...))
+}
+
+func (LocalMetadataResolver) resolveToTrustAnchorsPossible(
+	req apimodel.ResolveRequest, anchors TrustAnchors,
+) (bool, bool) {
 	tr := TrustResolver{
-		TrustAnchors:   NewTrustAnchorsFromEntityIDs(req.TrustAnchor...),
+		TrustAnchors:   anchors,
 		StartingEntity: req.Subject,
 		Types:          req.EntityTypes,
 	}
-- 
2.43.0


From 3029dfd57f9a9d880939f17a54269fcfef64a8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 28/53] fix: verifying the type of a jwt must not consider the
 header of another signature

---
 internal/jwx/jws.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/jwx/jws.go b/internal/jwx/jws.go
index 580bb27..7c6b0c1 100644
--- a/internal/jwx/jws.go
+++ b/internal/jwx/jws.go
@@ -58,9 +58,10 @@ func (p *ParsedJWT) VerifyWithSet(keys myjwk.JWKS) ([]byte, error) {
 	return jws.Verify(p.RawJWT, jws.WithKeySet(keys.Set, jws.WithInferAlgorithmFromKey(true)))
 }
 
-// VerifyType verifies that the header typ has a certain value
+// VerifyType verifies that the header typ has a certain value; since the typ is only meaningful for the signature that
+// protects it, there must be exactly one signature
 func (p *ParsedJWT) VerifyType(typ string) bool {
-	if p.Signatures() == nil {
+	if len(p.Signatures()) != 1 {
 		return false
 	}
 	head := p.Signatures()[0].ProtectedHeaders()
-- 
2.43.0


From 3533b112d3e66b569e7ba34db2df7faed4fbae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 29/53] fix: http error responses without an error object are
 errors

---
 internal/http/http.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/internal/http/http.go b/internal/http/http.go
index 8d3c404..12bc40e 100644
--- a/internal/http/http.go
+++ b/internal/http/http.go
@@ -2,6 +2,7 @@ package http
 
 import (
 	"fmt"
+	"net/http"
 	"net/url"
 	"time"
 
@@ -42,14 +43,27 @@ func Do() *resty.Client {
 	return client
 }
 
+// errorResponse returns the HttpError for a response or nil if the response is not an error response; an error response
+// does not necessarily have a body that describes the error
+func errorResponse(resp *resty.Response) *HttpError {
+	errRes, ok := resp.Error().(*HttpError)
+	if !ok || errRes == nil || errRes.Error == "" {
+		if !resp.IsError() {
+			return nil
+		}
+		errRes = &HttpError{Error: http.StatusText(resp.StatusCode())}
+	}
+	errRes.Status = resp.StatusCode()
+	return errRes
+}
+
 // Get performs a http GET request and parses the response into the given interface{}
 func Get(url string, params url.Values, res interface{}) (*resty.Response, *HttpError, error) {
 	resp, err := client.R().SetQueryParamsFromValues(params).SetError(&HttpError{}).SetResult(res).Get(url)
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
-	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != "" {
-		errRes.Status = resp.RawResponse.StatusCode
+	if errRes := errorResponse(resp); errRes != nil {
 		return nil, errRes, nil
 	}
 	return resp, nil, nil
@@ -61,8 +75,7 @@ func Post(url string, req interface{}, res interface{}) (*resty.Response, *HttpE
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
-	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != "" {
-		errRes.Status = resp.RawResponse.StatusCode
+	if errRes := errorResponse(resp); errRes != nil {
 		return nil, errRes, nil
 	}
 	return resp, nil, nil
-- 
2.43.0


From ec7e90d3497d1af0233c2e406d0f4296729b5d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 30/53] fix: entity types unknown to the module are subject to
 the allowed entity types constraint

---
 metadata.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metadata.go b/metadata.go
index 03b50f2..00a5dd3 100644
--- a/metadata.go
+++ b/metadata.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"slices"
 	"strings"
 	"unsafe"
 
@@ -40,7 +41,13 @@ func (m Metadata) GuessEntityTypes() (entityTypes []string) {
 			entityTypes = append(entityTypes, jsonTag)
 		}
 	}
-	return
+	// entity types unknown to this library
+	unknownTypes := make([]string, 0, len(m.Extra))
+	for entityType := range m.Extra {
+		unknownTypes = append(unknownTypes, entityType)
+	}
+	slices.Sort(unknownTypes)
+	return append(entityTypes, unknownTypes...)
 }
 
 // GuessDisplayName implements the DisplayNameGuesser interface
-- 
2.43.0


From 2840ffc2132775120c043c81e3041e2031d9c1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 31/53] fix: updating a cached value while it is looked up was
 a data race

---
 cache/cache.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 7249339..c236526 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -3,6 +3,7 @@ package cache
 import (
 	"encoding/base64"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/TwiN/gocache/v2"
@@ -22,6 +23,9 @@ type Cache interface {
 // internal cache
 type cacheWrapper struct {
 	c *gocache.Cache
+	// mu guards values: gocache reads the value of an entry after it released
+	// its lock, while an existing entry is updated in place
+	mu *sync.RWMutex
 }
 
 func newCacheWrapper(defaultExpiration time.Duration) cacheWrapper {
@@ -30,13 +34,16 @@ func newCacheWrapper(defaultExpiration time.Duration) cacheWrapper {
 		log.Fatal(err) // skipcq: RVV-A0003
 	}
 	return cacheWrapper{
-		c,
+		c:  c,
+		mu: &sync.RWMutex{},
 	}
 }
 
 // Get implements the Cache interface
 func (c cacheWrapper) Get(key string, target any) (bool, error) {
+	c.mu.RLock()
 	entryV, ok := c.c.Get(key)
+	c.mu.RUnlock()
 	if !ok {
 		return false, nil
 	}
@@ -54,6 +61,8 @@ func (c cacheWrapper) Set(key string, value any, expiration time.Duration) error
 	if err != nil {
 		return err
 	}
+	c.mu.Lock()
+	defer c.mu.Unlock()
 	c.c.SetWithTTL(key, data, expiration)
 	return nil
 }
-- 
2.43.0


From 321f139716543e92e9853f6cb04421049c5f69b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 32/53] fix: a trust mark issuer without keys must not cause a
 panic

---
 trustmark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index 4c9af44..7b0a255 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -275,7 +275,7 @@ func getTrustMarkIssuerJWKS(
 		err = errors.Wrap(err, "error while parsing trust mark issuer entity statement")
 		return
 	}
-	if tmi == nil || tmi.JWKS.Len() == 0 {
+	if tmi == nil || tmi.JWKS.Set == nil || tmi.JWKS.Len() == 0 {
 		err = errors.New("no jwks found for trust mark issuer")
 		return
 	}
-- 
2.43.0


From 05f79630f4d8515868b261ca3116be1fafe7a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 33/53] fix: verifying trust marks of entities that certify
 each other did not terminate with the smart resolver

---
 metadata_resolver.go | 34 ++++++++++++++++++++++++++++++++--
 trustmark.go         |  3 ++-
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/metadata_resolver.go b/metadata_resolver.go
index 3a54990..4471614 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -25,6 +25,14 @@ type MetadataResolver interface {
 // library to resolve Metadata
 var DefaultMetadataResolver MetadataResolver = LocalMetadataResolver{}
 
+// metadataResolverWithoutTrustMarks is implemented by a MetadataResolver that can resolve without verifying the trust
+// marks of the subject
+type metadataResolverWithoutTrustMarks interface {
+	resolveResponsePayloadWithoutTrustMarks(request apimodel.ResolveRequest) (
+		ResolveResponsePayload, TrustChain, error,
+	)
+}
+
 // LocalMetadataResolver is a MetadataResolver that resolves trust chains and
 // evaluates metadata policies to obtain the final Metadata; it does not use
 // a resolve endpoint
@@ -231,7 +239,29 @@ func (r SmartRemoteMetadataResolver) Resolve(req apimodel.ResolveRequest) (*Meta
 }
 
 // ResolveResponsePayload implements the MetadataResolver interface
-func (SmartRemoteMetadataResolver) ResolveResponsePayload(req apimodel.ResolveRequest) (
+func (r SmartRemoteMetadataResolver) ResolveResponsePayload(req apimodel.ResolveRequest) (
+	ResolveResponsePayload, error,
+) {
+	return r.resolveResponsePayload(req, LocalMetadataResolver{}.ResolveResponsePayload)
+}
+
+func (r SmartRemoteMetadataResolver) resolveResponsePayloadWithoutTrustMarks(
+	req apimodel.ResolveRequest,
+) (
+	res ResolveResponsePayload, chain TrustChain, err error,
+) {
+	res, err = r.resolveResponsePayload(
+		req, func(req apimodel.ResolveRequest) (res ResolveResponsePayload, err error) {
+			res, chain, err = LocalMetadataResolver{}.resolveResponsePayloadWithoutTrustMarks(req)
+			return
+		},
+	)
+	return
+}
+
+func (SmartRemoteMetadataResolver) resolveResponsePayload(
+	req apimodel.ResolveRequest, resolveLocally func(apimodel.ResolveRequest) (ResolveResponsePayload, error),
+) (
 	ResolveResponsePayload, error,
 ) {
 	for _, tr := range req.TrustAnchor {
@@ -257,7 +287,7 @@ func (SmartRemoteMetadataResolver) ResolveResponsePayload(req apimodel.ResolveRe
 		}
 		return res, nil
 	}
-	return LocalMetadataResolver{}.ResolveResponsePayload(req)
+	return resolveLocally(req)
 }
 
 // ResolvePossible implements the MetadataResolver interface
diff --git a/trustmark.go b/trustmark.go
index 7b0a255..650516f 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -256,7 +256,8 @@ func getTrustMarkIssuerJWKS(
 	}
 	var res ResolveResponsePayload
 	switch resolver := DefaultMetadataResolver.(type) {
-	case LocalMetadataResolver:
+	case metadataResolverWithoutTrustMarks:
+		// verifying the trust marks of the issuer could again require this trust mark issuer
 		res, _, err = resolver.resolveResponsePayloadWithoutTrustMarks(resolveRequest)
 	default:
 		res, err = DefaultMetadataResolver.ResolveResponsePayload(resolveRequest)
-- 
2.43.0


From 9dd834e1cb4ac2d0f1a09c9abd6b5785f211f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:23 +0000
Subject: [PATCH 34/53] fix: an obtained trust mark without the minimal
 lifetime must not be used

---
 trustmark_refresher.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index 8e15011..a25cd0f 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -146,7 +146,11 @@ func (c *EntityConfigurationTrustMarkConfig) try() bool {
 	return true
 }
 
-func (c *EntityConfigurationTrustMarkConfig) setJWT(jwt string, exp *unixtime.Unixtime) {
+// setJWT sets a newly obtained trust mark jwt; a trust mark that does not have the minimal lifetime is not used
+func (c *EntityConfigurationTrustMarkConfig) setJWT(jwt string, exp *unixtime.Unixtime) error {
+	if exp != nil && unixtime.Until(*exp) <= c.MinLifetime.Duration {
+		return errors.New("obtained trust mark does not have the minimal lifetime left")
+	}
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 	c.JWT = jwt
@@ -155,6 +159,7 @@ func (c *EntityConfigurationTrustMarkConfig) setJWT(jwt string, exp *unixtime.Un
 	} else {
 		c.expiration = unixtime.Unixtime{}
 	}
+	return nil
 }
 
 // refresh refreshes the trust mark at the trust mark issuer's trust mark endpoint; the caller must hold the refreshMutex
@@ -168,8 +173,7 @@ func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 		if err != nil {
 			return err
 		}
-		c.setJWT(tmi.TrustMarkJWT, tmi.trustmark.ExpiresAt)
-		return nil
+		return c.setJWT(tmi.TrustMarkJWT, tmi.trustmark.ExpiresAt)
 	}
 
 	var endpoint string
@@ -200,6 +204,5 @@ func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 	if err != nil {
 		return err
 	}
-	c.setJWT(string(tm.jwtMsg.RawJWT), tm.ExpiresAt)
-	return nil
+	return c.setJWT(string(tm.jwtMsg.RawJWT), tm.ExpiresAt)
 }
-- 
2.43.0


From 850de3310fc8ade23a50dca29b69598cc0bad36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 35/53] fix: concurrent collections with the same collector
 must not share their state

---
 discovery.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discovery.go b/discovery.go
index 0e79c37..7998fb8 100644
--- a/discovery.go
+++ b/discovery.go
@@ -229,8 +229,9 @@ type FilterableVerifiedChainsEntityCollector struct {
 }
 
 // CollectEntities implements the EntityCollector interface
-func (d *SimpleEntityCollector) CollectEntities(req apimodel.EntityCollectionRequest) (entities []*CollectedEntity) {
-	d.visitedEntities = strset.New()
+func (*SimpleEntityCollector) CollectEntities(req apimodel.EntityCollectionRequest) (entities []*CollectedEntity) {
+	// each collection has its own state, since the collector might be used for multiple collections concurrently
+	d := &SimpleEntityCollector{visitedEntities: strset.New()}
 	return d.collect(req, NewTrustAnchorsFromEntityIDs(req.TrustAnchor)...)
 }
 
-- 
2.43.0


From 2fab26aa14313d98916868258b9cd8a6dd1d1075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 36/53] fix: durations given in seconds keep their fractional
 part

---
 unixtime/unixtime.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unixtime/unixtime.go b/unixtime/unixtime.go
index 8011d4a..e19650d 100644
--- a/unixtime/unixtime.go
+++ b/unixtime/unixtime.go
@@ -66,7 +66,7 @@ func (d *DurationInSeconds) UnmarshalJSON(src []byte) error {
 	if err := json.Unmarshal(src, &f); err != nil {
 		return err
 	}
-	*d = DurationInSeconds{time.Duration(f) * time.Second}
+	*d = NewDurationInSeconds(f)
 	return nil
 }
 
@@ -76,7 +76,7 @@ func (d *DurationInSeconds) UnmarshalYAML(value *yaml.Node) error {
 	if err := value.Decode(&f); err != nil {
 		return err
 	}
-	*d = DurationInSeconds{time.Duration(f) * time.Second}
+	*d = NewDurationInSeconds(f)
 	return nil
 }
 
-- 
2.43.0


From 7a9f25bc3b29cf98ad085ed811406e1194cb4685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:47 +0000
Subject: [PATCH 37/53] fix: a statement without expiration must not zero the
 expiration of a trust chain

---
 trustchain.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trustchain.go b/trustchain.go
index 28d74eb..a3f11c7 100644
--- a/trustchain.go
+++ b/trustchain.go
@@ -48,7 +48,12 @@ func (c TrustChain) ExpiresAt() unixtime.Unixtime {
 	}
 	exp := c[0].ExpiresAt
 	for i := 1; i < len(c); i++ {
-		if e := c[i].ExpiresAt; e.Before(exp.Time) {
+		e := c[i].ExpiresAt
+		if e.IsZero() {
+			// a statement without an expiration does not limit the chain
+			continue
+		}
+		if exp.IsZero() || e.Before(exp.Time) {
 			exp = e
 		}
 	}
-- 
2.43.0


From 5b17343376b908bac78ddecc4a9171f9d3bc3504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:39 +0000
Subject: [PATCH 38/53] fix: list operators of a metadata policy must yield an
 empty array instead of null

---
 internal/utils/slices.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index e2ef5a8..2aa3ba0 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -60,12 +60,15 @@ func ReflectSliceContains(v, slice any) bool {
 func ReflectUnion(a, b any) any {
 	as := Slicify(a)
 	bs := Slicify(b)
-	if bs == nil || reflect.ValueOf(bs).Len() == 0 {
+	if bs == nil {
 		return as
 	}
 	if as == nil {
 		return bs
 	}
+	if reflect.ValueOf(bs).Len() == 0 && reflect.ValueOf(as).Len() > 0 {
+		return as
+	}
 	bs = ReflectSliceCast(bs, as)
 	if reflect.ValueOf(as).Len() == 0 {
 		return bs
@@ -106,7 +109,7 @@ func ReflectIntersect(a, b any) any {
 		return as
 	}
 	aV := reflect.ValueOf(as)
-	out := reflect.New(reflect.TypeOf(as)).Elem()
+	out := reflect.MakeSlice(reflect.TypeOf(as), 0, aV.Len())
 	for i := 0; i < aV.Len(); i++ {
 		v := aV.Index(i)
 		if ReflectSliceContains(v.Interface(), bs) {
-- 
2.43.0


From 60486bec796b31289ec8758b7dc3e3dce9757172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 39/53] fix: re-serialised metadata must keep explicit false,
 0, and empty arrays and not add empty strings

---
 internal/generators/metadata.go | 10 ++--
 metadata.go                     | 81 ++++++++++++++++++++++++++++++++-
 metadata_generated.go           |  8 ++--
 3 files changed, 89 insertions(+), 10 deletions(-)

diff --git a/internal/generators/metadata.go b/internal/generators/metadata.go
index 12ba173..c5ab9f2 100644
--- a/internal/generators/metadata.go
+++ b/internal/generators/metadata.go
@@ -199,7 +199,7 @@ func fieldTypeAsPtrString(expr ast.Expr) string {
 func generateMarshalUnmarshalFunctions(name, withPtrsName string) string {
 	var sb strings.Builder
 
-	marshal := func(sb *strings.Builder, name string) {
+	marshal := func(sb *strings.Builder, name, marshalExtra string) {
 		_, _ = fmt.Fprintf(
 			sb,
 			`
@@ -210,9 +210,9 @@ func (m %s) MarshalJSON() ([]byte, error) {
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-	return extraMarshalHelper(explicitFields, m.Extra)
+	return %s
 }
-`, name, name,
+`, name, name, marshalExtra,
 		)
 	}
 
@@ -256,8 +256,8 @@ func (m *%s)fromPointers(withPtrs %s) {
 		)
 	}
 
-	marshal(&sb, name)
-	marshal(&sb, withPtrsName)
+	marshal(&sb, name, "metadataMarshalHelper(explicitFields, m, m.wasSet, m.Extra)")
+	marshal(&sb, withPtrsName, "extraMarshalHelper(explicitFields, m.Extra)")
 
 	unmarshalHelper(&sb, name, withPtrsName)
 
diff --git a/metadata.go b/metadata.go
index 00a5dd3..4ba6f1d 100644
--- a/metadata.go
+++ b/metadata.go
@@ -3,12 +3,14 @@ package oidfed
 import (
 	"encoding/json"
 	"fmt"
+	"maps"
 	"reflect"
 	"slices"
 	"strings"
 	"unsafe"
 
 	"github.com/pkg/errors"
+	"github.com/vmihailenco/msgpack/v5"
 )
 
 // Metadata is a type for holding the different metadata types
@@ -213,6 +215,76 @@ func (m *Metadata) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface.
+// The metadata is encoded as json, so that it is preserved which claims are set.
+func (m Metadata) MarshalMsgpack() ([]byte, error) {
+	data, err := json.Marshal(m)
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	return msgpack.Marshal(data)
+}
+
+// UnmarshalMsgpack implements the msgpack.Unmarshaler interface.
+func (m *Metadata) UnmarshalMsgpack(data []byte) error {
+	var jsonData []byte
+	if err := msgpack.Unmarshal(data, &jsonData); err != nil {
+		return errors.WithStack(err)
+	}
+	return json.Unmarshal(jsonData, m)
+}
+
+// metadataMarshalHelper combines the json of the explicit metadata fields with
+// the extra claims. If the metadata was parsed, i.e. if it is known which
+// claims were set, a claim that was not set does not become an empty string and
+// claims that were explicitly set to false, 0, or an empty array are kept.
+func metadataMarshalHelper(
+	explicitFields []byte, metadata any, wasSet map[string]bool, extra map[string]any,
+) ([]byte, error) {
+	if wasSet == nil {
+		return extraMarshalHelper(explicitFields, extra)
+	}
+	var claims map[string]json.RawMessage
+	if err := json.Unmarshal(explicitFields, &claims); err != nil {
+		return nil, errors.WithStack(err)
+	}
+	v := reflect.ValueOf(metadata)
+	t := v.Type()
+	for i := 0; i < t.NumField(); i++ {
+		tag, ok := t.Field(i).Tag.Lookup("json")
+		if !ok || tag == "-" {
+			continue
+		}
+		claim := strings.TrimSuffix(tag, ",omitempty")
+		f := v.Field(i)
+		if !wasSet[t.Field(i).Name] {
+			if f.Kind() == reflect.String && f.IsZero() {
+				delete(claims, claim)
+			}
+			continue
+		}
+		switch f.Kind() {
+		case reflect.Bool, reflect.Int:
+		case reflect.Slice:
+			if f.IsNil() {
+				continue
+			}
+		default:
+			continue
+		}
+		value, err := json.Marshal(f.Interface())
+		if err != nil {
+			return nil, errors.WithStack(err)
+		}
+		claims[claim] = value
+	}
+	explicitFields, err := json.Marshal(claims)
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	return extraMarshalHelper(explicitFields, extra)
+}
+
 type policyApplicable interface {
 	ApplyPolicy(policy MetadataPolicy) (any, error)
 }
@@ -292,7 +364,9 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 	t := v.Elem().Type()
 
 	wasSetField := v.Elem().FieldByName("wasSet")
-	wasSet := *(*map[string]bool)(unsafe.Pointer(wasSetField.UnsafeAddr())) // skipcq:  GSC-G103
+	wasSetPtr := (*map[string]bool)(unsafe.Pointer(wasSetField.UnsafeAddr())) // skipcq:  GSC-G103
+	wasSet := *wasSetPtr
+	isSet := maps.Clone(wasSet)
 	knownClaims := make(map[string]bool)
 	for i := 0; i < t.NumField(); i++ {
 		j, ok := t.Field(i).Tag.Lookup("json")
@@ -323,6 +397,10 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 			return nil, err
 		}
 		rV := reflect.ValueOf(value)
+		if isSet != nil {
+			isSet[t.Field(i).Name] = rV.IsValid() && (wasSet[t.Field(i).Name] || !rV.IsZero() ||
+				p[PolicyOperatorValue] != nil || p[PolicyOperatorDefault] != nil)
+		}
 		if t.Field(i).Name == "Scope" && rV.IsValid() && rV.Kind() == reflect.Slice {
 			strSlice, ok := value.([]string)
 			if ok {
@@ -337,6 +415,7 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 			return nil, errors.Wrapf(err, "policy result for '%s.%s' has the wrong type", ownTag, j)
 		}
 	}
+	*wasSetPtr = isSet
 
 	extraField := v.Elem().FieldByName("Extra")
 	if !extraField.IsValid() || !extraField.CanSet() {
diff --git a/metadata_generated.go b/metadata_generated.go
index 7103400..3df0f61 100644
--- a/metadata_generated.go
+++ b/metadata_generated.go
@@ -59,7 +59,7 @@ func (m FederationEntityMetadata) MarshalJSON() ([]byte, error) {
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-	return extraMarshalHelper(explicitFields, m.Extra)
+	return metadataMarshalHelper(explicitFields, m, m.wasSet, m.Extra)
 }
 
 // MarshalJSON implements the json.Marshaler interface
@@ -308,7 +308,7 @@ func (m OpenIDRelyingPartyMetadata) MarshalJSON() ([]byte, error) {
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-	return extraMarshalHelper(explicitFields, m.Extra)
+	return metadataMarshalHelper(explicitFields, m, m.wasSet, m.Extra)
 }
 
 // MarshalJSON implements the json.Marshaler interface
@@ -581,7 +581,7 @@ func (m OpenIDProviderMetadata) MarshalJSON() ([]byte, error) {
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-	return extraMarshalHelper(explicitFields, m.Extra)
+	return metadataMarshalHelper(explicitFields, m, m.wasSet, m.Extra)
 }
 
 // MarshalJSON implements the json.Marshaler interface
@@ -740,7 +740,7 @@ func (m OAuthProtectedResourceMetadata) MarshalJSON() ([]byte, error) {
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-	return extraMarshalHelper(explicitFields, m.Extra)
+	return metadataMarshalHelper(explicitFields, m, m.wasSet, m.Extra)
 }
 
 // MarshalJSON implements the json.Marshaler interface
-- 
2.43.0


From 04ec2a8e674d6ced87484af3ddb7406b17c25d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 40/53] fix: name query was not sent to remote entity
 collection endpoints

---
 apimodel/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apimodel/collection.go b/apimodel/collection.go
index 40614c6..73b6d93 100644
--- a/apimodel/collection.go
+++ b/apimodel/collection.go
@@ -7,6 +7,6 @@ type EntityCollectionRequest struct {
 	TrustMarkTypes []string `json:"trust_mark_type" form:"trust_mark_type" query:"trust_mark_type" url:"trust_mark_type"`
 	TrustAnchor    string   `json:"trust_anchor" form:"trust_anchor" query:"trust_anchor" url:"trust_anchor"`
 	EntityTypes    []string `json:"entity_type" form:"entity_type" query:"entity_type" url:"entity_type"`
-	NameQuery      string   `json:"name_query" form:"name_query" query:"name_query"`
+	NameQuery      string   `json:"name_query" form:"name_query" query:"name_query" url:"name_query"`
 	Claims         []string `json:"claims" form:"claims" query:"claims" url:"claims"`
 }
-- 
2.43.0


From e702e9729624ee9d9c936aa993da0df366e0cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:32 +0000
Subject: [PATCH 41/53] fix: request objects from the same parameters repeated
 the jti, because the caller's map was changed

---
 authcode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/authcode.go b/authcode.go
index a2ced29..5e716d1 100644
--- a/authcode.go
+++ b/authcode.go
@@ -4,6 +4,7 @@ import (
 	"crypto"
 	"encoding/json"
 	"io"
+	"maps"
 	"net/http"
 	"net/url"
 	"time"
@@ -74,6 +75,7 @@ func (rop RequestObjectProducer) RequestObject(requestValues map[string]any) ([]
 	if _, audFound := requestValues["aud"]; !audFound {
 		return nil, errors.New("request must contain 'aud' claim with OPs issuer identifier url")
 	}
+	requestValues = maps.Clone(requestValues)
 	requestValues["iss"] = rop.EntityID
 	requestValues["client_id"] = rop.EntityID
 	delete(requestValues, "sub")
-- 
2.43.0


From 4065500844bca0b8c196eb22f9b71988606f9daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:37 +0000
Subject: [PATCH 42/53] fix: code exchange changed the caller's parameters

---
 authcode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/authcode.go b/authcode.go
index 5e716d1..f10a51c 100644
--- a/authcode.go
+++ b/authcode.go
@@ -172,9 +172,9 @@ func (f FederationLeaf) CodeExchange(
 	if err != nil {
 		return nil, nil, err
 	}
-	params := additionalParameter
-	if params == nil {
-		params = url.Values{}
+	params := url.Values{}
+	for k, v := range additionalParameter {
+		params[k] = v
 	}
 	params.Set("grant_type", "authorization_code")
 	params.Set("code", code)
-- 
2.43.0


From 0fb02a16c4745e5e3a7a53270c692021094d5538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 43/53] fix: authorization url without provider endpoint or
 audience

---
 authcode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/authcode.go b/authcode.go
index f10a51c..f1cdbbb 100644
--- a/authcode.go
+++ b/authcode.go
@@ -131,6 +131,9 @@ func (f FederationLeaf) GetAuthorizationURL(
 	if err != nil {
 		return "", err
 	}
+	if opMetadata.Issuer == "" || opMetadata.AuthorizationEndpoint == "" {
+		return "", errors.Errorf("the metadata of '%s' does not have an issuer and an authorization endpoint", issuer)
+	}
 	requestParams := map[string]any{}
 	for k, v := range additionalParams {
 		if len(v) == 1 {
-- 
2.43.0


From 3f300f82998ab3239c3e48bae3bf158a28bc02da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:16 +0000
Subject: [PATCH 44/53] fix: re-serialised metadata dropped explicit 0 of int64
 claims and empty objects

---
 metadata.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metadata.go b/metadata.go
index 4ba6f1d..501b36c 100644
--- a/metadata.go
+++ b/metadata.go
@@ -237,7 +237,8 @@ func (m *Metadata) UnmarshalMsgpack(data []byte) error {
 // metadataMarshalHelper combines the json of the explicit metadata fields with
 // the extra claims. If the metadata was parsed, i.e. if it is known which
 // claims were set, a claim that was not set does not become an empty string and
-// claims that were explicitly set to false, 0, or an empty array are kept.
+// claims that were explicitly set to false, 0, or an empty array or object are
+// kept.
 func metadataMarshalHelper(
 	explicitFields []byte, metadata any, wasSet map[string]bool, extra map[string]any,
 ) ([]byte, error) {
@@ -264,8 +265,8 @@ func metadataMarshalHelper(
 			continue
 		}
 		switch f.Kind() {
-		case reflect.Bool, reflect.Int:
-		case reflect.Slice:
+		case reflect.Bool, reflect.Int, reflect.Int64:
+		case reflect.Slice, reflect.Map:
 			if f.IsNil() {
 				continue
 			}
-- 
2.43.0


From a76b708552ce059f1c08e78fc25290c2f2498b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 45/53] fix: trust mark specs could not be marshalled to yaml

---
 entitystatement.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/entitystatement.go b/entitystatement.go
index 480d338..3db7245 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -119,12 +119,12 @@ func extraMarshalHelper(explicitFields []byte, extra map[string]interface{}) ([]
 }
 
 func yamlExtraMarshalHelper(explicitFields []byte, extra map[string]interface{}) (any, error) {
-	var m map[string]*yaml.Node
+	var m map[string]yaml.Node
 	if err := yaml.Unmarshal(explicitFields, &m); err != nil {
 		return nil, err
 	}
 	for k, v := range extra {
-		node := &yaml.Node{}
+		var node yaml.Node
 		if err := node.Encode(v); err != nil {
 			return nil, errors.WithStack(err)
 		}
-- 
2.43.0


From a85608c2e52cb73f2d50edfc44f295cb1d3e8bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:25 +0000
Subject: [PATCH 46/53] fix: unknown claims that differ only in case overwrote
 known claims

---
 entitystatement.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/entitystatement.go b/entitystatement.go
index 3db7245..7d9a64c 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -145,17 +145,31 @@ func (e EntityStatementPayload) MarshalJSON() ([]byte, error) {
 }
 
 func unmarshalWithExtra(data []byte, target interface{}) (map[string]interface{}, error) {
-	if err := json.Unmarshal(data, target); err != nil {
+	var claims map[string]json.RawMessage
+	if err := json.Unmarshal(data, &claims); err != nil {
 		return nil, errors.WithStack(err)
 	}
 	extra := make(map[string]interface{})
 	if err := json.Unmarshal(data, &extra); err != nil {
 		return nil, errors.WithStack(err)
 	}
+	// claim names are case-sensitive, but json.Unmarshal does not match the case;
+	// therefore it only gets the claims that have exactly the name of a field
+	known := make(map[string]json.RawMessage)
 	s := structs.New(target)
 	for _, tag := range utils.FieldTagNames(s.Fields(), "json") {
+		if v, ok := claims[tag]; ok {
+			known[tag] = v
+		}
 		delete(extra, tag)
 	}
+	knownData, err := json.Marshal(known)
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	if err = json.Unmarshal(knownData, target); err != nil {
+		return nil, errors.WithStack(err)
+	}
 	if len(extra) == 0 {
 		extra = nil
 	}
-- 
2.43.0


From 650b764e33e49148eda01b38a36796deb9feeda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:48 +0000
Subject: [PATCH 47/53] fix: empty lists in constraints were dropped, lifting
 the constraint

---
 entitystatement.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/entitystatement.go b/entitystatement.go
index 7d9a64c..034de34 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -232,6 +232,41 @@ type NamingConstraints struct {
 	Excluded  []string `json:"excluded,omitempty"`
 }
 
+// MarshalJSON implements the json.Marshaler interface.
+// An empty list of allowed entity types is not the same as no such list.
+func (c ConstraintSpecification) MarshalJSON() ([]byte, error) {
+	explicit := struct {
+		MaxPathLength      *int               `json:"max_path_length,omitempty"`
+		NamingConstraints  *NamingConstraints `json:"naming_constraints,omitempty"`
+		AllowedEntityTypes *[]string          `json:"allowed_entity_types,omitempty"`
+	}{
+		MaxPathLength:     c.MaxPathLength,
+		NamingConstraints: c.NamingConstraints,
+	}
+	if c.AllowedEntityTypes != nil {
+		explicit.AllowedEntityTypes = &c.AllowedEntityTypes
+	}
+	data, err := json.Marshal(explicit)
+	return data, errors.WithStack(err)
+}
+
+// MarshalJSON implements the json.Marshaler interface.
+// An empty list of permitted names is not the same as no such list.
+func (c NamingConstraints) MarshalJSON() ([]byte, error) {
+	var explicit struct {
+		Permitted *[]string `json:"permitted,omitempty"`
+		Excluded  *[]string `json:"excluded,omitempty"`
+	}
+	if c.Permitted != nil {
+		explicit.Permitted = &c.Permitted
+	}
+	if c.Excluded != nil {
+		explicit.Excluded = &c.Excluded
+	}
+	data, err := json.Marshal(explicit)
+	return data, errors.WithStack(err)
+}
+
 // AllowedTrustMarkIssuers is type for defining which TrustMark can be issued by which entities
 type AllowedTrustMarkIssuers map[string][]string
 
-- 
2.43.0


From 1e0a20bfff96a0c7d9d7614c6b6261dc310d7f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 48/53] fix: unknown claims of entity collection responses were
 dropped

---
 discovery.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/discovery.go b/discovery.go
index 7998fb8..590b112 100644
--- a/discovery.go
+++ b/discovery.go
@@ -57,6 +57,30 @@ type UIInfo struct {
 	Extra          map[string]any `json:"-"`
 }
 
+// MarshalJSON implements the json.Marshaler interface
+func (r EntityCollectionResponse) MarshalJSON() ([]byte, error) {
+	type Alias EntityCollectionResponse
+	explicitFields, err := json.Marshal(Alias(r))
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	return extraMarshalHelper(explicitFields, r.Extra)
+}
+
+// UnmarshalJSON implements the json.Unmarshaler interface
+func (r *EntityCollectionResponse) UnmarshalJSON(data []byte) error {
+	type Alias EntityCollectionResponse
+	rr := Alias(*r)
+
+	extra, err := unmarshalWithExtra(data, &rr)
+	if err != nil {
+		return errors.WithStack(err)
+	}
+	rr.Extra = extra
+	*r = EntityCollectionResponse(rr)
+	return nil
+}
+
 // setUInfoField sets a field in UIInfo	 by matching the JSON tag.
 // Falls back to Extra if the field is not found or not assignable.
 func (e *CollectedEntity) setUIInfoField(
-- 
2.43.0


From 3c70c67428f060a5be6ff7987d614644cd52556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:43 +0000
Subject: [PATCH 49/53] fix: cached metadata of an entity type got values for
 claims it does not have

---
 internal/generators/metadata.go | 36 +++------------
 metadata.go                     | 40 ++++++++++++++--
 metadata_generated.go           | 81 +++++++--------------------------
 3 files changed, 58 insertions(+), 99 deletions(-)

diff --git a/internal/generators/metadata.go b/internal/generators/metadata.go
index c5ab9f2..7f67c28 100644
--- a/internal/generators/metadata.go
+++ b/internal/generators/metadata.go
@@ -76,7 +76,6 @@ import (
 	"github.com/go-oidfed/lib/jwks"
 	
 	"github.com/pkg/errors"
-	"github.com/vmihailenco/msgpack/v5"
 )
 
 `
@@ -296,40 +295,19 @@ func (m *%s) UnmarshalJSON(data []byte) error {
 		),
 	)
 
-	unmarshalMsgpack := func(sb *strings.Builder, name string) {
-		_, _ = fmt.Fprintf(
-			sb,
-			`
-// UnmarshalMsgpack implements the msgpack.Unmarshaler interface
-func (m *%s) UnmarshalMsgpack(data []byte) error {
-	type Alias %s
-	mm := Alias(*m)
-	err := msgpack.Unmarshal(data, &mm)
-	if err != nil {
-		return errors.WithStack(err)
-	}
-	*m = %s(mm)
-	return nil
-}
-`, name, name, name,
-		)
-	}
-
-	unmarshalMsgpack(&sb, withPtrsName)
-
 	sb.WriteString(
 		fmt.Sprintf(
 			`
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m %s) MarshalMsgpack() ([]byte, error) {
+	return marshalMsgpackAsJSON(m)
+}
+
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *%s) UnmarshalMsgpack(data []byte) error {
-	var withPtrs %s
-	if err := msgpack.Unmarshal(data, &withPtrs); err != nil {
-		return err
-	}
-	m.fromPointers(withPtrs)
-	return nil
+	return unmarshalMsgpackFromJSON(data, m)
 }
-`, name, withPtrsName,
+`, name, name,
 		),
 	)
 
diff --git a/metadata.go b/metadata.go
index 501b36c..ecde0b3 100644
--- a/metadata.go
+++ b/metadata.go
@@ -216,22 +216,32 @@ func (m *Metadata) UnmarshalJSON(data []byte) error {
 }
 
 // MarshalMsgpack implements the msgpack.Marshaler interface.
-// The metadata is encoded as json, so that it is preserved which claims are set.
 func (m Metadata) MarshalMsgpack() ([]byte, error) {
-	data, err := json.Marshal(m)
+	return marshalMsgpackAsJSON(m)
+}
+
+// UnmarshalMsgpack implements the msgpack.Unmarshaler interface.
+func (m *Metadata) UnmarshalMsgpack(data []byte) error {
+	return unmarshalMsgpackFromJSON(data, m)
+}
+
+// marshalMsgpackAsJSON marshals metadata as its json representation, since this
+// preserves which claims were set
+func marshalMsgpackAsJSON(metadata any) ([]byte, error) {
+	data, err := json.Marshal(metadata)
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
 	return msgpack.Marshal(data)
 }
 
-// UnmarshalMsgpack implements the msgpack.Unmarshaler interface.
-func (m *Metadata) UnmarshalMsgpack(data []byte) error {
+// unmarshalMsgpackFromJSON unmarshals data created by marshalMsgpackAsJSON
+func unmarshalMsgpackFromJSON(data []byte, metadata any) error {
 	var jsonData []byte
 	if err := msgpack.Unmarshal(data, &jsonData); err != nil {
 		return errors.WithStack(err)
 	}
-	return json.Unmarshal(jsonData, m)
+	return json.Unmarshal(jsonData, metadata)
 }
 
 // metadataMarshalHelper combines the json of the explicit metadata fields with
@@ -571,6 +581,16 @@ func (m *oAuthAuthorizationServerMetadataWithPtrs) UnmarshalJSON(data []byte) er
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OAuthAuthorizationServerMetadata) MarshalMsgpack() ([]byte, error) {
+	return marshalMsgpackAsJSON(m)
+}
+
+// UnmarshalMsgpack implements the msgpack.Unmarshaler interface
+func (m *OAuthAuthorizationServerMetadata) UnmarshalMsgpack(data []byte) error {
+	return unmarshalMsgpackFromJSON(data, m)
+}
+
 // ApplyPolicy applies a MetadataPolicy to the OAuthAuthorizationServerMetadata
 func (m OAuthAuthorizationServerMetadata) ApplyPolicy(policy MetadataPolicy) (any, error) {
 	return applyPolicy(&m, policy, "oauth_authorization_server")
@@ -606,6 +626,16 @@ func (m *oAuthClientMetadataWithPtrs) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OAuthClientMetadata) MarshalMsgpack() ([]byte, error) {
+	return marshalMsgpackAsJSON(m)
+}
+
+// UnmarshalMsgpack implements the msgpack.Unmarshaler interface
+func (m *OAuthClientMetadata) UnmarshalMsgpack(data []byte) error {
+	return unmarshalMsgpackFromJSON(data, m)
+}
+
 // ApplyPolicy applies a MetadataPolicy to the OAuthClientMetadata
 func (m OAuthClientMetadata) ApplyPolicy(policy MetadataPolicy) (any, error) {
 	return applyPolicy(&m, policy, "oauth_client")
diff --git a/metadata_generated.go b/metadata_generated.go
index 3df0f61..50a6720 100644
--- a/metadata_generated.go
+++ b/metadata_generated.go
@@ -8,7 +8,6 @@ import (
 	"github.com/go-oidfed/lib/jwks"
 
 	"github.com/pkg/errors"
-	"github.com/vmihailenco/msgpack/v5"
 )
 
 type FederationEntityMetadata struct {
@@ -129,26 +128,14 @@ func (m *federationEntityMetadataWithPtrs) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
-// UnmarshalMsgpack implements the msgpack.Unmarshaler interface
-func (m *federationEntityMetadataWithPtrs) UnmarshalMsgpack(data []byte) error {
-	type Alias federationEntityMetadataWithPtrs
-	mm := Alias(*m)
-	err := msgpack.Unmarshal(data, &mm)
-	if err != nil {
-		return errors.WithStack(err)
-	}
-	*m = federationEntityMetadataWithPtrs(mm)
-	return nil
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m FederationEntityMetadata) MarshalMsgpack() ([]byte, error) {
+	return marshalMsgpackAsJSON(m)
 }
 
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *FederationEntityMetadata) UnmarshalMsgpack(data []byte) error {
-	var withPtrs federationEntityMetadataWithPtrs
-	if err := msgpack.Unmarshal(data, &withPtrs); err != nil {
-		return err
-	}
-	m.fromPointers(withPtrs)
-	return nil
+	return unmarshalMsgpackFromJSON(data, m)
 }
 
 // ApplyPolicy applies a MetadataPolicy to the FederationEntityMetadata
@@ -378,26 +365,14 @@ func (m *openIDRelyingPartyMetadataWithPtrs) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
-// UnmarshalMsgpack implements the msgpack.Unmarshaler interface
-func (m *openIDRelyingPartyMetadataWithPtrs) UnmarshalMsgpack(data []byte) error {
-	type Alias openIDRelyingPartyMetadataWithPtrs
-	mm := Alias(*m)
-	err := msgpack.Unmarshal(data, &mm)
-	if err != nil {
-		return errors.WithStack(err)
-	}
-	*m = openIDRelyingPartyMetadataWithPtrs(mm)
-	return nil
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OpenIDRelyingPartyMetadata) MarshalMsgpack() ([]byte, error) {
+	return marshalMsgpackAsJSON(m)
 }
 
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *OpenIDRelyingPartyMetadata) UnmarshalMsgpack(data []byte) error {
-	var withPtrs openIDRelyingPartyMetadataWithPtrs
-	if err := msgpack.Unmarshal(data, &withPtrs); err != nil {
-		return err
-	}
-	m.fromPointers(withPtrs)
-	return nil
+	return unmarshalMsgpackFromJSON(data, m)
 }
 
 // ApplyPolicy applies a MetadataPolicy to the OpenIDRelyingPartyMetadata
@@ -651,26 +626,14 @@ func (m *openIDProviderMetadataWithPtrs) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
-// UnmarshalMsgpack implements the msgpack.Unmarshaler interface
-func (m *openIDProviderMetadataWithPtrs) UnmarshalMsgpack(data []byte) error {
-	type Alias openIDProviderMetadataWithPtrs
-	mm := Alias(*m)
-	err := msgpack.Unmarshal(data, &mm)
-	if err != nil {
-		return errors.WithStack(err)
-	}
-	*m = openIDProviderMetadataWithPtrs(mm)
-	return nil
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OpenIDProviderMetadata) MarshalMsgpack() ([]byte, error) {
+	return marshalMsgpackAsJSON(m)
 }
 
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *OpenIDProviderMetadata) UnmarshalMsgpack(data []byte) error {
-	var withPtrs openIDProviderMetadataWithPtrs
-	if err := msgpack.Unmarshal(data, &withPtrs); err != nil {
-		return err
-	}
-	m.fromPointers(withPtrs)
-	return nil
+	return unmarshalMsgpackFromJSON(data, m)
 }
 
 // ApplyPolicy applies a MetadataPolicy to the OpenIDProviderMetadata
@@ -810,26 +773,14 @@ func (m *oAuthProtectedResourceMetadataWithPtrs) UnmarshalJSON(data []byte) erro
 	return nil
 }
 
-// UnmarshalMsgpack implements the msgpack.Unmarshaler interface
-func (m *oAuthProtectedResourceMetadataWithPtrs) UnmarshalMsgpack(data []byte) error {
-	type Alias oAuthProtectedResourceMetadataWithPtrs
-	mm := Alias(*m)
-	err := msgpack.Unmarshal(data, &mm)
-	if err != nil {
-		return errors.WithStack(err)
-	}
-	*m = oAuthProtectedResourceMetadataWithPtrs(mm)
-	return nil
+// MarshalMsgpack implements the msgpack.Marshaler interface
+func (m OAuthProtectedResourceMetadata) MarshalMsgpack() ([]byte, error) {
+	return marshalMsgpackAsJSON(m)
 }
 
 // UnmarshalMsgpack implements the msgpack.Unmarshaler interface
 func (m *OAuthProtectedResourceMetadata) UnmarshalMsgpack(data []byte) error {
-	var withPtrs oAuthProtectedResourceMetadataWithPtrs
-	if err := msgpack.Unmarshal(data, &withPtrs); err != nil {
-		return err
-	}
-	m.fromPointers(withPtrs)
-	return nil
+	return unmarshalMsgpackFromJSON(data, m)
 }
 
 // ApplyPolicy applies a MetadataPolicy to the OAuthProtectedResourceMetadata
-- 
2.43.0


From 08f95860716f8f93aa9d42eb7e2705072cbba077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:15 +0000
Subject: [PATCH 50/53] fix: unknown claims of a resolve response that differ
 only in case overwrote known claims

---
 trustresolver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 1167af9..d62e7b8 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -89,7 +89,7 @@ func (r *ResolveResponse) UnmarshalJSON(data []byte) error {
 		IssuedAt  unixtime.Unixtime `json:"iat"`
 		ExpiresAt unixtime.Unixtime `json:"exp"`
 	}
-	if err := json.Unmarshal(data, &fields); err != nil {
+	if _, err := unmarshalWithExtra(data, &fields); err != nil {
 		return errors.WithStack(err)
 	}
 	payload := ResolveResponsePayload{}
@@ -100,7 +100,7 @@ func (r *ResolveResponse) UnmarshalJSON(data []byte) error {
 		delete(payload.Extra, claim)
 	}
 	audience, audIsString := payload.Extra["aud"].(string)
-	if audIsString {
+	if audIsString || payload.Extra["aud"] == nil {
 		delete(payload.Extra, "aud")
 	}
 	if len(payload.Extra) == 0 {
-- 
2.43.0


From 7074277b6e4f3c67345007c22e9e561dada77713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:45 +0000
Subject: [PATCH 51/53] fix: an unknown metadata claim with the name of a go
 field made the known claim count as present

---
 internal/generators/metadata.go |  7 +++++--
 metadata_generated.go           | 28 ++++++++++++++++++++--------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/internal/generators/metadata.go b/internal/generators/metadata.go
index 7f67c28..3908416 100644
--- a/internal/generators/metadata.go
+++ b/internal/generators/metadata.go
@@ -247,8 +247,11 @@ func (m *%s)fromPointers(withPtrs %s) {
 			origField.Set(ptrField)
 		}
 	}
-	for k,_ := range m.Extra {
-		m.wasSet[k] = true
+	for k := range m.Extra {
+		// an unknown claim might have the name of a field
+		if !valOrig.FieldByName(k).IsValid() {
+			m.wasSet[k] = true
+		}
 	}
 }
 `, name, nameWithPtrs,
diff --git a/metadata_generated.go b/metadata_generated.go
index 50a6720..2b43878 100644
--- a/metadata_generated.go
+++ b/metadata_generated.go
@@ -99,8 +99,11 @@ func (m *FederationEntityMetadata) fromPointers(withPtrs federationEntityMetadat
 			origField.Set(ptrField)
 		}
 	}
-	for k, _ := range m.Extra {
-		m.wasSet[k] = true
+	for k := range m.Extra {
+		// an unknown claim might have the name of a field
+		if !valOrig.FieldByName(k).IsValid() {
+			m.wasSet[k] = true
+		}
 	}
 }
 
@@ -336,8 +339,11 @@ func (m *OpenIDRelyingPartyMetadata) fromPointers(withPtrs openIDRelyingPartyMet
 			origField.Set(ptrField)
 		}
 	}
-	for k, _ := range m.Extra {
-		m.wasSet[k] = true
+	for k := range m.Extra {
+		// an unknown claim might have the name of a field
+		if !valOrig.FieldByName(k).IsValid() {
+			m.wasSet[k] = true
+		}
 	}
 }
 
@@ -597,8 +603,11 @@ func (m *OpenIDProviderMetadata) fromPointers(withPtrs openIDProviderMetadataWit
 			origField.Set(ptrField)
 		}
 	}
-	for k, _ := range m.Extra {
-		m.wasSet[k] = true
+	for k := range m.Extra {
+		// an unknown claim might have the name of a field
+		if !valOrig.FieldByName(k).IsValid() {
+			m.wasSet[k] = true
+		}
 	}
 }
 
@@ -744,8 +753,11 @@ func (m *OAuthProtectedResourceMetadata) fromPointers(withPtrs oAuthProtectedRes
 			origField.Set(ptrField)
 		}
 	}
-	for k, _ := range m.Extra {
-		m.wasSet[k] = true
+	for k := range m.Extra {
+		// an unknown claim might have the name of a field
+		if !valOrig.FieldByName(k).IsValid() {
+			m.wasSet[k] = true
+		}
 	}
 }
 
-- 
2.43.0


From d2ac445a7179746f7087fd1edd6b00ba94a81603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:56 +0000
Subject: [PATCH 52/53] fix: collection filters use metadata resolved for their
 own trust anchors

---
 discovery.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/discovery.go b/discovery.go
index 590b112..bdad9c7 100644
--- a/discovery.go
+++ b/discovery.go
@@ -38,13 +38,15 @@ type EntityCollectionResponse struct {
 
 // CollectedEntity is a type describing a single collected entity
 type CollectedEntity struct {
-	EntityID    string         `json:"entity_id"`
-	TrustMarks  TrustMarkInfos `json:"trust_marks,omitempty"`
-	TrustChain  JWSMessages    `json:"trust_chain,omitempty"`
-	metadata    *Metadata
-	EntityTypes []string          `json:"entity_types,omitempty"`
-	UIInfos     map[string]UIInfo `json:"ui_infos,omitempty"`
-	Extra       map[string]any    `json:"-"`
+	EntityID   string         `json:"entity_id"`
+	TrustMarks TrustMarkInfos `json:"trust_marks,omitempty"`
+	TrustChain JWSMessages    `json:"trust_chain,omitempty"`
+	metadata   *Metadata
+	// metadataTrustAnchor is the trust anchor for which metadata was resolved
+	metadataTrustAnchor string
+	EntityTypes         []string          `json:"entity_types,omitempty"`
+	UIInfos             map[string]UIInfo `json:"ui_infos,omitempty"`
+	Extra               map[string]any    `json:"-"`
 }
 
 type UIInfo struct {
@@ -446,6 +448,7 @@ func (d *SimpleEntityCollector) collect(
 										}
 										if slices.Contains(req.Claims, "metadata") {
 											collectedEntity.metadata = res.Metadata
+											collectedEntity.metadataTrustAnchor = req.TrustAnchor
 										}
 										if slices.Contains(req.Claims, "trust_chain") {
 											collectedEntity.TrustChain = res.TrustChain
@@ -638,7 +641,7 @@ func httpFetchList(listEndpoint string) ([]string, error) {
 }
 
 func getMetadataForCollectedEntity(e *CollectedEntity, trustAnchors []string) *Metadata {
-	if e.metadata != nil {
+	if e.metadata != nil && slices.Equal(trustAnchors, []string{e.metadataTrustAnchor}) {
 		return e.metadata
 	}
 	metadata, _ := DefaultMetadataResolver.Resolve(
-- 
2.43.0


From dcdea63df64b747bd365d142244a2ca0eb5a9f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:35 +0000
Subject: [PATCH 53/53] fix: FindEntityMetadata returned nothing for entity
 types known to the library

---
 metadata.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/metadata.go b/metadata.go
index ecde0b3..23fdf1d 100644
--- a/metadata.go
+++ b/metadata.go
@@ -512,17 +512,13 @@ func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
 		if j != entityType {
 			continue
 		}
-		if j == entityType {
-			fmt.Printf("found entity type %s\n", entityType)
-		}
 
 		value := v.Elem().FieldByName(t.Field(i).Name)
 		if value.IsZero() {
 			continue
 		}
 
-		metadata = value.Interface()
-		return nil
+		return decodeEntityMetadata(value.Interface(), metadata)
 	}
 
 	// Requested entity type was not a struct field, so find it in the extra metadata.
@@ -531,10 +527,15 @@ func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
 		return errors.Errorf("could not find metadata for entity %s", entityType)
 	}
 
+	return decodeEntityMetadata(metadataMap, metadata)
+}
+
+// decodeEntityMetadata decodes the metadata of an entity type into the provided metadata object.
+func decodeEntityMetadata(entityMetadata, metadata any) error {
 	// Go will deserialize each metadata into a map[string]interface{}. There may be a nicer way to
 	// do this with generics, but we encode that back to JSON, then decode it into the provided
 	// struct so we can use RTTI to give the caller a richer representation.
-	jsonMetadata, err := json.Marshal(metadataMap)
+	jsonMetadata, err := json.Marshal(entityMetadata)
 	if err != nil {
 		return errors.Errorf("failed to marshal metadata: %s", err)
 	}
-- 
2.43.0

