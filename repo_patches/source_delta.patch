From c24c0eecc6978863d18fcbc704bf223af6f78a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 01/40] fix: unlock the codec when constructing a TypeInfo
 panics

---
 codec.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/codec.go b/codec.go
index b8b4c9b..1b64aa4 100644
--- a/codec.go
+++ b/codec.go
@@ -364,10 +364,10 @@ func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 }
 
 func (cdc *Codec) getTypeInfoWlock(rt reflect.Type) (info *TypeInfo, err error) {
-	// We do not use defer cdc.mtx.Unlock() here due to performance overhead of
-	// defer in go1.11 (and prior versions). Ensure new code paths unlock the
-	// mutex.
 	cdc.mtx.Lock() // requires wlock because we might set.
+	// NOTE: must be deferred. Constructing the TypeInfo panics for unsupported
+	// types, and the codec must remain usable after recovering from that.
+	defer cdc.mtx.Unlock()
 
 	// Dereference pointer type.
 	for rt.Kind() == reflect.Ptr {
@@ -378,14 +378,12 @@ func (cdc *Codec) getTypeInfoWlock(rt reflect.Type) (info *TypeInfo, err error)
 	if !ok {
 		if rt.Kind() == reflect.Interface {
 			err = fmt.Errorf("unregistered interface %v", rt)
-			cdc.mtx.Unlock()
 			return
 		}
 
 		info = cdc.newTypeInfoUnregistered(rt)
 		cdc.setTypeInfoNolock(info)
 	}
-	cdc.mtx.Unlock()
 	return info, nil
 }
 
-- 
2.43.0


From 56da2e2115025f167a94296d72a928b6a4b8369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 02/40] fix: check for a sealed codec under the lock that
 registers

---
 codec.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codec.go b/codec.go
index 1b64aa4..2b56e43 100644
--- a/codec.go
+++ b/codec.go
@@ -168,6 +168,7 @@ func (cdc *Codec) RegisterInterface(ptr interface{}, iopts *InterfaceOptions) {
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.assertNotSealedNolock() // may have been sealed in the meantime.
 		cdc.collectImplementersNolock(info)
 		err := cdc.checkConflictsInPrioNolock(info)
 		if err != nil {
@@ -237,6 +238,7 @@ func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOp
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.assertNotSealedNolock() // may have been sealed in the meantime.
 		cdc.addCheckConflictsWithConcreteNolock(info)
 		cdc.setTypeInfoNolock(info)
 	}()
@@ -330,6 +332,10 @@ func (cdc *Codec) assertNotSealed() {
 	cdc.mtx.Lock()
 	defer cdc.mtx.Unlock()
 
+	cdc.assertNotSealedNolock()
+}
+
+func (cdc *Codec) assertNotSealedNolock() {
 	if cdc.sealed {
 		panic("codec sealed")
 	}
-- 
2.43.0


From 8fa36da863fd988eefcfa7295612cc6fd65edc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 03/40] fix: leave no trace of a rejected registration

---
 codec.go | 81 +++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 51 insertions(+), 30 deletions(-)

diff --git a/codec.go b/codec.go
index 2b56e43..7ea0c0a 100644
--- a/codec.go
+++ b/codec.go
@@ -239,6 +239,9 @@ func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOp
 		defer cdc.mtx.Unlock()
 
 		cdc.assertNotSealedNolock() // may have been sealed in the meantime.
+		// Check everything that may panic before changing anything, such that
+		// a rejected registration leaves no trace.
+		cdc.assertTypeInfoSettableNolock(info)
 		cdc.addCheckConflictsWithConcreteNolock(info)
 		cdc.setTypeInfoNolock(info)
 	}()
@@ -341,7 +344,8 @@ func (cdc *Codec) assertNotSealedNolock() {
 	}
 }
 
-func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
+// Panics if info cannot be set, without having changed anything.
+func (cdc *Codec) assertTypeInfoSettableNolock(info *TypeInfo) {
 
 	if info.Type.Kind() == reflect.Ptr {
 		panic(fmt.Sprintf("unexpected pointer type"))
@@ -349,12 +353,7 @@ func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 	if _, ok := cdc.typeInfos[info.Type]; ok {
 		panic(fmt.Sprintf("TypeInfo already exists for %v", info.Type))
 	}
-
-	cdc.typeInfos[info.Type] = info
-	if info.Type.Kind() == reflect.Interface {
-		cdc.interfaceInfos = append(cdc.interfaceInfos, info)
-	} else if info.Registered {
-		cdc.concreteInfos = append(cdc.concreteInfos, info)
+	if info.Type.Kind() != reflect.Interface && info.Registered {
 		disfix := info.GetDisfix()
 		if existing, ok := cdc.disfixToTypeInfo[disfix]; ok {
 			panic(fmt.Sprintf("disfix <%X> already registered for %v", disfix, existing.Type))
@@ -362,7 +361,18 @@ func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 		if existing, ok := cdc.nameToTypeInfo[info.Name]; ok {
 			panic(fmt.Sprintf("name <%s> already registered for %v", info.Name, existing.Type))
 		}
-		cdc.disfixToTypeInfo[disfix] = info
+	}
+}
+
+func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
+	cdc.assertTypeInfoSettableNolock(info)
+
+	cdc.typeInfos[info.Type] = info
+	if info.Type.Kind() == reflect.Interface {
+		cdc.interfaceInfos = append(cdc.interfaceInfos, info)
+	} else if info.Registered {
+		cdc.concreteInfos = append(cdc.concreteInfos, info)
+		cdc.disfixToTypeInfo[info.GetDisfix()] = info
 		cdc.nameToTypeInfo[info.Name] = info
 		//cdc.prefixToTypeInfos[prefix] =
 		//	append(cdc.prefixToTypeInfos[prefix], info)
@@ -640,21 +650,31 @@ func (cdc *Codec) collectImplementersNolock(info *TypeInfo) {
 func (cdc *Codec) checkConflictsInPrioNolock(iinfo *TypeInfo) error {
 
 	for _, cinfos := range iinfo.Implementers {
-		if len(cinfos) < 2 {
-			continue
+		if err := checkImplementersInPrio(iinfo, cinfos); err != nil {
+			return err
 		}
-		for _, cinfo := range cinfos {
-			var inPrio = false
-			for _, disfix := range iinfo.InterfaceInfo.Priority {
-				if cinfo.GetDisfix() == disfix {
-					inPrio = true
-				}
-			}
-			if !inPrio {
-				return errors.Errorf("%v conflicts with %v other(s). Add it to the priority list for %v.",
-					cinfo.Type, len(cinfos), iinfo.Type)
+	}
+	return nil
+}
+
+// Like checkConflictsInPrioNolock, but for the given implementers of iinfo,
+// which have the same prefix bytes.
+func checkImplementersInPrio(iinfo *TypeInfo, cinfos []*TypeInfo) error {
+
+	if len(cinfos) < 2 {
+		return nil
+	}
+	for _, cinfo := range cinfos {
+		var inPrio = false
+		for _, disfix := range iinfo.InterfaceInfo.Priority {
+			if cinfo.GetDisfix() == disfix {
+				inPrio = true
 			}
 		}
+		if !inPrio {
+			return errors.Errorf("%v conflicts with %v other(s). Add it to the priority list for %v.",
+				cinfo.Type, len(cinfos), iinfo.Type)
+		}
 	}
 	return nil
 }
@@ -664,23 +684,24 @@ func (cdc *Codec) addCheckConflictsWithConcreteNolock(cinfo *TypeInfo) {
 	// Iterate over registered interfaces that this "implements".
 	// "Implement" in quotes because we only consider the pointer, for extra
 	// safety.
+	var iinfos []*TypeInfo
 	for _, iinfo := range cdc.interfaceInfos {
 		if !cinfo.PtrToType.Implements(iinfo.Type) {
 			continue
 		}
 
-		// Add cinfo to iinfo.Implementers.
-		var origImpls = iinfo.Implementers[cinfo.Prefix]
-		iinfo.Implementers[cinfo.Prefix] = append(origImpls, cinfo)
-
-		// Finally, check that all conflicts are in `.Priority`.
-		// NOTE: This could be optimized, but it's non-trivial.
-		err := cdc.checkConflictsInPrioNolock(iinfo)
-		if err != nil {
-			// Return to previous state.
-			iinfo.Implementers[cinfo.Prefix] = origImpls
+		// Check that all conflicts are in `.Priority`, for all interfaces,
+		// before changing any of them.
+		var impls = append([]*TypeInfo{cinfo}, iinfo.Implementers[cinfo.Prefix]...)
+		if err := checkImplementersInPrio(iinfo, impls); err != nil {
 			panic(err)
 		}
+		iinfos = append(iinfos, iinfo)
+	}
+
+	// Finally, add cinfo to iinfo.Implementers.
+	for _, iinfo := range iinfos {
+		iinfo.Implementers[cinfo.Prefix] = append(iinfo.Implementers[cinfo.Prefix], cinfo)
 	}
 }
 
-- 
2.43.0


From 99f93e7412a97f6907fe71b37c6693fb6330230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 04/40] fix: read an interface's implementers under the codec's
 lock when encoding

---
 binary-encode.go |  8 +-------
 codec.go         | 13 +++++++++++++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/binary-encode.go b/binary-encode.go
index d10ebfc..ce079ac 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -242,13 +242,7 @@ func (cdc *Codec) encodeReflectBinaryInterface(w io.Writer, iinfo *TypeInfo, rv
 	buf := bytes.NewBuffer(nil)
 
 	// Write disambiguation bytes if needed.
-	needDisamb := false
-	if iinfo.AlwaysDisambiguate {
-		needDisamb = true
-	} else if len(iinfo.Implementers[cinfo.Prefix]) > 1 {
-		needDisamb = true
-	}
-	if needDisamb {
+	if cdc.needsDisambRlock(iinfo, cinfo) {
 		_, err = buf.Write(append([]byte{0x00}, cinfo.Disamb[:]...))
 		if err != nil {
 			return
diff --git a/codec.go b/codec.go
index 7ea0c0a..bee6aeb 100644
--- a/codec.go
+++ b/codec.go
@@ -459,6 +459,19 @@ func (cdc *Codec) getTypeInfoFromNameRlock(name string) (info *TypeInfo, err err
 	return
 }
 
+// Returns true iff disambiguation bytes must be written for a cinfo value held
+// by an iinfo interface.
+func (cdc *Codec) needsDisambRlock(iinfo *TypeInfo, cinfo *TypeInfo) bool {
+	if iinfo.AlwaysDisambiguate {
+		return true
+	}
+	// NOTE: .Implementers is mutated by registration.
+	cdc.mtx.RLock()
+	defer cdc.mtx.RUnlock()
+
+	return len(iinfo.Implementers[cinfo.Prefix]) > 1
+}
+
 func (cdc *Codec) parseStructInfo(rt reflect.Type) (sinfo StructInfo) {
 	if rt.Kind() != reflect.Struct {
 		panic("should not happen")
-- 
2.43.0


From b650074980dae011822dca8ca3884d5c1cb4d2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 05/40] fix: do not hold the codec's lock while PrintTypes
 writes

---
 codec.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codec.go b/codec.go
index bee6aeb..c587a86 100644
--- a/codec.go
+++ b/codec.go
@@ -262,8 +262,10 @@ func (cdc *Codec) Seal() *Codec {
 //
 // Where Type is the golang type name and Name is the name the type was registered with.
 func (cdc *Codec) PrintTypes(out io.Writer) error {
+	// Do not hold the lock while writing, out may block or use the codec itself.
 	cdc.mtx.RLock()
-	defer cdc.mtx.RUnlock()
+	concreteInfos := append([]*TypeInfo(nil), cdc.concreteInfos...)
+	cdc.mtx.RUnlock()
 	// print header
 	if _, err := io.WriteString(out, "| Type | Name | Prefix | Length | Notes |\n"); err != nil {
 		return err
@@ -272,7 +274,7 @@ func (cdc *Codec) PrintTypes(out io.Writer) error {
 		return err
 	}
 	// only print concrete types for now (if we want everything, we can iterate over the typeInfos map instead)
-	for _, i := range cdc.concreteInfos {
+	for _, i := range concreteInfos {
 		if _, err := io.WriteString(out, "| "); err != nil {
 			return err
 		}
-- 
2.43.0


From 8655d1774768132f6994fe700ee3fa91af9aa9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 06/40] fix: accept any well-behaved reader when reading a
 length prefix

---
 amino.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amino.go b/amino.go
index 9716ae7..73d38cb 100644
--- a/amino.go
+++ b/amino.go
@@ -297,7 +297,9 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	var l int64
 	var buf [binary.MaxVarintLen64]byte
 	for i := 0; i < len(buf); i++ {
-		_, err = r.Read(buf[i : i+1])
+		// NOTE: a reader may return zero bytes and no error, as well as the last
+		// byte together with io.EOF. io.ReadFull handles both.
+		_, err = io.ReadFull(r, buf[i:i+1])
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 5d82e14150786940f9629b75be4fe68f1b778fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 07/40] fix: reject invalid, oversized and impossible length
 prefixes when reading

---
 amino.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/amino.go b/amino.go
index 73d38cb..76a7172 100644
--- a/amino.go
+++ b/amino.go
@@ -307,15 +307,17 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 		if buf[i]&0x80 == 0 {
 			break
 		}
-		if n >= maxSize {
+		if maxSize > 0 && n >= maxSize {
 			err = errors.Errorf(
 				"read overflow, maxSize is %v but uvarint(length-prefix) is itself greater than maxSize",
 				maxSize,
 			)
+			return
 		}
 	}
-	u64, _ := binary.Uvarint(buf[:])
-	if err != nil {
+	u64, un := binary.Uvarint(buf[:])
+	if un <= 0 {
+		err = errors.Errorf("error reading msg byte-length prefix: got code %v", un)
 		return
 	}
 	if maxSize > 0 {
@@ -333,9 +335,10 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	}
 	l = int64(u64)
 	if l < 0 {
-		_ = errors.Errorf( //nolint:errcheck
+		err = errors.Errorf(
 			"read overflow, this implementation can't read this because, why would anyone have this much data? Hello from 2018",
 		)
+		return
 	}
 
 	// Read that many bytes.
-- 
2.43.0


From 96ca513f8173c2b734ce5146a4e0324dbe79d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:14 +0000
Subject: [PATCH 08/40] fix: do not allocate whatever an unlimited length
 prefix announces

---
 amino.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/amino.go b/amino.go
index 76a7172..84cb2be 100644
--- a/amino.go
+++ b/amino.go
@@ -342,8 +342,8 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	}
 
 	// Read that many bytes.
-	var bz = make([]byte, l)
-	_, err = io.ReadFull(r, bz)
+	var bz []byte
+	bz, err = readBytes(r, l, maxSize > 0)
 	if err != nil {
 		return
 	}
@@ -354,6 +354,23 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	return n, err
 }
 
+// Reads exactly l bytes from r.  Unless l is trusted, no more memory is set
+// aside than is in proportion to what r delivers.
+func readBytes(r io.Reader, l int64, trusted bool) (bz []byte, err error) {
+	const maxPrealloc = 1 << 16
+	if trusted || l <= maxPrealloc {
+		bz = make([]byte, l)
+		_, err = io.ReadFull(r, bz)
+		return
+	}
+	var buf = new(bytes.Buffer)
+	_, err = io.CopyN(buf, r, l)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf.Bytes(), err
+}
+
 // Panics if error.
 func (cdc *Codec) MustUnmarshalBinaryLengthPrefixed(bz []byte, ptr interface{}) {
 	err := cdc.UnmarshalBinaryLengthPrefixed(bz, ptr)
-- 
2.43.0


From 8857019a6d69e5a2667fc147a7f97ddeeee3479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 09/40] fix: refuse to decode a type that does not implement
 the interface

---
 binary-decode.go |  6 +++++-
 json-decode.go   |  9 +++++----
 reflect.go       | 11 +++++++++--
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 8259e91..cb0adb9 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -366,7 +366,11 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 	}
 
 	// Construct the concrete type.
-	var crv, irvSet = constructConcreteType(cinfo)
+	var crv, irvSet reflect.Value
+	crv, irvSet, err = constructConcreteType(cinfo, iinfo)
+	if err != nil {
+		return
+	}
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
 	if !isStructOrRepeatedStruct(cinfo) &&
 		!isPointerToStructOrToRepeatedStruct(crv, cinfo.Type) &&
diff --git a/json-decode.go b/json-decode.go
index d6bc0ff..c58411f 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -201,9 +201,6 @@ func (cdc *Codec) decodeReflectJSONInterface(bz []byte, iinfo *TypeInfo, rv refl
 	if err != nil {
 		return
 	}
-	// XXX: Check name against interface to make sure that it actually
-	// matches, and return an error if it doesn't.
-
 	// NOTE: Unlike decodeReflectBinaryInterface, we already dealt with nil in decodeReflectJSON.
 	// NOTE: We also "consumed" the interface wrapper by replacing `bz` above.
 
@@ -216,7 +213,11 @@ func (cdc *Codec) decodeReflectJSONInterface(bz []byte, iinfo *TypeInfo, rv refl
 	}
 
 	// Construct the concrete type.
-	var crv, irvSet = constructConcreteType(cinfo)
+	var crv, irvSet reflect.Value
+	crv, irvSet, err = constructConcreteType(cinfo, iinfo)
+	if err != nil {
+		return
+	}
 
 	// Decode into the concrete type.
 	err = cdc.decodeReflectJSON(bz, cinfo, crv, fopts)
diff --git a/reflect.go b/reflect.go
index ab95603..7ab8975 100644
--- a/reflect.go
+++ b/reflect.go
@@ -175,9 +175,16 @@ func isNil(rv reflect.Value) bool {
 // constructConcreteType creates the concrete value as
 // well as the corresponding settable value for it.
 // Return irvSet which should be set on caller's interface rv.
-func constructConcreteType(cinfo *TypeInfo) (crv, irvSet reflect.Value) {
+// Returns an error if irvSet cannot be set on the interface: the concrete type
+// may have been found by its disambiguation bytes or name alone.
+func constructConcreteType(cinfo *TypeInfo, iinfo *TypeInfo) (crv, irvSet reflect.Value, err error) {
+	if !cinfo.PtrToType.Implements(iinfo.Type) {
+		err = fmt.Errorf("%v does not implement %v", cinfo.Type, iinfo.Type)
+		return
+	}
 	// Construct new concrete type.
-	if cinfo.PointerPreferred {
+	// NOTE: registration only considers the pointer, so that may be what's needed.
+	if cinfo.PointerPreferred || !cinfo.Type.Implements(iinfo.Type) {
 		cPtrRv := reflect.New(cinfo.Type)
 		crv = cPtrRv.Elem()
 		irvSet = cPtrRv
-- 
2.43.0


From 3ad11a5589df584701ee750f44b1639df3237f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 10/40] fix: do not panic on a lone quote where a quoted JSON
 integer is expected

---
 json-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index c58411f..ac4468f 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -116,7 +116,7 @@ func (cdc *Codec) decodeReflectJSON(bz []byte, info *TypeInfo, rv reflect.Value,
 	case reflect.Int64, reflect.Int:
 		fallthrough
 	case reflect.Uint64, reflect.Uint:
-		if bz[0] != '"' || bz[len(bz)-1] != '"' {
+		if len(bz) < 2 || bz[0] != '"' || bz[len(bz)-1] != '"' {
 			err = errors.Errorf(
 				"invalid character -- Amino:JSON int/int64/uint/uint64 expects quoted values for javascript numeric support, got: %v", // nolint: lll
 				string(bz),
-- 
2.43.0


From dfd2531843b0c00f13d487bc263d6f31de76e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 11/40] fix: decode JSON maps with keys of a named string type

---
 json-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index ac4468f..346068c 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -468,7 +468,7 @@ func (cdc *Codec) decodeReflectJSONMap(bz []byte, info *TypeInfo, rv reflect.Val
 		}
 
 		// And set.
-		krv := reflect.New(reflect.TypeOf("")).Elem()
+		krv := reflect.New(krt).Elem()
 		krv.SetString(key)
 		mrv.SetMapIndex(krv, vrv)
 	}
-- 
2.43.0


From df3859f2521bc3c0379f5521a29c38ec810d46b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 12/40] fix: encode JSON maps in the order of their keys

---
 json-encode.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/json-encode.go b/json-encode.go
index 1d2778c..3d8236f 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"sort"
 	"time"
 
 	"github.com/pkg/errors"
@@ -366,8 +367,14 @@ func (cdc *Codec) encodeReflectJSONMap(w io.Writer, info *TypeInfo, rv reflect.V
 		return
 	}
 
+	// Write the entries in a fixed order, by key.
+	var krvs = rv.MapKeys()
+	sort.Slice(krvs, func(i, j int) bool {
+		return krvs[i].String() < krvs[j].String()
+	})
+
 	var writeComma = false
-	for _, krv := range rv.MapKeys() {
+	for _, krv := range krvs {
 		// Get dereferenced object value and info.
 		var vrv, _, isNil = derefPointers(rv.MapIndex(krv))
 
-- 
2.43.0


From b302ff8d6fd0dbcf93214eb091aa3e678e1cd985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 13/40] fix: support lists of a named byte type

---
 binary-decode.go | 6 ++++--
 binary-encode.go | 3 +--
 json-decode.go   | 3 ++-
 json-encode.go   | 3 +--
 reflect.go       | 9 +++++++++
 5 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index cb0adb9..8c624f5 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -454,7 +454,8 @@ func (cdc *Codec) decodeReflectBinaryByteArray(bz []byte, info *TypeInfo, rv ref
 	}
 
 	// Copy read byteslice to rv array.
-	reflect.Copy(rv, reflect.ValueOf(byteslice))
+	// NOTE: the element type may be a named byte type.
+	copy(rv.Slice(0, length).Bytes(), byteslice)
 	return n, err
 }
 
@@ -627,7 +628,8 @@ func (cdc *Codec) decodeReflectBinaryByteSlice(bz []byte, info *TypeInfo, rv ref
 		// NOTE: We prefer nil slices.
 		rv.Set(info.ZeroValue)
 	} else {
-		rv.Set(reflect.ValueOf(byteslice))
+		// NOTE: the element type may be a named byte type.
+		rv.SetBytes(byteslice)
 	}
 	return n, err
 }
diff --git a/binary-encode.go b/binary-encode.go
index ce079ac..b665f5c 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -284,8 +284,7 @@ func (cdc *Codec) encodeReflectBinaryByteArray(w io.Writer, info *TypeInfo, rv r
 	if rv.CanAddr() {
 		byteslice = rv.Slice(0, length).Bytes()
 	} else {
-		byteslice = make([]byte, length)
-		reflect.Copy(reflect.ValueOf(byteslice), rv) // XXX: looks expensive!
+		byteslice = copyBytes(rv) // XXX: looks expensive!
 	}
 
 	// Write byte-length prefixed byteslice.
diff --git a/json-decode.go b/json-decode.go
index 346068c..0a117bc 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -259,7 +259,8 @@ func (cdc *Codec) decodeReflectJSONArray(bz []byte, info *TypeInfo, rv reflect.V
 			err = fmt.Errorf("decodeReflectJSONArray: byte-length mismatch, got %v want %v",
 				len(buf), length)
 		}
-		reflect.Copy(rv, reflect.ValueOf(buf))
+		// NOTE: the element type may be a named byte type.
+		copy(rv.Slice(0, length).Bytes(), buf)
 		return
 
 	default: // General case.
diff --git a/json-encode.go b/json-encode.go
index 3d8236f..0b32e3a 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -221,8 +221,7 @@ func (cdc *Codec) encodeReflectJSONList(w io.Writer, info *TypeInfo, rv reflect.
 		if rv.CanAddr() {
 			bz = rv.Slice(0, length).Bytes()
 		} else {
-			bz = make([]byte, length)
-			reflect.Copy(reflect.ValueOf(bz), rv) // XXX: looks expensive!
+			bz = copyBytes(rv) // XXX: looks expensive!
 		}
 		var jsonBytes []byte
 		jsonBytes, err = json.Marshal(bz) // base64 encode
diff --git a/reflect.go b/reflect.go
index 7ab8975..5f55f25 100644
--- a/reflect.go
+++ b/reflect.go
@@ -195,6 +195,15 @@ func constructConcreteType(cinfo *TypeInfo, iinfo *TypeInfo) (crv, irvSet reflec
 	return
 }
 
+// Copies a list of bytes, whose element type may be a named byte type.
+// CONTRACT: rv is an array or a slice.
+// CONTRACT: rv.Type().Elem().Kind() == reflect.Uint8
+func copyBytes(rv reflect.Value) []byte {
+	var cpy = reflect.MakeSlice(reflect.SliceOf(rv.Type().Elem()), rv.Len(), rv.Len())
+	reflect.Copy(cpy, rv)
+	return cpy.Bytes()
+}
+
 // CONTRACT: rt.Kind() != reflect.Ptr
 func typeToTyp3(rt reflect.Type, opts FieldOptions) Typ3 {
 	switch rt.Kind() {
-- 
2.43.0


From 1672bdd2932b0394d630c7083d86fefb4c3df590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 14/40] fix: skip unknown fields that are lists with several
 elements

---
 binary-decode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binary-decode.go b/binary-decode.go
index 8c624f5..5f9bfb8 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -887,7 +887,9 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 			if slide(&bz, &n, _n) && err != nil {
 				return
 			}
-			if fnum <= lastFieldNum {
+			// NOTE: the elements of an unknown list repeat their field number.
+			isUnknownList := fnum > uint32(len(info.Fields)) && typ3 == Typ3ByteLength
+			if fnum < lastFieldNum || (fnum == lastFieldNum && !isUnknownList) {
 				err = fmt.Errorf("encountered fieldnNum: %v, but we have already seen fnum: %v\nbytes:%X",
 					fnum, lastFieldNum, bz)
 				return
-- 
2.43.0


From 1f1b434901c0650bafe400330d51470789684223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 15/40] fix: DeepCopy must not share slices with the original

---
 deep_copy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index 8e9a157..024b190 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -83,7 +83,7 @@ func _deepCopy(src, dst reflect.Value) {
 			cpy := reflect.MakeSlice(
 				src.Type(), src.Len(), src.Len())
 			reflect.Copy(cpy, src)
-			dst.Set(src)
+			dst.Set(cpy)
 			return
 		default:
 			cpy := reflect.MakeSlice(
@@ -93,7 +93,7 @@ func _deepCopy(src, dst reflect.Value) {
 				ecpy := cpy.Index(i)
 				deepCopy(esrc, ecpy)
 			}
-			dst.Set(src)
+			dst.Set(cpy)
 			return
 		}
 
-- 
2.43.0


From cf3fd7c50db8c5f32de1c1ef781c3ca1b69bb872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:21 +0000
Subject: [PATCH 16/40] fix: DeepCopy must not share map values with the
 original

---
 deep_copy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deep_copy.go b/deep_copy.go
index 024b190..53f05f1 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -119,7 +119,9 @@ func _deepCopy(src, dst reflect.Value) {
 		keys := src.MapKeys()
 		for _, key := range keys {
 			val := src.MapIndex(key)
-			cpy.SetMapIndex(key, val)
+			vcpy := reflect.New(src.Type().Elem()).Elem()
+			deepCopy(val, vcpy)
+			cpy.SetMapIndex(key, vcpy)
 		}
 		dst.Set(cpy)
 		return
-- 
2.43.0


From bbf6046436ac38679204112e4335a612127b2289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 17/40] fix: DeepCopy of pointers to nil pointers and nil
 interfaces

---
 deep_copy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deep_copy.go b/deep_copy.go
index 53f05f1..21ac863 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -43,7 +43,7 @@ func _deepCopy(src, dst reflect.Value) {
 	switch src.Kind() {
 	case reflect.Ptr:
 		cpy := reflect.New(src.Type().Elem())
-		_deepCopy(src.Elem(), cpy.Elem())
+		deepCopy(src.Elem(), cpy.Elem()) // which may be nil.
 		dst.Set(cpy)
 		return
 
-- 
2.43.0


From e8067e1ff8db0c032746bc443af1a8e3f97fa951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 18/40] fix: DeepCopy of types with conversion methods held by
 value

---
 deep_copy.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index 21ac863..edcceb3 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -187,22 +187,26 @@ func callAminoCopy(src, dst reflect.Value) bool {
 	}
 	switch {
 	case src.Kind() == reflect.Ptr:
+		if !canAminoCopy(src) {
+			return false
+		}
 		cpy := reflect.New(src.Type().Elem())
 		dst.Set(cpy)
-	case src.CanAddr():
+	default:
+		if !canAminoCopy(reflect.New(src.Type())) {
+			return false
+		}
+		if !src.CanAddr() {
+			asrc := reflect.New(src.Type()).Elem()
+			asrc.Set(src)
+			src = asrc
+		}
 		if !dst.CanAddr() {
 			panic("should not happen")
 		}
 		src = src.Addr()
 		dst = dst.Addr()
-	default:
-		return false
-	}
-	if !canAminoCopy(src) {
-		return false
 	}
-	cpy := reflect.New(src.Type().Elem())
-	dst.Set(cpy)
 	ma := src.MethodByName("MarshalAmino")
 	ua := dst.MethodByName("UnmarshalAmino")
 	outs := ma.Call(nil)
-- 
2.43.0


From 163beb44d4eac674ef28311685e4585a046367e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 19/40] fix: DeepCopy must not share memory through
 representations

---
 deep_copy.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deep_copy.go b/deep_copy.go
index edcceb3..2788fa8 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -214,7 +214,10 @@ func callAminoCopy(src, dst reflect.Value) bool {
 	if !err.IsNil() {
 		panic(err.Interface())
 	}
-	outs = ua.Call([]reflect.Value{repr})
+	// The representation may share memory with src.
+	rcpy := reflect.New(repr.Type()).Elem()
+	deepCopy(repr, rcpy)
+	outs = ua.Call([]reflect.Value{rcpy})
 	err = outs[0]
 	if !err.IsNil() {
 		panic(err.Interface())
-- 
2.43.0


From 55e67b03524e79d9ad662d6d79362a44f3d59e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 20/40] fix: decode registered non-struct types in interface
 lists and first fields

---
 binary-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary-decode.go b/binary-decode.go
index 5f9bfb8..eb29fdd 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -377,7 +377,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		len(bz) > 0 &&
 		(crv.Kind() != reflect.Interface) &&
 		isKnownType &&
-		fopts.BinFieldNum == 1 {
+		bare { // i.e. not a field or element, it was encoded by MarshalBinaryBare.
 		var (
 			fnum      uint32
 			typ       Typ3
-- 
2.43.0


From a56231d960cd0eaafaf222994d6537d1f6a14e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 21/40] fix: decode registered list types into an interface

---
 binary-decode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binary-decode.go b/binary-decode.go
index eb29fdd..84ff031 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -371,6 +371,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 	if err != nil {
 		return
 	}
+	cbare := true
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
 	if !isStructOrRepeatedStruct(cinfo) &&
 		!isPointerToStructOrToRepeatedStruct(crv, cinfo.Type) &&
@@ -396,10 +397,11 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 				typWanted, fnum, cinfo.Type, typ)
 		}
 		slide(&bz, &n, nFnumTyp3)
+		cbare = typWanted != Typ3ByteLength
 	}
 
 	// Decode into the concrete type.
-	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, true)
+	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, cbare)
 	if slide(&bz, &n, _n) && err != nil {
 		rv.Set(irvSet) // Helps with debugging
 		return
-- 
2.43.0


From 66835bebad884f06a18d99b5508896e4155f744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 22/40] fix: decode top-level values whose encoding is empty

---
 amino.go         | 10 +++++++---
 binary-decode.go | 15 ++++++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/amino.go b/amino.go
index 84cb2be..0c16aa0 100644
--- a/amino.go
+++ b/amino.go
@@ -415,11 +415,15 @@ func (cdc *Codec) UnmarshalBinaryBare(bz []byte, ptr interface{}) error {
 	bare := true
 	var nWrap int
 	isKnownType := (info.Type.Kind() != reflect.Map) && (info.Type.Kind() != reflect.Func)
-	if !isStructOrRepeatedStruct(info) &&
+	isWrapped := !isStructOrRepeatedStruct(info) &&
 		!isPointerToStructOrToRepeatedStruct(rv, rt) &&
-		len(bz) > 0 &&
 		(rv.Kind() != reflect.Interface) &&
-		isKnownType {
+		isKnownType
+	if isWrapped && len(bz) == 0 {
+		// MarshalBinaryBare omits the field if the value's encoding is 0x00.
+		bz = []byte{0x00}
+		bare = typeToTyp3(info.Type, FieldOptions{}) != Typ3ByteLength
+	} else if isWrapped {
 		var (
 			fnum      uint32
 			typ       Typ3
diff --git a/binary-decode.go b/binary-decode.go
index 84ff031..a53375e 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -373,12 +373,21 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 	}
 	cbare := true
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
-	if !isStructOrRepeatedStruct(cinfo) &&
+	isWrapped := !isStructOrRepeatedStruct(cinfo) &&
 		!isPointerToStructOrToRepeatedStruct(crv, cinfo.Type) &&
-		len(bz) > 0 &&
 		(crv.Kind() != reflect.Interface) &&
 		isKnownType &&
-		bare { // i.e. not a field or element, it was encoded by MarshalBinaryBare.
+		bare // i.e. not a field or element, it was encoded by MarshalBinaryBare.
+	if isWrapped && len(bz) == 0 {
+		// MarshalBinaryBare omits the field if the value's encoding is 0x00.
+		cbare = typeToTyp3(cinfo.Type, FieldOptions{}) != Typ3ByteLength
+		_, err = cdc.decodeReflectBinary([]byte{0x00}, cinfo, crv, fopts, cbare)
+		if err == nil {
+			rv.Set(irvSet)
+		}
+		return
+	}
+	if isWrapped {
 		var (
 			fnum      uint32
 			typ       Typ3
-- 
2.43.0


From 20301e9b012804fbc74e2cf8c6a2af437bb61835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:17 +0000
Subject: [PATCH 23/40] fix: encode the elements of top-level lists with a
 valid field number

---
 amino.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amino.go b/amino.go
index 0c16aa0..632ebd4 100644
--- a/amino.go
+++ b/amino.go
@@ -219,7 +219,7 @@ func (cdc *Codec) MarshalBinaryBare(o interface{}) ([]byte, error) {
 		writeEmpty := false
 		typ3 := typeToTyp3(info.Type, FieldOptions{})
 		bare := typ3 != Typ3ByteLength
-		if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{}, rv, writeEmpty, bare); err != nil {
+		if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{BinFieldNum: 1}, rv, writeEmpty, bare); err != nil {
 			return nil, err
 		}
 		bz = buf.Bytes()
-- 
2.43.0


From 3708e64fd2fd16d049b526c8090ea5edbe0a42e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 24/40] fix: decode nested values without copying them at every
 level

Each level of nesting copied the bytes of everything below it, and kept the
copies while decoding: a 110 kB message nested 30000 deep took 1.6 GB.
---
 binary-decode.go | 12 ++++++------
 decoder.go       | 15 +++++++++++++--
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index a53375e..193429d 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -336,7 +336,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 			buf []byte
 			_n  int
 		)
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = viewByteSlice(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -454,7 +454,7 @@ func (cdc *Codec) decodeReflectBinaryByteArray(bz []byte, info *TypeInfo, rv ref
 	}
 
 	// Read byte-length prefixed byteslice.
-	byteslice, _n, err := DecodeByteSlice(bz)
+	byteslice, _n, err := viewByteSlice(bz)
 	if slide(&bz, &n, _n) && err != nil {
 		return
 	}
@@ -499,7 +499,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			buf []byte
 			_n  int
 		)
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = viewByteSlice(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -678,7 +678,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			buf []byte
 			_n  int
 		)
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = viewByteSlice(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -796,7 +796,7 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 	if !bare {
 		// Read byte-length prefixed byteslice.
 		var buf []byte
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = viewByteSlice(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -928,7 +928,7 @@ func consumeAny(typ3 Typ3, bz []byte) (n int, err error) {
 	case Typ38Byte:
 		_, _n, err = DecodeInt64(bz)
 	case Typ3ByteLength:
-		_, _n, err = DecodeByteSlice(bz)
+		_, _n, err = viewByteSlice(bz)
 	case Typ3_4Byte:
 		_, _n, err = DecodeInt32(bz)
 	default:
diff --git a/decoder.go b/decoder.go
index 14f4e7c..ea8d175 100644
--- a/decoder.go
+++ b/decoder.go
@@ -278,6 +278,18 @@ func decodeNanos(bz *[]byte, n *int) (int32, error) {
 }
 
 func DecodeByteSlice(bz []byte) (bz2 []byte, n int, err error) {
+	view, n, err := viewByteSlice(bz)
+	if err != nil {
+		return
+	}
+	bz2 = make([]byte, len(view))
+	copy(bz2, view)
+	return
+}
+
+// Like DecodeByteSlice, but the result is a part of bz rather than a copy, so
+// that decoding nested values takes memory in proportion to the input.
+func viewByteSlice(bz []byte) (view []byte, n int, err error) {
 	var count uint64
 	var _n int
 	count, _n, err = DecodeUvarint(bz)
@@ -292,8 +304,7 @@ func DecodeByteSlice(bz []byte) (bz2 []byte, n int, err error) {
 		err = fmt.Errorf("insufficient bytes decoding []byte of length %v", count)
 		return
 	}
-	bz2 = make([]byte, count)
-	copy(bz2, bz[0:count])
+	view = bz[0:count:count]
 	n += int(count)
 	return
 }
-- 
2.43.0


From 8521ae6450b15f67bb4a6ac13991bde01a93d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 25/40] fix: refuse binary data nested too deep for the stack

A forged message of a few megabytes nested hundreds of thousands of levels deep
overflowed the goroutine's stack, which ends the process.
---
 amino.go         |  2 +-
 binary-decode.go | 44 ++++++++++++++++++++++++++------------------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/amino.go b/amino.go
index 632ebd4..a12d348 100644
--- a/amino.go
+++ b/amino.go
@@ -447,7 +447,7 @@ func (cdc *Codec) UnmarshalBinaryBare(bz []byte, ptr interface{}) error {
 	}
 
 	// Decode contents into rv.
-	n, err := cdc.decodeReflectBinary(bz, info, rv, FieldOptions{BinFieldNum: 1}, bare)
+	n, err := cdc.decodeReflectBinary(bz, info, rv, FieldOptions{BinFieldNum: 1}, bare, 0)
 	if err != nil {
 		return fmt.Errorf(
 			"unmarshal to %v failed after %d bytes (%v): %X",
diff --git a/binary-decode.go b/binary-decode.go
index 193429d..5d0d8ad 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -22,6 +22,10 @@ const (
 	// architecture dependent int limits:
 	maxInt = int(^uint(0) >> 1)
 	minInt = -maxInt - 1
+
+	// Values nested deeper than this are refused when decoding, for the stack
+	// is limited and overflowing it is fatal.
+	maxDecodeDepth = 100000
 )
 
 // This is the main entrypoint for decoding all types from binary form. This
@@ -29,7 +33,7 @@ const (
 // only call this one, for the prefix bytes are consumed here when present.
 // CONTRACT: rv.CanAddr() is true.
 func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
-	rv reflect.Value, fopts FieldOptions, bare bool) (n int, err error) {
+	rv reflect.Value, fopts FieldOptions, bare bool, depth int) (n int, err error) {
 
 	if !rv.CanAddr() {
 		panic("rv not addressable")
@@ -37,6 +41,10 @@ func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
 	if info.Type.Kind() == reflect.Interface && rv.Kind() == reflect.Ptr {
 		panic("should not happen")
 	}
+	if depth > maxDecodeDepth {
+		err = fmt.Errorf("encoded value is nested deeper than %v levels", maxDecodeDepth)
+		return
+	}
 	if printLog {
 		spew.Printf("(D) decodeReflectBinary(bz: %X, info: %v, rv: %#v (%v), fopts: %v)\n",
 			bz, info, rv.Interface(), rv.Type(), fopts)
@@ -67,7 +75,7 @@ func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
 		if err != nil {
 			return
 		}
-		_n, err = cdc.decodeReflectBinary(bz, rinfo, rrv, fopts, bare)
+		_n, err = cdc.decodeReflectBinary(bz, rinfo, rrv, fopts, bare, depth+1)
 		if slide(&bz, &n, _n) && err != nil {
 			return
 		}
@@ -87,7 +95,7 @@ func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
 	// Complex
 
 	case reflect.Interface:
-		_n, err = cdc.decodeReflectBinaryInterface(bz, info, rv, fopts, bare)
+		_n, err = cdc.decodeReflectBinaryInterface(bz, info, rv, fopts, bare, depth)
 		n += _n
 		return
 
@@ -97,7 +105,7 @@ func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
 			_n, err = cdc.decodeReflectBinaryByteArray(bz, info, rv, fopts)
 			n += _n
 		} else {
-			_n, err = cdc.decodeReflectBinaryArray(bz, info, rv, fopts, bare)
+			_n, err = cdc.decodeReflectBinaryArray(bz, info, rv, fopts, bare, depth)
 			n += _n
 		}
 		return
@@ -108,13 +116,13 @@ func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
 			_n, err = cdc.decodeReflectBinaryByteSlice(bz, info, rv, fopts)
 			n += _n
 		} else {
-			_n, err = cdc.decodeReflectBinarySlice(bz, info, rv, fopts, bare)
+			_n, err = cdc.decodeReflectBinarySlice(bz, info, rv, fopts, bare, depth)
 			n += _n
 		}
 		return
 
 	case reflect.Struct:
-		_n, err = cdc.decodeReflectBinaryStruct(bz, info, rv, fopts, bare)
+		_n, err = cdc.decodeReflectBinaryStruct(bz, info, rv, fopts, bare, depth)
 		n += _n
 		return
 
@@ -312,7 +320,7 @@ func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
 
 // CONTRACT: rv.CanAddr() is true.
 func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv reflect.Value,
-	fopts FieldOptions, bare bool) (n int, err error) {
+	fopts FieldOptions, bare bool, depth int) (n int, err error) {
 	if !rv.CanAddr() {
 		panic("rv not addressable")
 	}
@@ -381,7 +389,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 	if isWrapped && len(bz) == 0 {
 		// MarshalBinaryBare omits the field if the value's encoding is 0x00.
 		cbare = typeToTyp3(cinfo.Type, FieldOptions{}) != Typ3ByteLength
-		_, err = cdc.decodeReflectBinary([]byte{0x00}, cinfo, crv, fopts, cbare)
+		_, err = cdc.decodeReflectBinary([]byte{0x00}, cinfo, crv, fopts, cbare, depth+1)
 		if err == nil {
 			rv.Set(irvSet)
 		}
@@ -410,7 +418,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 	}
 
 	// Decode into the concrete type.
-	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, cbare)
+	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, cbare, depth+1)
 	if slide(&bz, &n, _n) && err != nil {
 		rv.Set(irvSet) // Helps with debugging
 		return
@@ -473,7 +481,7 @@ func (cdc *Codec) decodeReflectBinaryByteArray(bz []byte, info *TypeInfo, rv ref
 // CONTRACT: rv.CanAddr() is true.
 // NOTE: Keep the code structure similar to decodeReflectBinarySlice.
 func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect.Value,
-	fopts FieldOptions, bare bool) (n int, err error) {
+	fopts FieldOptions, bare bool, depth int) (n int, err error) {
 	if !rv.CanAddr() {
 		panic("rv not addressable")
 	}
@@ -517,7 +525,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 		for i := 0; i < length; i++ {
 			erv := rv.Index(i)
 			var _n int
-			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, fopts, false)
+			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, fopts, false, depth+1)
 			if slide(&bz, &n, _n) && err != nil {
 				err = fmt.Errorf("error reading array contents: %v", err)
 				return
@@ -579,7 +587,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			// In case of any inner lists in unpacked form.
 			efopts := fopts
 			efopts.BinFieldNum = 1
-			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, efopts, false)
+			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, efopts, false, depth+1)
 			if slide(&bz, &n, _n) && err != nil {
 				err = fmt.Errorf("error reading array contents: %v", err)
 				return
@@ -648,7 +656,7 @@ func (cdc *Codec) decodeReflectBinaryByteSlice(bz []byte, info *TypeInfo, rv ref
 // CONTRACT: rv.CanAddr() is true.
 // NOTE: Keep the code structure similar to decodeReflectBinaryArray.
 func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect.Value,
-	fopts FieldOptions, bare bool) (n int, err error) {
+	fopts FieldOptions, bare bool, depth int) (n int, err error) {
 	if !rv.CanAddr() {
 		panic("rv not addressable")
 	}
@@ -698,7 +706,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 				break
 			}
 			erv, _n := reflect.New(ert).Elem(), int(0)
-			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, fopts, false)
+			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, fopts, false, depth+1)
 			if slide(&bz, &n, _n) && err != nil {
 				err = fmt.Errorf("error reading array contents: %v", err)
 				return
@@ -764,7 +772,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			// In case of any inner lists in unpacked form.
 			efopts := fopts
 			efopts.BinFieldNum = 1
-			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, efopts, false)
+			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, efopts, false, depth+1)
 			if slide(&bz, &n, _n) && err != nil {
 				err = fmt.Errorf("error reading array contents: %v", err)
 				return
@@ -778,7 +786,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 
 // CONTRACT: rv.CanAddr() is true.
 func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflect.Value,
-	_ FieldOptions, bare bool) (n int, err error) {
+	_ FieldOptions, bare bool, depth int) (n int, err error) {
 	if !rv.CanAddr() {
 		panic("rv not addressable")
 	}
@@ -838,7 +846,7 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 			if field.UnpackedList {
 				// This is a list that was encoded unpacked, e.g.
 				// with repeated field entries for each list item.
-				_n, err = cdc.decodeReflectBinary(bz, finfo, frv, field.FieldOptions, true)
+				_n, err = cdc.decodeReflectBinary(bz, finfo, frv, field.FieldOptions, true, depth+1)
 				if slide(&bz, &n, _n) && err != nil {
 					return
 				}
@@ -881,7 +889,7 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 					return
 				}
 				// Decode field into frv.
-				_n, err = cdc.decodeReflectBinary(bz, finfo, frv, field.FieldOptions, false)
+				_n, err = cdc.decodeReflectBinary(bz, finfo, frv, field.FieldOptions, false, depth+1)
 				if slide(&bz, &n, _n) && err != nil {
 					return
 				}
-- 
2.43.0


From b020ef37f65116e9cbf99fc7d44720ec9e4c3ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 26/40] fix: name the list once in the error of a nested decode

The text of the error was copied and extended at every level of nesting, so
that a short message took gigabytes to be refused.
---
 binary-decode.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 5d0d8ad..e370f28 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -28,6 +28,25 @@ const (
 	maxDecodeDepth = 100000
 )
 
+// contentsError reports an error met in the elements of an array or slice.
+type contentsError struct {
+	cause error
+}
+
+func (e contentsError) Error() string {
+	return fmt.Sprintf("error reading array contents: %v", e.cause)
+}
+
+// errReadingContents says of err that it was met in the elements of a list,
+// once however deep the lists are nested, as its text would otherwise grow
+// with the depth, and be copied at every level.
+func errReadingContents(err error) error {
+	if _, ok := err.(contentsError); ok {
+		return err
+	}
+	return contentsError{err}
+}
+
 // This is the main entrypoint for decoding all types from binary form. This
 // function calls decodeReflectBinary*, and generally those functions should
 // only call this one, for the prefix bytes are consumed here when present.
@@ -527,7 +546,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			var _n int
 			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, fopts, false, depth+1)
 			if slide(&bz, &n, _n) && err != nil {
-				err = fmt.Errorf("error reading array contents: %v", err)
+				err = errReadingContents(err)
 				return
 			}
 			// Special case when reading default value, prefer nil.
@@ -589,7 +608,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			efopts.BinFieldNum = 1
 			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, efopts, false, depth+1)
 			if slide(&bz, &n, _n) && err != nil {
-				err = fmt.Errorf("error reading array contents: %v", err)
+				err = errReadingContents(err)
 				return
 			}
 		}
@@ -708,7 +727,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			erv, _n := reflect.New(ert).Elem(), int(0)
 			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, fopts, false, depth+1)
 			if slide(&bz, &n, _n) && err != nil {
-				err = fmt.Errorf("error reading array contents: %v", err)
+				err = errReadingContents(err)
 				return
 			}
 			// Special case when reading default value, prefer nil.
@@ -774,7 +793,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			efopts.BinFieldNum = 1
 			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, efopts, false, depth+1)
 			if slide(&bz, &n, _n) && err != nil {
-				err = fmt.Errorf("error reading array contents: %v", err)
+				err = errReadingContents(err)
 				return
 			}
 			srv = reflect.Append(srv, erv)
-- 
2.43.0


From 0d5ba6b59e4d275fa43f02cc0f8bdb58596f0367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 27/40] fix: default times to 1970 within missing structs, too

A struct all of whose fields have their defaults is not encoded, and was
decoded with times of year 1 where those fields were 1970.
---
 reflect.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/reflect.go b/reflect.go
index 5f55f25..7bc99d1 100644
--- a/reflect.go
+++ b/reflect.go
@@ -156,6 +156,20 @@ func defaultValue(rt reflect.Type) (rv reflect.Value) {
 			rv.Set(reflect.ValueOf(zeroTime))
 			return rv
 		}
+		if _, ok := reflect.PtrTo(rt).MethodByName("UnmarshalAmino"); ok {
+			break
+		}
+		// A struct without any fields, as if decoded from no bytes: any time
+		// within it is 1970, too.
+		rv = reflect.New(rt).Elem()
+		for i := 0; i < rt.NumField(); i++ {
+			field := rt.Field(i)
+			if !isExported(field) || field.Tag.Get("json") == "-" {
+				continue
+			}
+			rv.Field(i).Set(defaultValue(field.Type))
+		}
+		return rv
 	}
 
 	// Just return the default Go zero object.
-- 
2.43.0


From ca44ea963f87f3d03bf76a0b28871b0d78d53a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:53 +0000
Subject: [PATCH 28/40] fix: encode the elements of lists of byte lists outside
 struct fields

---
 binary-encode.go | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/binary-encode.go b/binary-encode.go
index b665f5c..db6a89c 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -70,20 +70,15 @@ func (cdc *Codec) encodeReflectBinary(w io.Writer, info *TypeInfo, rv reflect.Va
 		} else if kind := info.Type.Elem().Kind(); kind == reflect.Slice || kind == reflect.Array {
 			// for proto3 compatibility, we do not allow multidimensional arrays,
 			// unless the elements involved are bytes (e.g. [][]byte)
-			if info.Type.Elem().Elem().Kind() != reflect.Uint8 { // byte is an alias for uint8
-				elem := info.Type.Elem()
-				for {
-					if elem.Kind() == reflect.Slice || elem.Kind() == reflect.Array {
-						elem = elem.Elem()
-						continue
-					}
-					if elem.Kind() == reflect.Uint8 { // byte is an alias for uint8
-						break
-					}
-					err = errors.New("multidimensional arrays not allowed")
-					break
-				}
+			elem := info.Type.Elem()
+			for elem.Kind() == reflect.Slice || elem.Kind() == reflect.Array {
+				elem = elem.Elem()
 			}
+			if elem.Kind() != reflect.Uint8 { // byte is an alias for uint8
+				err = errors.New("multidimensional arrays not allowed")
+				return
+			}
+			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		} else {
 			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		}
@@ -97,17 +92,14 @@ func (cdc *Codec) encodeReflectBinary(w io.Writer, info *TypeInfo, rv reflect.Va
 			// for proto3 compatibility, we do not allow multidimensional slices,
 			// unless the elements involved are bytes (e.g. [][]byte)
 			elem := info.Type.Elem()
-			for {
-				if elem.Kind() == reflect.Slice || elem.Kind() == reflect.Array {
-					elem = elem.Elem()
-					continue
-				}
-				if elem.Kind() == reflect.Uint8 { // byte is an alias for uint8
-					break
-				}
+			for elem.Kind() == reflect.Slice || elem.Kind() == reflect.Array {
+				elem = elem.Elem()
+			}
+			if elem.Kind() != reflect.Uint8 { // byte is an alias for uint8
 				err = errors.New("multidimensional slices not allowed")
-				break
+				return
 			}
+			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		default:
 			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		}
-- 
2.43.0


From 8a04519594bc2530e86258d8b9fc5ef1ab81e9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 29/40] fix: honour a field's unsafe tag when decoding JSON

---
 json-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index 0a117bc..0de27e2 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -415,7 +415,7 @@ func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.
 		}
 
 		// Decode into field rv.
-		err = cdc.decodeReflectJSON(valueBytes, finfo, frv, fopts)
+		err = cdc.decodeReflectJSON(valueBytes, finfo, frv, field.FieldOptions)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From f359849496c67a45f91c92f7b6b2e8dd6942b9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 30/40] fix: refuse bytes left over within nested times and
 lists

---
 binary-decode.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index e370f28..29cbeeb 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -625,6 +625,10 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 				err = fmt.Errorf("unexpected field number %v after repeated field number %v", fnum, fopts.BinFieldNum)
 				return
 			}
+			if !bare {
+				err = errors.New("bytes left over after reading array contents")
+				return
+			}
 		}
 	}
 	return n, err
@@ -798,6 +802,11 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			}
 			srv = reflect.Append(srv, erv)
 		}
+		// Ensure that we read the whole buffer.
+		if !bare && len(bz) > 0 {
+			err = errors.New("bytes left over after reading slice contents")
+			return
+		}
 	}
 	rv.Set(srv)
 	return n, err
@@ -841,6 +850,10 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 		if slide(&bz, &n, _n) && err != nil {
 			return
 		}
+		if len(bz) > 0 {
+			err = errors.New("bytes left over after reading time contents")
+			return
+		}
 		rv.Set(reflect.ValueOf(t))
 
 	default:
-- 
2.43.0


From f4cba081cec77e1109d3730a31edb28d15b089dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 31/40] fix: refuse a byte slice that is cut before its length

---
 binary-decode.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 29cbeeb..ba346f8 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -650,12 +650,6 @@ func (cdc *Codec) decodeReflectBinaryByteSlice(bz []byte, info *TypeInfo, rv ref
 	if ert.Kind() != reflect.Uint8 {
 		panic("should not happen")
 	}
-	// If len(bz) == 0 the code below will err
-	if len(bz) == 0 {
-		rv.Set(info.ZeroValue)
-		return 0, nil
-	}
-
 	// Read byte-length prefixed byteslice.
 	var (
 		byteslice []byte
-- 
2.43.0


From 63f009ccd064a476778bb61c86eaf935e5473ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:08 +0000
Subject: [PATCH 32/40] fix: refuse a number that overflows a uint32

---
 binary-decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index ba346f8..2eebffd 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -253,6 +253,10 @@ func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
 			if slide(&bz, &n, _n) && err != nil {
 				return
 			}
+			if num > math.MaxUint32 {
+				err = ErrOverflowInt
+				return
+			}
 			rv.SetUint(num)
 		}
 		return
-- 
2.43.0


From 967b0854d489cd6ca81075dfc8663cd43bdb7072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 33/40] fix: accept nothing but an integer between the quotes
 of a JSON integer

---
 json-decode.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/json-decode.go b/json-decode.go
index 0de27e2..f9d63c8 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -126,6 +126,11 @@ func (cdc *Codec) decodeReflectJSON(bz []byte, info *TypeInfo, rv reflect.Value,
 			}
 		}
 		bz = bz[1 : len(bz)-1]
+		// NOTE: the stdlib also takes null, and space around the number.
+		if len(bz) > 0 && (bz[0] != '-' && !isDigit(bz[0]) || !isDigit(bz[len(bz)-1])) {
+			err = errors.Errorf("invalid quoted integer: %q", bz)
+			return
+		}
 		fallthrough
 	case reflect.Int32, reflect.Int16, reflect.Int8,
 		reflect.Uint32, reflect.Uint16, reflect.Uint8:
@@ -152,6 +157,10 @@ func (cdc *Codec) decodeReflectJSON(bz []byte, info *TypeInfo, rv reflect.Value,
 	return err
 }
 
+func isDigit(c byte) bool {
+	return '0' <= c && c <= '9'
+}
+
 func invokeStdlibJSONUnmarshal(bz []byte, rv reflect.Value, fopts FieldOptions) error {
 	if !rv.CanAddr() && rv.Kind() != reflect.Ptr {
 		panic("rv not addressable nor pointer")
-- 
2.43.0


From 048a7478c74a1841df58c4e2908ff5035fa073dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:56 +0000
Subject: [PATCH 34/40] fix: decode JSON byte slices into fresh memory

---
 json-decode.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/json-decode.go b/json-decode.go
index f9d63c8..5207d7e 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -319,18 +319,19 @@ func (cdc *Codec) decodeReflectJSONSlice(bz []byte, info *TypeInfo, rv reflect.V
 	switch ert.Kind() {
 
 	case reflect.Uint8: // Special case: byte slice
-		err = json.Unmarshal(bz, rv.Addr().Interface())
+		// Read into a new slice: json.Unmarshal() would reuse the bytes of rv.
+		var srv = reflect.New(rv.Type())
+		err = json.Unmarshal(bz, srv.Interface())
 		if err != nil {
 			return
 		}
-		if rv.Len() == 0 {
+		if srv.Elem().Len() == 0 {
 			// Special case when length is 0.
 			// NOTE: We prefer nil slices.
 			rv.Set(info.ZeroValue)
+		} else {
+			rv.Set(srv.Elem())
 		}
-		// else {
-		// NOTE: Already set via json.Unmarshal() above.
-		// }
 		return
 
 	default: // General case.
-- 
2.43.0


From 829d858dcf898c082ce8fb38e7ab87a746f04d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:18 +0000
Subject: [PATCH 35/40] fix: count the bytes a length prefix took, not those it
 needs

A length or size prefix written with more bytes than necessary was counted
as if it had been written with the fewest, so what followed was read from
the wrong offset and fields were misread or lost without an error.
---
 binary-decode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 2eebffd..d4ffffb 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -372,7 +372,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -535,7 +535,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -712,7 +712,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -835,7 +835,7 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
-- 
2.43.0


From efa9049c39e964b1d4d55dc5608e4098c97c5e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:18 +0000
Subject: [PATCH 36/40] fix: do not set aside a whole message's memory on its
 prefix's word

With a size limit, UnmarshalBinaryLengthPrefixedReader allocated whatever
the prefix announced; under a very large limit a hostile prefix made it
panic or exhaust memory.
---
 amino.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/amino.go b/amino.go
index a12d348..8360d77 100644
--- a/amino.go
+++ b/amino.go
@@ -343,7 +343,7 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 
 	// Read that many bytes.
 	var bz []byte
-	bz, err = readBytes(r, l, maxSize > 0)
+	bz, err = readBytes(r, l)
 	if err != nil {
 		return
 	}
@@ -354,11 +354,11 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	return n, err
 }
 
-// Reads exactly l bytes from r.  Unless l is trusted, no more memory is set
-// aside than is in proportion to what r delivers.
-func readBytes(r io.Reader, l int64, trusted bool) (bz []byte, err error) {
+// Reads exactly l bytes from r.  No more memory is set aside than is in
+// proportion to what r delivers.
+func readBytes(r io.Reader, l int64) (bz []byte, err error) {
 	const maxPrealloc = 1 << 16
-	if trusted || l <= maxPrealloc {
+	if l <= maxPrealloc {
 		bz = make([]byte, l)
 		_, err = io.ReadFull(r, bz)
 		return
-- 
2.43.0


From aa1baa3d8cd33231cd4254cb19fcf8f5ae320d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:26 +0000
Subject: [PATCH 37/40] fix: JSON null with space around it was not taken for
 null at the top level

---
 json-decode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index 5207d7e..baabd21 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -527,5 +527,6 @@ func decodeInterfaceJSON(bz []byte) (name string, data []byte, err error) {
 }
 
 func nullBytes(b []byte) bool {
-	return bytes.Equal(b, []byte(`null`))
+	// NOTE: there may be space around it at the top level.
+	return bytes.Equal(bytes.Trim(b, " \t\r\n"), []byte(`null`))
 }
-- 
2.43.0


From 44eac0c9332c18e771172a78c2857faedf2ae73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:26 +0000
Subject: [PATCH 38/40] fix: escape the registered name in the JSON of a
 concrete type

---
 amino.go       |  2 +-
 json-encode.go | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/amino.go b/amino.go
index 8360d77..c5afc3a 100644
--- a/amino.go
+++ b/amino.go
@@ -532,7 +532,7 @@ func (cdc *Codec) MarshalJSON(o interface{}) ([]byte, error) {
 
 	// Write the disfix wrapper if it is a registered concrete type.
 	if info.Registered {
-		err = writeStr(w, _fmt(`{"type":"%s","value":`, info.Name))
+		err = writeDisfixWrapper(w, info.Name)
 		if err != nil {
 			return nil, err
 		}
diff --git a/json-encode.go b/json-encode.go
index 0b32e3a..0bc37f7 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -1,6 +1,7 @@
 package amino
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
@@ -172,7 +173,7 @@ func (cdc *Codec) encodeReflectJSONInterface(w io.Writer, iinfo *TypeInfo, rv re
 
 	// Write interface wrapper.
 	// Part 1:
-	err = writeStr(w, _fmt(`{"type":"%s","value":`, cinfo.Name))
+	err = writeDisfixWrapper(w, cinfo.Name)
 	if err != nil {
 		return
 	}
@@ -440,6 +441,19 @@ func invokeStdlibJSONMarshal(w io.Writer, v interface{}) error {
 	return err
 }
 
+// Writes the beginning of the wrapper of a registered concrete type.
+// NOTE: a name may contain what has to be escaped in JSON, but no name needs to
+// be escaped for HTML.
+func writeDisfixWrapper(w io.Writer, name string) (err error) {
+	buf := new(bytes.Buffer)
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	if err = enc.Encode(name); err != nil {
+		return
+	}
+	return writeStr(w, _fmt(`{"type":%s,"value":`, bytes.TrimSuffix(buf.Bytes(), []byte("\n"))))
+}
+
 func writeStr(w io.Writer, s string) (err error) {
 	_, err = w.Write([]byte(s))
 	return
-- 
2.43.0


From 58e71ec31f10eb068df2982bee75e050c2f23175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 39/40] fix: a nil interface as the representation of a value
 could not be decoded

The representation of an AminoMarshaler may be of an interface type. When it
is nil it is encoded as 0x00, or with no bytes after its length prefix, and
the decoder took that for incomplete prefix bytes.
---
 binary-decode.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index d4ffffb..0f32829 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -376,6 +376,15 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		bz = buf
 	}
 
+	// Special case when it is nil, see encodeReflectBinaryInterface.
+	if !bare && len(bz) == 0 {
+		return
+	}
+	if bare && len(bz) == 1 && bz[0] == 0x00 {
+		n++
+		return
+	}
+
 	// Consume disambiguation / prefix bytes.
 	disamb, hasDisamb, prefix, hasPrefix, _n, err := DecodeDisambPrefixBytes(bz)
 	if slide(&bz, &n, _n) && err != nil {
-- 
2.43.0


From 3f7b68b44426f825f251bb4b593695512b0ca2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:48 +0000
Subject: [PATCH 40/40] fix: a concrete value within an interface
 representation could not be decoded

A registered type that is no struct gets a field key only when it is what
MarshalBinaryBare was given. The decoder also expected one within a
representation of an interface type, where the encoder writes none.
---
 binary-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary-decode.go b/binary-decode.go
index 0f32829..08d75dc 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -417,7 +417,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		!isPointerToStructOrToRepeatedStruct(crv, cinfo.Type) &&
 		(crv.Kind() != reflect.Interface) &&
 		isKnownType &&
-		bare // i.e. not a field or element, it was encoded by MarshalBinaryBare.
+		bare && depth == 0 // i.e. not a field, element or representation, it was encoded by MarshalBinaryBare.
 	if isWrapped && len(bz) == 0 {
 		// MarshalBinaryBare omits the field if the value's encoding is 0x00.
 		cbare = typeToTyp3(cinfo.Type, FieldOptions{}) != Typ3ByteLength
-- 
2.43.0

