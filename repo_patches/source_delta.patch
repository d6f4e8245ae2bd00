From f58a9e1166f4a6c95461827e79783b07d5546052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 01/35] fix: do not index an empty token when parsing a value

An empty unquoted token (input such as ',' or {"a":}) made Parse panic; it
is meant to read as null, as the code right below says.
---
 jsonutils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index 97e6883..cb4f20a 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -259,7 +259,7 @@ func (s *sJsonParseSession) parseJSONValue(str []byte, offset int) (JSONObject,
 		return nil, i, errors.Wrap(e, "parseString")
 	} else if quote {
 		return &JSONString{data: val}, i, nil
-	} else if val[0] == '<' && val[len(val)-1] == '>' {
+	} else if len(val) > 0 && val[0] == '<' && val[len(val)-1] == '>' {
 		// Pointer <nnnn>
 		val = val[1 : len(val)-1]
 		ival, err := strconv.ParseInt(val, 10, 64)
-- 
2.43.0


From c061fbe7dc360c51a35fad775beaa1d01012f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 02/35] fix: report a non-integer node id instead of panicking

---
 jsonutils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index cb4f20a..688a07f 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -476,7 +476,11 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 		}
 		if key == jsonPointerKey {
 			// node id
-			nodeId = int(val.(*JSONInt).data)
+			idVal, ok := val.(*JSONInt)
+			if !ok {
+				return smap, i, nodeId, NewJSONError(str, i, "Invalid node id")
+			}
+			nodeId = int(idVal.data)
 		} else {
 			smap = sortedmap.Add(smap, key, val)
 		}
-- 
2.43.0


From f850fbc7d482f555aeaff3a36992af65ed46e59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 03/35] fix: return an error for a duplicate node id instead of
 panicking

---
 jsonutils.go     | 5 ++++-
 parse_session.go | 7 ++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index 688a07f..c7d8985 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -561,7 +561,10 @@ func (this *JSONDict) parse(s *sJsonParseSession, str []byte, offset int) (int,
 		this.nodeId = nodeId
 		this.data = smap
 		if this.nodeId > 0 {
-			s.saveNode(nodeId, this)
+			e = s.saveNode(nodeId, this)
+			if e != nil {
+				return i, errors.Wrap(e, "saveNode")
+			}
 		}
 		return i, nil
 	}
diff --git a/parse_session.go b/parse_session.go
index 632dce9..aa34e89 100644
--- a/parse_session.go
+++ b/parse_session.go
@@ -15,7 +15,7 @@
 package jsonutils
 
 import (
-	"fmt"
+	"yunion.io/x/pkg/errors"
 )
 
 type sNodeReferer struct {
@@ -43,10 +43,10 @@ func (s *sJsonParseSession) saveReferer(nodeId int, ptr *sJSONPointer) {
 	}
 }
 
-func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) {
+func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) error {
 	if nr, ok := s.objectMap[nodeId]; ok {
 		if nr.node != nil {
-			panic(fmt.Sprintf("nodeId %d alreayd exists: %s != %s", nodeId, nr.node, node))
+			return errors.Wrapf(errors.ErrDuplicateId, "nodeId %d already exists", nodeId)
 		} else {
 			nr.node = node
 		}
@@ -56,4 +56,5 @@ func (s *sJsonParseSession) saveNode(nodeId int, node JSONObject) {
 			pointers: nil,
 		}
 	}
+	return nil
 }
-- 
2.43.0


From ba2cb8f7475cb67b5b07b09402e6cb9dfc1cabc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 04/35] fix: bound the nesting depth of parsed documents

---
 jsonutils.go     |  8 ++++++++
 parse_session.go | 17 +++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/jsonutils.go b/jsonutils.go
index c7d8985..83eff8e 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -427,6 +427,10 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 	if str[offset] != '{' {
 		return smap, offset, nodeId, NewJSONError(str, offset, "{ not found")
 	}
+	if err := s.enter(str, offset); err != nil {
+		return smap, offset, nodeId, err
+	}
+	defer s.leave()
 	var i = offset + 1
 	var e error = nil
 	var key string
@@ -505,6 +509,10 @@ func (s *sJsonParseSession) parseArray(str []byte, offset int) ([]JSONObject, in
 	if str[offset] != '[' {
 		return nil, offset, NewJSONError(str, offset, "[ not found")
 	}
+	if err := s.enter(str, offset); err != nil {
+		return nil, offset, err
+	}
+	defer s.leave()
 	var (
 		list []JSONObject
 		i    = offset + 1
diff --git a/parse_session.go b/parse_session.go
index aa34e89..f56d689 100644
--- a/parse_session.go
+++ b/parse_session.go
@@ -23,8 +23,13 @@ type sNodeReferer struct {
 	pointers []*sJSONPointer
 }
 
+// maxParseDepth limits how deep objects and arrays can nest, a goroutine
+// stack that overflows cannot be recovered
+const maxParseDepth = 10000
+
 type sJsonParseSession struct {
 	objectMap map[int]*sNodeReferer
+	depth     int
 }
 
 func newJsonParseSession() *sJsonParseSession {
@@ -33,6 +38,18 @@ func newJsonParseSession() *sJsonParseSession {
 	}
 }
 
+func (s *sJsonParseSession) enter(str []byte, offset int) error {
+	if s.depth >= maxParseDepth {
+		return NewJSONError(str, offset, "Nested too deep")
+	}
+	s.depth++
+	return nil
+}
+
+func (s *sJsonParseSession) leave() {
+	s.depth--
+}
+
 func (s *sJsonParseSession) saveReferer(nodeId int, ptr *sJSONPointer) {
 	if nr, ok := s.objectMap[nodeId]; ok {
 		nr.pointers = append(nr.pointers, ptr)
-- 
2.43.0


From 2d5ab24c0e3d96fd6cabd061af62c4fb75bf6f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 05/35] fix: decode surrogate pairs in unicode escapes

---
 jsonutils.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jsonutils.go b/jsonutils.go
index 83eff8e..a25bde1 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -20,6 +20,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
 	"unicode/utf8"
 
 	"yunion.io/x/log"
@@ -183,6 +184,16 @@ ret:
 					if e != nil {
 						return "", i, NewJSONError(str, i, e.Error())
 					}
+					if utf16.IsSurrogate(r) && i+10 < len(str) && str[i+4] == '\\' && str[i+5] == 'u' {
+						// a character outside the BMP is written as a surrogate pair
+						r2, e := hexstr2rune(str[i+6 : i+10])
+						if e == nil {
+							if rr := utf16.DecodeRune(r, r2); rr != utf8.RuneError {
+								r = rr
+								i += 6
+							}
+						}
+					}
 					runen = utf8.EncodeRune(runebytes, r)
 					buffer = append(buffer, runebytes[0:runen]...)
 					i += 4
-- 
2.43.0


From 7a4cce7a7b522e452ccc0e0ff63b6b3d7377dd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 06/35] fix: quote object keys in PrettyString

---
 jsonutils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index a25bde1..75472ac 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -617,9 +617,8 @@ func (this *JSONDict) prettyString(level int) string {
 		buffer.WriteByte('\n')
 		buffer.WriteString(tab)
 		buffer.WriteString("  ")
-		buffer.WriteByte('"')
-		buffer.WriteString(k)
-		buffer.WriteString("\":")
+		buffer.WriteString(quoteString(k))
+		buffer.WriteByte(':')
 		_, okdict := v.(*JSONDict)
 		_, okarray := v.(*JSONArray)
 		if okdict || okarray {
-- 
2.43.0


From 46706aecf71656bd8048c2a10d4d2742fe7444ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 07/35] fix: write the node id in PrettyString so that
 references resolve

---
 jsonutils.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsonutils.go b/jsonutils.go
index 75472ac..13c1bee 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -608,6 +608,15 @@ func (this *JSONDict) prettyString(level int) string {
 	buffer.WriteString(tab)
 	buffer.WriteByte('{')
 	var idx = 0
+	if this.nodeId > 0 {
+		buffer.WriteByte('\n')
+		buffer.WriteString(tab)
+		buffer.WriteString("  ")
+		buffer.WriteString(quoteString(jsonPointerKey))
+		buffer.WriteString(": ")
+		buffer.WriteString(strconv.Itoa(this.nodeId))
+		idx++
+	}
 	for iter := sortedmap.NewIterator(this.data); iter.HasMore(); iter.Next() {
 		k, vInf := iter.Get()
 		v := vInf.(JSONObject)
@@ -630,7 +639,7 @@ func (this *JSONDict) prettyString(level int) string {
 		}
 		idx++
 	}
-	if len(this.data) > 0 {
+	if idx > 0 {
 		buffer.WriteByte('\n')
 		buffer.WriteString(tab)
 	}
-- 
2.43.0


From d0c8fc9c9920e89e42d4d7c3dec156ce9c6534ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 08/35] fix: do not modify a float when rendering it

---
 string.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/string.go b/string.go
index dfa791b..cf56025 100644
--- a/string.go
+++ b/string.go
@@ -33,10 +33,11 @@ func (this *JSONInt) String() string {
 }
 
 func (this *JSONFloat) String() string {
-	if this.bit != 32 && this.bit != 64 {
-		this.bit = 64
+	bit := this.bit
+	if bit != 32 && bit != 64 {
+		bit = 64
 	}
-	return strconv.FormatFloat(this.data, 'f', -1, this.bit)
+	return strconv.FormatFloat(this.data, 'f', -1, bit)
 }
 
 func (this *JSONBool) String() string {
-- 
2.43.0


From 73348a064a47e723a4ffdbe93d543a8881677d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 09/35] fix: store the value when unmarshalling into a scalar
 node by value

---
 unmarshal.go | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 4209253..07f2ae6 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -86,15 +86,13 @@ func (this *JSONInt) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value)
 func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONIntType:
-		json := val.Interface().(JSONInt)
-		json.data = this.data
+		val.Set(reflect.ValueOf(*NewInt(this.data)))
 		return nil
 	case JSONIntPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONStringType:
-		json := val.Interface().(JSONString)
-		json.data = fmt.Sprintf("%d", this.data)
+		val.Set(reflect.ValueOf(*NewString(fmt.Sprintf("%d", this.data))))
 		return nil
 	case JSONStringPtrType:
 		json := val.Interface().(*JSONString)
@@ -152,15 +150,13 @@ func (this *JSONBool) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONBoolType:
-		json := val.Interface().(JSONBool)
-		json.data = this.data
+		val.Set(reflect.ValueOf(*NewBool(this.data)))
 		return nil
 	case JSONBoolPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONStringType:
-		json := val.Interface().(JSONString)
-		json.data = strconv.FormatBool(this.data)
+		val.Set(reflect.ValueOf(*NewString(strconv.FormatBool(this.data))))
 		return nil
 	case JSONStringPtrType:
 		json := val.Interface().(*JSONString)
@@ -223,15 +219,13 @@ func (this *JSONFloat) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONFloatType:
-		json := val.Interface().(JSONFloat)
-		json.data = this.data
+		val.Set(reflect.ValueOf(*this))
 		return nil
 	case JSONFloatPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONStringType:
-		json := val.Interface().(JSONString)
-		json.data = fmt.Sprintf("%f", this.data)
+		val.Set(reflect.ValueOf(*NewString(fmt.Sprintf("%f", this.data))))
 		return nil
 	case JSONStringPtrType:
 		json := val.Interface().(*JSONString)
@@ -244,8 +238,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return nil
 	case JSONIntType:
-		json := val.Interface().(JSONInt)
-		json.data = int64(this.data)
+		val.Set(reflect.ValueOf(*NewInt(int64(this.data))))
 		return nil
 	case JSONIntPtrType:
 		json := val.Interface().(*JSONInt)
@@ -257,8 +250,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return nil
 	case JSONBoolType:
-		json := val.Interface().(JSONBool)
-		json.data = (int(this.data) != 0)
+		val.Set(reflect.ValueOf(*NewBool(int(this.data) != 0)))
 		return nil
 	case JSONArrayType, JSONDictType, JSONBoolPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONFloat type mismatch %s", val.Type())
@@ -306,8 +298,7 @@ func (this *JSONString) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	switch val.Type() {
 	case JSONStringType:
-		json := val.Interface().(JSONString)
-		json.data = this.data
+		val.Set(reflect.ValueOf(*NewString(this.data)))
 		return nil
 	case JSONStringPtrType, JSONObjectType:
 		val.Set(reflect.ValueOf(this))
@@ -326,12 +317,11 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		val.Set(reflect.ValueOf(tm))
 		return nil
 	case JSONBoolType:
-		json := val.Interface().(JSONBool)
 		switch strings.ToLower(this.data) {
 		case "true", "yes", "on", "1":
-			json.data = true
+			val.Set(reflect.ValueOf(*JSONTrue))
 		default:
-			json.data = false
+			val.Set(reflect.ValueOf(*JSONFalse))
 		}
 		return nil
 	case JSONBoolPtrType:
-- 
2.43.0


From 1480679c5e87f31e8df34be57b0f97dda456460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 10/35] fix: replace a scalar node on unmarshal instead of
 modifying the shared one

---
 unmarshal.go | 46 ++++++----------------------------------------
 1 file changed, 6 insertions(+), 40 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 07f2ae6..1ba10b9 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -95,14 +95,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		val.Set(reflect.ValueOf(*NewString(fmt.Sprintf("%d", this.data))))
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := fmt.Sprintf("%d", this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%d", this.data))))
 		return nil
 	case JSONBoolType, JSONFloatType, JSONArrayType, JSONDictType, JSONBoolPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONInt type mismatch %s", val.Type())
@@ -159,14 +152,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		val.Set(reflect.ValueOf(*NewString(strconv.FormatBool(this.data))))
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := strconv.FormatBool(this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(strconv.FormatBool(this.data))))
 		return nil
 	case JSONIntType, JSONFloatType, JSONArrayType, JSONDictType, JSONIntPtrType, JSONFloatPtrType, JSONArrayPtrType, JSONDictPtrType:
 		return ErrTypeMismatch // fmt.Errorf("JSONBool type mismatch %s", val.Type())
@@ -228,26 +214,13 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		val.Set(reflect.ValueOf(*NewString(fmt.Sprintf("%f", this.data))))
 		return nil
 	case JSONStringPtrType:
-		json := val.Interface().(*JSONString)
-		data := fmt.Sprintf("%f", this.data)
-		if json == nil {
-			json = NewString(data)
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = data
-		}
+		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%f", this.data))))
 		return nil
 	case JSONIntType:
 		val.Set(reflect.ValueOf(*NewInt(int64(this.data))))
 		return nil
 	case JSONIntPtrType:
-		json := val.Interface().(*JSONInt)
-		if json == nil {
-			json = NewInt(int64(this.data))
-			val.Set(reflect.ValueOf(json))
-		} else {
-			json.data = int64(this.data)
-		}
+		val.Set(reflect.ValueOf(NewInt(int64(this.data))))
 		return nil
 	case JSONBoolType:
 		val.Set(reflect.ValueOf(*NewBool(int(this.data) != 0)))
@@ -325,18 +298,11 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		}
 		return nil
 	case JSONBoolPtrType:
-		json := val.Interface().(*JSONBool)
-		var data bool
 		switch strings.ToLower(this.data) {
 		case "true", "yes", "on", "1":
-			data = true
+			val.Set(reflect.ValueOf(JSONTrue))
 		default:
-			data = false
-		}
-		if json == nil {
-			json = &JSONBool{data: data}
-		} else {
-			json.data = data
+			val.Set(reflect.ValueOf(JSONFalse))
 		}
 		return nil
 	case JSONIntType, JSONFloatType, JSONArrayType, JSONDictType,
-- 
2.43.0


From 0ef90f7678bea533c94d767b1e7a05412c759691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 11/35] fix: do not panic when unmarshalling a boolean or a
 float into an unsigned integer

---
 unmarshal.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 1ba10b9..2939a95 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -164,13 +164,18 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 	}
 	switch val.Kind() {
-	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		if this.data {
 			val.SetInt(1)
 		} else {
 			val.SetInt(0)
 		}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if this.data {
+			val.SetUint(1)
+		} else {
+			val.SetUint(0)
+		}
 	case reflect.Float32, reflect.Float64:
 		if this.data {
 			val.SetFloat(1.0)
@@ -235,9 +240,10 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 	}
 	switch val.Kind() {
-	case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8,
-		reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		val.SetInt(int64(this.data))
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		val.SetUint(uint64(this.data))
 	case reflect.Float32, reflect.Float64:
 		val.SetFloat(this.data)
 	case reflect.Bool:
-- 
2.43.0


From 4aec5457173928180570420db1d13bb21874f749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 12/35] fix: return an error when an interface target cannot
 hold the value

---
 unmarshal.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 2939a95..ece3949 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -79,6 +79,14 @@ func (this *JSONValue) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 	return nil
 }
 
+func setInterfaceValue(val reflect.Value, data reflect.Value) error {
+	if !data.Type().AssignableTo(val.Type()) {
+		return errors.Wrapf(ErrTypeMismatch, "%s vs. %s", data.Type(), val.Type())
+	}
+	val.Set(data)
+	return nil
+}
+
 func (this *JSONInt) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	return tryStdUnmarshal(s, this, val, this._unmarshalValue)
 }
@@ -129,7 +137,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, reflect.ValueOf(this.data))
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONInt vs. %s", val.Type())
 	}
@@ -196,7 +204,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, reflect.ValueOf(this.data))
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONBool vs. %s", val.Type())
 	}
@@ -260,7 +268,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, reflect.ValueOf(this.data))
 	default:
 		return errors.Wrapf(ErrTypeMismatch, "JSONFloat vs. %s", val.Type())
 	}
@@ -359,7 +367,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		}
 		return this.unmarshalValue(s, val.Elem())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, reflect.ValueOf(this.data))
 	case reflect.Slice:
 		dataLen := 1
 		if val.Cap() < dataLen {
@@ -409,7 +417,7 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return ErrTypeMismatch // fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	case reflect.Interface:
-		val.Set(reflect.ValueOf(this.data))
+		return setInterfaceValue(val, reflect.ValueOf(this.data))
 	case reflect.Slice, reflect.Array:
 		if val.Kind() == reflect.Array {
 			if val.Len() != len(this.data) {
-- 
2.43.0


From 3105a363155ff30b6f5189ed46325075f31ec40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 13/35] fix: return an error when a node reference does not fit
 its target

---
 unmarshal.go         |  5 ++++-
 unmarshal_session.go | 25 ++++++++++++++++++++-----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index ece3949..c1ec771 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -446,7 +446,10 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 
 func (this *JSONDict) unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value) error {
 	if this.nodeId > 0 && val.CanAddr() {
-		s.saveNodeValue(this.nodeId, val.Addr())
+		err := s.saveNodeValue(this.nodeId, val.Addr())
+		if err != nil {
+			return errors.Wrap(err, "saveNodeValue")
+		}
 	}
 	return tryStdUnmarshal(s, this, val, this._unmarshalValue)
 }
diff --git a/unmarshal_session.go b/unmarshal_session.go
index 1b5d89c..41867d7 100644
--- a/unmarshal_session.go
+++ b/unmarshal_session.go
@@ -16,6 +16,8 @@ package jsonutils
 
 import (
 	"reflect"
+
+	"yunion.io/x/pkg/errors"
 )
 
 type sJsonNodeValues struct {
@@ -34,7 +36,15 @@ func newJsonUnmarshalSession() *sJsonUnmarshalSession {
 	}
 }
 
-func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) {
+func setPointerTarget(target reflect.Value, val reflect.Value) error {
+	if !val.Type().AssignableTo(target.Type()) {
+		return errors.Wrapf(ErrTypeMismatch, "pointer to %s vs. %s", val.Type(), target.Type())
+	}
+	target.Set(val)
+	return nil
+}
+
+func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) error {
 	if nv, ok := s.objectMap[nodeId]; !ok {
 		s.objectMap[nodeId] = &sJsonNodeValues{
 			nodeValue:    val,
@@ -43,16 +53,21 @@ func (s *sJsonUnmarshalSession) saveNodeValue(nodeId int, val reflect.Value) {
 	} else {
 		nv.nodeValue = val
 		nv.nodeValueSet = true
-		for i := range nv.targetValues {
-			nv.targetValues[i].Set(val)
-		}
+		targetValues := nv.targetValues
 		nv.targetValues = nil
+		for i := range targetValues {
+			err := setPointerTarget(targetValues[i], val)
+			if err != nil {
+				return err
+			}
+		}
 	}
+	return nil
 }
 
 func (s *sJsonUnmarshalSession) setPointerValue(nodeId int, val reflect.Value) error {
 	if nv, ok := s.objectMap[nodeId]; ok && nv.nodeValueSet {
-		val.Set(nv.nodeValue)
+		return setPointerTarget(val, nv.nodeValue)
 	} else if ok && !nv.nodeValueSet {
 		nv.targetValues = append(nv.targetValues, val)
 	} else {
-- 
2.43.0


From 0001c0cbded7f8621523a8c9a1fd8856260c6282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 14/35] fix: do not overwrite an unmarshalled tristate with the
 raw text

---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index c1ec771..22943fd 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -113,6 +113,7 @@ func (this *JSONInt) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Value
 		} else {
 			val.Set(tristate.TriStateTrueValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16,
@@ -170,6 +171,7 @@ func (this *JSONBool) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 		} else {
 			val.Set(tristate.TriStateFalseValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -246,6 +248,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		} else {
 			val.Set(tristate.TriStateTrueValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
@@ -331,6 +334,7 @@ func (this *JSONString) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Va
 		default:
 			val.Set(tristate.TriStateNoneValue)
 		}
+		return nil
 	}
 	switch val.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-- 
2.43.0


From 798b7894036a453a9414632750ed60e2f1a9be81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 15/35] fix: do not panic when marshalling a named boolean type

---
 marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 12d6c1e..6679e59 100644
--- a/marshal.go
+++ b/marshal.go
@@ -386,7 +386,7 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 		strValue := objValue.Convert(gotypes.StringType)
 		return marshalString(strValue.Interface().(string), info, omitEmpty)
 	case reflect.Bool:
-		return marshalBoolean(objValue.Interface().(bool), info, omitEmpty)
+		return marshalBoolean(objValue.Bool(), info, omitEmpty)
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		intValue := objValue.Convert(gotypes.Int64Type)
-- 
2.43.0


From 40c0e1b8025f341cff103d7c1d1f44e4731e7275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 16/35] fix: render map keys that are not strings by their
 value

---
 marshal.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index 6679e59..1843d6f 100644
--- a/marshal.go
+++ b/marshal.go
@@ -64,7 +64,11 @@ type tMapKeys []reflect.Value
 
 func (a tMapKeys) Len() int           { return len(a) }
 func (a tMapKeys) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
-func (a tMapKeys) Less(i, j int) bool { return a[i].String() < a[j].String() }
+func (a tMapKeys) Less(i, j int) bool { return mapKeyString(a[i]) < mapKeyString(a[j]) }
+
+func mapKeyString(key reflect.Value) string {
+	return fmt.Sprintf("%v", key)
+}
 
 func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.SStructFieldInfo, omitEmpty bool) JSONObject {
 	if val.IsNil() {
@@ -85,7 +89,7 @@ func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.S
 		key := keys[i]
 		val := s.marshalValue(val.MapIndex(key), nil, omitEmpty)
 		if val != nil {
-			objPairs = append(objPairs, JSONPair{key: fmt.Sprintf("%s", key), val: val})
+			objPairs = append(objPairs, JSONPair{key: mapKeyString(key), val: val})
 		}
 	}
 	dict := NewDict(objPairs...)
-- 
2.43.0


From 7184984dd64868c43d07a8b9174e3c99e288bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 17/35] fix: unmarshal numbers and booleans with their own
 value instead of null

---
 unmarshal.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 22943fd..e44b3fc 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -54,6 +54,18 @@ func (this *JSONString) Unmarshal(obj interface{}, keys ...string) error {
 	return jsonUnmarshal(this, obj, keys)
 }
 
+func (this *JSONInt) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
+func (this *JSONFloat) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
+func (this *JSONBool) Unmarshal(obj interface{}, keys ...string) error {
+	return jsonUnmarshal(this, obj, keys)
+}
+
 func jsonUnmarshal(jo JSONObject, o interface{}, keys []string) error {
 	if len(keys) > 0 {
 		var err error = nil
-- 
2.43.0


From d849e4d4aa8944851b4fa75ca6d4a40f721a12e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 18/35] fix: QueryString of arrays and scalars renders their
 own value

---
 querystring.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/querystring.go b/querystring.go
index faded21..e32ce7a 100644
--- a/querystring.go
+++ b/querystring.go
@@ -177,6 +177,26 @@ func (this *JSONDict) QueryString() string {
 	return this._queryString("")
 }
 
+func (this *JSONArray) QueryString() string {
+	return this._queryString("")
+}
+
+func (this *JSONString) QueryString() string {
+	return this._queryString("")
+}
+
+func (this *JSONInt) QueryString() string {
+	return this._queryString("")
+}
+
+func (this *JSONFloat) QueryString() string {
+	return this._queryString("")
+}
+
+func (this *JSONBool) QueryString() string {
+	return this._queryString("")
+}
+
 func QueryBoolean(query JSONObject, key string, defVal bool) bool {
 	if query == nil {
 		return defVal
-- 
2.43.0


From 8287ea1bce92b1bcc0d90b87ab1524c9a15bac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 19/35] fix: keep the full precision of a float converted to a
 string

---
 marshal.go   | 4 ++--
 unmarshal.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/marshal.go b/marshal.go
index 1843d6f..a9df7c3 100644
--- a/marshal.go
+++ b/marshal.go
@@ -184,7 +184,7 @@ func marshalFloat64(val float64, info *reflectutils.SStructFieldInfo, bit int, o
 	if val == 0.0 && info != nil && info.OmitZero && omitEmpty {
 		return nil
 	} else if info != nil && info.ForceString {
-		return NewString(fmt.Sprintf("%f", val))
+		return NewString(NewFloat64(val).String())
 	} else {
 		return NewFloat64(val)
 	}
@@ -194,7 +194,7 @@ func marshalFloat32(val float32, info *reflectutils.SStructFieldInfo, bit int, o
 	if val == 0.0 && info != nil && info.OmitZero && omitEmpty {
 		return nil
 	} else if info != nil && info.ForceString {
-		return NewString(fmt.Sprintf("%f", val))
+		return NewString(NewFloat32(val).String())
 	} else {
 		return NewFloat32(val)
 	}
diff --git a/unmarshal.go b/unmarshal.go
index e44b3fc..3810922 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -238,10 +238,10 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		val.Set(reflect.ValueOf(this))
 		return nil
 	case JSONStringType:
-		val.Set(reflect.ValueOf(*NewString(fmt.Sprintf("%f", this.data))))
+		val.Set(reflect.ValueOf(*NewString(this.String())))
 		return nil
 	case JSONStringPtrType:
-		val.Set(reflect.ValueOf(NewString(fmt.Sprintf("%f", this.data))))
+		val.Set(reflect.ValueOf(NewString(this.String())))
 		return nil
 	case JSONIntType:
 		val.Set(reflect.ValueOf(*NewInt(int64(this.data))))
@@ -276,7 +276,7 @@ func (this *JSONFloat) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 			val.SetBool(true)
 		}
 	case reflect.String:
-		val.SetString(fmt.Sprintf("%f", this.data))
+		val.SetString(this.String())
 	case reflect.Ptr:
 		if val.IsNil() {
 			val.Set(reflect.New(val.Type().Elem()))
-- 
2.43.0


From 1ae812dae91006c585211935b9d7715682163f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 20/35] fix: keep node references and node ids in DeepCopy

---
 clone.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/clone.go b/clone.go
index f92cfc3..61ca25c 100644
--- a/clone.go
+++ b/clone.go
@@ -82,6 +82,12 @@ func (this *JSONDict) DeepCopy() interface{} {
 }
 
 func DeepCopy(obj JSONObject) JSONObject {
+	return deepCopy(obj, make(map[JSONObject]*JSONDict))
+}
+
+// deepCopy remembers the copy of every dict, so that the copy of a reference
+// refers to the copy of its node
+func deepCopy(obj JSONObject, copied map[JSONObject]*JSONDict) JSONObject {
 	if obj == nil || reflect.ValueOf(obj).IsNil() {
 		return nil
 	}
@@ -102,19 +108,34 @@ func DeepCopy(obj JSONObject) JSONObject {
 		elemsC := make([]JSONObject, v.Length())
 		for i := 0; i < v.Length(); i++ {
 			elem, _ := v.GetAt(i)
-			elemC := DeepCopy(elem)
+			elemC := deepCopy(elem, copied)
 			elemsC[i] = elemC
 		}
 		vc := NewArray(elemsC...)
 		return vc
 	case *JSONDict:
+		if v.nodeId > 0 {
+			if vc, ok := copied[v]; ok {
+				return vc
+			}
+		}
 		vc := NewDict()
+		vc.setNodeId(v.nodeId)
+		copied[v] = vc
 		m, _ := v.GetMap()
 		for mk, mv := range m {
-			mvc := DeepCopy(mv)
+			mvc := deepCopy(mv, copied)
 			vc.Set(mk, mvc)
 		}
 		return vc
+	case *sJSONPointer:
+		vc := &sJSONPointer{nodeId: v.nodeId}
+		if nodeC, ok := copied[v.node]; ok {
+			vc.node = nodeC
+		} else if v.node != nil {
+			vc.node = deepCopy(v.node, copied)
+		}
+		return vc
 	case *JSONValue:
 		vc := *v
 		return &vc
-- 
2.43.0


From 4dbd06b877552975582db6049fe1429154ce33a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 21/35] fix: do not share storage with a dict or an array
 marshalled by value

---
 marshal.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index a9df7c3..555e156 100644
--- a/marshal.go
+++ b/marshal.go
@@ -307,7 +307,9 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 			if len(json.data) == 0 && info != nil && info.OmitEmpty && omitEmpty {
 				return nil
 			} else {
-				return &json
+				dict := json.Copy()
+				dict.setNodeId(json.nodeId)
+				return dict
 			}
 		} else {
 			return nil
@@ -318,7 +320,7 @@ func (s *sJsonMarshalSession) _marshalValue(objValue reflect.Value, info *reflec
 			if len(json.data) == 0 && info != nil && info.OmitEmpty && omitEmpty {
 				return nil
 			} else {
-				return &json
+				return json.Copy()
 			}
 		} else {
 			return nil
-- 
2.43.0


From f4ca97da5dc00eb8b88508e9fedfef4702db449c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 22/35] fix: do not hand out the storage of an array
 unmarshalled into an interface

---
 unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 3810922..28697b2 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -433,7 +433,7 @@ func (this *JSONArray) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Val
 		}
 		return ErrTypeMismatch // fmt.Errorf("JSONArray type mismatch %s", val.Type())
 	case reflect.Interface:
-		return setInterfaceValue(val, reflect.ValueOf(this.data))
+		return setInterfaceValue(val, reflect.ValueOf(this.Value()))
 	case reflect.Slice, reflect.Array:
 		if val.Kind() == reflect.Array {
 			if val.Len() != len(this.data) {
-- 
2.43.0


From 879017d3b186a903fb6901ee772163c2c49b8a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 23/35] fix: do not panic when a serializable interface has no
 constructor

---
 unmarshal.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/unmarshal.go b/unmarshal.go
index 28697b2..bc76b25 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -499,8 +499,7 @@ func (this *JSONDict) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 				return err
 			}
 			if objPtr == nil {
-				val.Set(reflect.ValueOf(this.data)) // ???
-				return nil
+				return setInterfaceValue(val, reflect.ValueOf(this))
 			}
 			err = this.unmarshalValue(s, reflect.ValueOf(objPtr))
 			if err != nil {
-- 
2.43.0


From 9408665e552f4e71184082e262bac54f76390df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 24/35] fix: give a dict reached through several pointers a
 single node id

---
 jsonpointer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jsonpointer.go b/jsonpointer.go
index b525c7c..871dc45 100644
--- a/jsonpointer.go
+++ b/jsonpointer.go
@@ -49,9 +49,15 @@ func (s *sJsonMarshalSession) setJsonObject(ptr *sJSONPointer, obj JSONObject) {
 }
 
 func (s *sJsonMarshalSession) setAllNodeId() {
-	for nodeId, jsonPtrNode := range s.nodeMap {
+	for nodeId := 1; nodeId <= s.nodeIndex; nodeId++ {
+		jsonPtrNode := s.nodeMap[nodeId]
 		if jsonPtrNode.refcnt > 1 && jsonPtrNode.pointer.node != nil {
-			jsonPtrNode.pointer.node.(*JSONDict).setNodeId(nodeId)
+			dict := jsonPtrNode.pointer.node.(*JSONDict)
+			if dict.nodeId == 0 {
+				dict.setNodeId(nodeId)
+			}
+			// a dict reached through several pointers has a single id
+			jsonPtrNode.pointer.nodeId = dict.nodeId
 		}
 	}
 }
-- 
2.43.0


From 6dd6a9940400ca1ad1eba040eda1e01b1b8b86d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 25/35] fix: do not loop forever on a deprecated-by cycle
 entered from outside

---
 marshal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshal.go b/marshal.go
index 555e156..06c8bd6 100644
--- a/marshal.go
+++ b/marshal.go
@@ -145,13 +145,15 @@ func (s *sJsonMarshalSession) struct2JSONPairs(val reflect.Value, omitEmpty bool
 	depPairs := make([]JSONPair, 0, len(depFields))
 	for depKey, key := range depFields {
 		findLoop := false
+		visited := map[string]bool{depKey: true}
 		for {
 			if okey, ok := depFields[key]; ok {
-				if okey == depKey {
+				if visited[key] {
 					// loop detected
 					findLoop = true
 					break
 				}
+				visited[key] = true
 				key = okey
 			} else {
 				break
-- 
2.43.0


From 5ad5bbedf50733d5f250fc2f4303d7331886888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 26/35] fix: report query string keys that conflict instead of
 dropping them

---
 querystring.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/querystring.go b/querystring.go
index e32ce7a..cc618a6 100644
--- a/querystring.go
+++ b/querystring.go
@@ -55,10 +55,16 @@ func addQueryStringSeg(body JSONObject, segs []sTextNumber, val []string) (JSONO
 			if err != nil {
 				return nil, errors.Wrapf(err, "get jsondict %s with %s fail", body, key)
 			}
-			addQueryStringSeg(next, segs[1:], val)
+			_, err = addQueryStringSeg(next, segs[1:], val)
+			if err != nil {
+				return nil, errors.Wrapf(err, "addQueryStringSeg %s with %s fail", body, key)
+			}
 		}
 		return jbody, nil
 	case *JSONArray:
+		if !segs[0].isNumber {
+			return nil, errors.Wrapf(ErrTypeMismatch, "invalid array index %s", segs[0])
+		}
 		index := segs[0].number
 		arrSize := int64(jbody.Size())
 		if index < arrSize {
@@ -66,7 +72,10 @@ func addQueryStringSeg(body JSONObject, segs []sTextNumber, val []string) (JSONO
 			if err != nil {
 				return nil, errors.Wrapf(err, "get jsonarray %s at %d fail", body, index)
 			}
-			addQueryStringSeg(next, segs[1:], val)
+			_, err = addQueryStringSeg(next, segs[1:], val)
+			if err != nil {
+				return nil, errors.Wrapf(err, "addQueryStringSeg %s at %d fail", body, index)
+			}
 		} else if arrSize == index {
 			// new
 			next, err := addQueryStringSeg(nil, segs[1:], val)
-- 
2.43.0


From 5a12b059ebc94f72efb9d9483311a2be10b3d025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 27/35] fix: keep the spelling of query string keys such as 01

---
 stringsegment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stringsegment.go b/stringsegment.go
index 78edf2b..66afb5c 100644
--- a/stringsegment.go
+++ b/stringsegment.go
@@ -65,7 +65,8 @@ func (tn sTextNumber) String() string {
 
 func string2TextNumber(str string) sTextNumber {
 	num, err := strconv.ParseInt(str, 10, 64)
-	if err != nil {
+	if err != nil || num < 0 || strconv.FormatInt(num, 10) != str {
+		// only the canonical spelling of an index is a number
 		return sTextNumber{text: str, isNumber: false}
 	} else {
 		return sTextNumber{number: num, isNumber: true}
-- 
2.43.0


From 44f7f0701f5f26b769afbe93562fd1f035b88099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 28/35] fix: do not panic after unmarshalling into an
 unexported embedded struct

---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index bc76b25..9d706b5 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -631,6 +631,10 @@ func callStructAfterUnmarshal(val reflect.Value) {
 			}
 		}
 		valPtr := val.Addr()
+		if !valPtr.CanInterface() {
+			// unexported embedded struct, its method cannot be called by reflection
+			return
+		}
 		afterMarshalFunc := valPtr.MethodByName("AfterUnmarshal")
 		if afterMarshalFunc.IsValid() && !afterMarshalFunc.IsNil() {
 			afterMarshalFunc.Call([]reflect.Value{})
-- 
2.43.0


From 910bf4d0e666fdd637439465502c7e1bf142ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 29/35] fix: limit the nesting depth of query string keys

A key with millions of segments overflowed the goroutine stack, which
cannot be recovered.
---
 querystring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/querystring.go b/querystring.go
index cc618a6..8c8a305 100644
--- a/querystring.go
+++ b/querystring.go
@@ -104,6 +104,9 @@ func (this *JSONDict) parseQueryString(str string) error {
 	segmentKeys := strings2stringSegments(keys)
 	sort.Sort(segmentKeys)
 	for _, segs := range segmentKeys {
+		if len(segs) > maxParseDepth {
+			return errors.Wrapf(ErrOutOfKeyRange, "key of %d segments nested too deep", len(segs))
+		}
 		_, err := addQueryStringSeg(this, segs, m[segments2string(segs)])
 		if err != nil {
 			return errors.Wrap(err, "addQueryStringSeg")
-- 
2.43.0


From 9aa95938fea52fdba1fc4ae11b357edb810bd707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 30/35] fix: do not call an AfterUnmarshal method that takes
 parameters

---
 unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 9d706b5..241ed91 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -636,7 +636,7 @@ func callStructAfterUnmarshal(val reflect.Value) {
 			return
 		}
 		afterMarshalFunc := valPtr.MethodByName("AfterUnmarshal")
-		if afterMarshalFunc.IsValid() && !afterMarshalFunc.IsNil() {
+		if afterMarshalFunc.IsValid() && !afterMarshalFunc.IsNil() && afterMarshalFunc.Type().NumIn() == 0 {
 			afterMarshalFunc.Call([]reflect.Value{})
 		}
 	case reflect.Ptr:
-- 
2.43.0


From 9e6b1157d33d504ed15129fc1fd9d7d5b6199405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 31/35] fix: unmarshal a dict into an interface whose
 implementation is a node type

---
 unmarshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 241ed91..5c0a82f 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -501,7 +501,7 @@ func (this *JSONDict) _unmarshalValue(s *sJsonUnmarshalSession, val reflect.Valu
 			if objPtr == nil {
 				return setInterfaceValue(val, reflect.ValueOf(this))
 			}
-			err = this.unmarshalValue(s, reflect.ValueOf(objPtr))
+			err = this.unmarshalValue(s, reflect.Indirect(reflect.ValueOf(objPtr)))
 			if err != nil {
 				return errors.Wrap(err, "unmarshalValue")
 			}
-- 
2.43.0


From 6d36bca4e6973a6f098792b382894410203f8bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 32/35] fix: report a struct field that cannot be set instead
 of panicking

---
 unmarshal.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unmarshal.go b/unmarshal.go
index 5c0a82f..2ae28a4 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -584,6 +584,10 @@ func setStructFieldAt(s *sJsonUnmarshalSession, key string, v JSONObject, fieldV
 		if fieldValues[index].Parent != nil && fieldValues[index].Parent.Field.IsNil() {
 			fieldValues[index].Parent.Field.Set(fieldValues[index].Parent.Value)
 		}
+		if !fieldValues[index].Value.CanSet() {
+			// field of a struct embedded by value in an interface
+			return errors.Wrapf(ErrTypeMismatch, "field %s cannot be set", key)
+		}
 		err := v.unmarshalValue(s, fieldValues[index].Value)
 		if err != nil {
 			return errors.Wrap(err, "JSONDict.unmarshalStruct")
-- 
2.43.0


From fba391813805e9c331242e7898bbaea2623baf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:37 +0000
Subject: [PATCH 33/35] fix: report an object or array the text ends in instead
 of accepting it

---
 jsonutils.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonutils.go b/jsonutils.go
index 13c1bee..297c5ed 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -513,6 +513,9 @@ func (s *sJsonParseSession) parseDict(str []byte, offset int) (sortedmap.SSorted
 			return smap, i, nodeId, NewJSONError(str, i, "Unexpected char")
 		}
 	}
+	if !stop {
+		return smap, i, nodeId, NewJSONError(str, i, "Truncated")
+	}
 	return smap, i, nodeId, nil
 }
 
@@ -571,6 +574,9 @@ func (s *sJsonParseSession) parseArray(str []byte, offset int) ([]JSONObject, in
 			return list, i, NewJSONError(str, i, "Unexpected char")
 		}
 	}
+	if !stop {
+		return list, i, NewJSONError(str, i, "Truncated")
+	}
 	return list, i, nil
 }
 
-- 
2.43.0


From 50e0ec28c25c0643e8117a82491d99f066d2bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:40 +0000
Subject: [PATCH 34/35] fix: report a quoted string without its closing quote
 instead of accepting it

---
 jsonutils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsonutils.go b/jsonutils.go
index 297c5ed..8f32613 100644
--- a/jsonutils.go
+++ b/jsonutils.go
@@ -168,7 +168,6 @@ func parseQuoteString(str []byte, offset int, quotec byte) (string, int, error)
 		runen     int
 		i         = offset
 	)
-ret:
 	for i < len(str) {
 		switch str[i] {
 		case '\\':
@@ -235,13 +234,13 @@ ret:
 			}
 		case quotec:
 			i++
-			break ret
+			return string(buffer), i, nil
 		default:
 			buffer = append(buffer, str[i])
 			i++
 		}
 	}
-	return string(buffer), i, nil
+	return "", i, NewJSONError(str, i, "Incomplete string")
 }
 
 func parseString(str []byte, offset int) (string, bool, int, error) {
-- 
2.43.0


From 331767e504f5aa329c1d333ca937c63023c2b307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:09 +0000
Subject: [PATCH 35/35] fix: marshal a map with a key that does not equal
 itself, such as NaN

---
 marshal.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/marshal.go b/marshal.go
index 06c8bd6..fb9fb34 100644
--- a/marshal.go
+++ b/marshal.go
@@ -60,11 +60,16 @@ func (s *sJsonMarshalSession) marshalSlice(val reflect.Value, info *reflectutils
 	}
 }
 
-type tMapKeys []reflect.Value
+type sMapEntry struct {
+	key reflect.Value
+	val reflect.Value
+}
+
+type tMapEntries []sMapEntry
 
-func (a tMapKeys) Len() int           { return len(a) }
-func (a tMapKeys) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
-func (a tMapKeys) Less(i, j int) bool { return mapKeyString(a[i]) < mapKeyString(a[j]) }
+func (a tMapEntries) Len() int           { return len(a) }
+func (a tMapEntries) Swap(i, j int)      { a[i], a[j] = a[j], a[i] }
+func (a tMapEntries) Less(i, j int) bool { return mapKeyString(a[i].key) < mapKeyString(a[j].key) }
 
 func mapKeyString(key reflect.Value) string {
 	return fmt.Sprintf("%v", key)
@@ -78,18 +83,21 @@ func (s *sJsonMarshalSession) marshalMap(val reflect.Value, info *reflectutils.S
 			return nil
 		}
 	}
-	keys := val.MapKeys()
-	if len(keys) == 0 && info != nil && info.OmitEmpty && omitEmpty {
+	if val.Len() == 0 && info != nil && info.OmitEmpty && omitEmpty {
 		return nil
 	}
+	// a key that does not equal itself, such as NaN, cannot be looked up again
+	entries := make([]sMapEntry, 0, val.Len())
+	for iter := val.MapRange(); iter.Next(); {
+		entries = append(entries, sMapEntry{key: iter.Key(), val: iter.Value()})
+	}
 	// sort keys
-	sort.Sort(tMapKeys(keys))
+	sort.Sort(tMapEntries(entries))
 	objPairs := make([]JSONPair, 0)
-	for i := 0; i < len(keys); i += 1 {
-		key := keys[i]
-		val := s.marshalValue(val.MapIndex(key), nil, omitEmpty)
+	for i := 0; i < len(entries); i += 1 {
+		val := s.marshalValue(entries[i].val, nil, omitEmpty)
 		if val != nil {
-			objPairs = append(objPairs, JSONPair{key: mapKeyString(key), val: val})
+			objPairs = append(objPairs, JSONPair{key: mapKeyString(entries[i].key), val: val})
 		}
 	}
 	dict := NewDict(objPairs...)
-- 
2.43.0

