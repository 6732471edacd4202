From 1c8ff097944dda3a428f3945661eac00a6d0909f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 01/18] fix: read object array elements with the dump's
 identifier size

With 4-byte identifiers the 8-byte decode of a 4-byte slice panicked.
---
 internal/java/heap.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index f82e707..fe71010 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -11,7 +11,6 @@ package java
 
 import (
 	"bytes"
-	"encoding/binary"
 	"fmt"
 	"io"
 
@@ -229,8 +228,11 @@ func (h *Heap) ParseObjectArrayFull(arrayObjectId core.Identifier) (ObjectArray,
 		if err != nil {
 			return ObjectArray{}, fmt.Errorf("error reading element of object array with id %v: %w", arrayObjectId, err)
 		}
-		id := binary.BigEndian.Uint64(e)
-		elements = append(elements, core.Identifier(id))
+		id, err := core.NewPrimitiveParser(bytes.NewReader(e), h.parsedAccessor.IdentifierSize).ParseIdentifier()
+		if err != nil {
+			return ObjectArray{}, fmt.Errorf("error reading element of object array with id %v: %w", arrayObjectId, err)
+		}
+		elements = append(elements, id)
 	}
 	return ObjectArray{
 		ArrayClassId: header.ArrayClassId,
-- 
2.43.0


From 3397b6c4b6559b596c3e954427ebb93c94ae0e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 02/18] fix: report a failure to write the last batches of the
 index

The error of the deferred Close was dropped, so a truncated index was
taken for a complete one.
---
 internal/dump/parser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 9504907..2b346ff 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -58,7 +58,7 @@ func (creator *Parser) GetPosition() int {
 
 // ParseHeapDump parses heap dump to storages.
 // Can be used with arbitrary io.Reader.
-func (parser *Parser) ParseHeapDump() error {
+func (parser *Parser) ParseHeapDump() (err error) {
 	bufferedHeapDump := bufio.NewReader(parser.heapDump)
 	fileHeader, err := core.ParseFileHeader(bufferedHeapDump)
 	if err != nil {
@@ -75,7 +75,13 @@ func (parser *Parser) ParseHeapDump() error {
 
 	parser.pos = 31
 
-	defer parser.bigRecordsWriteStorage.Close()
+	// closing writes the last batches of the index, it is not
+	// complete if that fails
+	defer func() {
+		if closeErr := parser.bigRecordsWriteStorage.Close(); closeErr != nil && err == nil {
+			err = fmt.Errorf("error writing index: %w", closeErr)
+		}
+	}()
 
 	for {
 		header, err := recordParser.ParseRecordHeader()
-- 
2.43.0


From d6ce7c1b3740638c047a64a14bb21346268d0c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 03/18] fix: decode Java strings according to their coder

The raw bytes of the value array were printed, which is right only for
ASCII: LATIN1 characters above 127 came out as invalid UTF-8 and UTF16
strings with embedded zero bytes.
---
 internal/java/heap.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index fe71010..8670e44 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -11,8 +11,10 @@ package java
 
 import (
 	"bytes"
+	"encoding/binary"
 	"fmt"
 	"io"
+	"unicode/utf16"
 
 	"github.com/danielleontiev/neojhat/internal/core"
 	"github.com/danielleontiev/neojhat/internal/dump"
@@ -72,7 +74,12 @@ func (h *Heap) ParseJavaString(str core.JavaValue) (string, error) {
 					if err != nil {
 						return "", fmt.Errorf("error reading `value` array for string %v: %w", str, err)
 					}
-					return string(byteArr), nil
+					var coder int8 = coderLatin1
+					// compact strings tell their encoding apart with `coder`
+					if coderField, err := javaString.GetFieldValueByName("coder"); err == nil {
+						coder, _ = coderField.Value.Value.(int8)
+					}
+					return decodeString(byteArr, coder), nil
 				}
 				return "", fmt.Errorf("malformed java string, `value` is not a reference to array (%T)", value.Value.Value)
 			}
@@ -83,6 +90,30 @@ func (h *Heap) ParseJavaString(str core.JavaValue) (string, error) {
 	return "", fmt.Errorf("passed value (%v) is not reference to object", str)
 }
 
+// values of `coder` field of java.lang.String
+const (
+	coderLatin1 = 0
+	coderUtf16  = 1
+)
+
+// decodeString converts the content of `value` array of
+// java.lang.String: one byte per char for LATIN1, two bytes
+// per char in (little-endian) byte order of the JVM for UTF16.
+func decodeString(value []byte, coder int8) string {
+	if coder == coderUtf16 {
+		units := make([]uint16, len(value)/2)
+		for i := range units {
+			units[i] = binary.LittleEndian.Uint16(value[2*i:])
+		}
+		return string(utf16.Decode(units))
+	}
+	runes := make([]rune, len(value))
+	for i, b := range value {
+		runes[i] = rune(b)
+	}
+	return string(runes)
+}
+
 func (h *Heap) parseByteArrayFull(arrayObjectId core.Identifier) ([]byte, error) {
 	header, err := h.parsedAccessor.GetHprofGcPrimArray(arrayObjectId)
 	if err != nil {
-- 
2.43.0


From ba911de0101762d8147f76ed738f1367e1141273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 04/18] fix: read all properties of a hash bucket

Only the first node of each bucket was read, so system properties whose
keys collide were missing from the summary; a bucket turned into a tree
made it fail.
---
 internal/summary/summary.go | 53 ++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index c855894..c77c221 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -16,6 +16,7 @@ import (
 const (
 	javaLangSystemClassName          = "java/lang/System"
 	managementFactoryHelperClassName = "sun/management/ManagementFactoryHelper"
+	treeBinClassName                 = "java/util/concurrent/ConcurrentHashMap$TreeBin"
 )
 
 type Properties = map[string]string
@@ -136,32 +137,60 @@ func getAllProps(parsedAccessor *dump.ParsedAccessor) (Properties, error) {
 		return nil, err
 	}
 	resultProps := make(map[string]string)
-	for _, nodeObjectId := range table.Elements {
-		if nodeObjectId != 0 {
-			node, err := heap.ParseNormalObject(nodeObjectId)
-			if err != nil {
-				return nil, err
-			}
+	for _, bucketObjectId := range table.Elements {
+		if err := readBucket(heap, bucketObjectId, resultProps); err != nil {
+			return nil, err
+		}
+	}
+	return Properties(resultProps), nil
+}
+
+// readBucket reads all nodes of one bucket of ConcurrentHashMap. Colliding
+// keys are stored in the linked list of nodes. If there are many of them, the
+// list is headed by the TreeBin which does not have key and value itself.
+func readBucket(heap *java.Heap, nodeObjectId core.Identifier, props Properties) error {
+	visited := make(map[core.Identifier]bool)
+	for nodeObjectId != 0 {
+		if visited[nodeObjectId] {
+			return fmt.Errorf("malformed properties, cycle at node with id %v", nodeObjectId)
+		}
+		visited[nodeObjectId] = true
+		node, err := heap.ParseNormalObject(nodeObjectId)
+		if err != nil {
+			return err
+		}
+		nextFieldName := "next"
+		if node.Class.Name == treeBinClassName {
+			nextFieldName = "first"
+		} else {
 			key, err := node.GetFieldValueByName("key")
 			if err != nil {
-				return nil, err
+				return err
 			}
 			val, err := node.GetFieldValueByName("val")
 			if err != nil {
-				return nil, err
+				return err
 			}
 			keyString, err := heap.ParseJavaString(key.Value)
 			if err != nil {
-				return nil, err
+				return err
 			}
 			valString, err := heap.ParseJavaString(val.Value)
 			if err != nil {
-				return nil, err
+				return err
 			}
-			resultProps[keyString] = valString
+			props[keyString] = valString
+		}
+		next, err := node.GetFieldValueByName(nextFieldName)
+		if err != nil {
+			return err
+		}
+		nodeObjectId, err = next.Value.ToObject()
+		if err != nil {
+			return err
 		}
 	}
-	return Properties(resultProps), nil
+	return nil
 }
 
 func getEnv(props Properties) EnvProperties {
-- 
2.43.0


From 74d7c139315cc5a274ae5072d0bc32358f9205f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:25 +0000
Subject: [PATCH 05/18] fix: no division by zero in objects report when total
 size is zero

---
 internal/output/objects.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/output/objects.go b/internal/output/objects.go
index 0792079..c2cab17 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -113,8 +113,8 @@ func getPrintItems(o objects.Objects) printObject {
 	for _, item := range o.Items {
 		printItems = append(printItems, printItem{
 			Name:           format.ClassName(item.Name),
-			InstancesCount: fmt.Sprintf("%v (%v%%)", item.InstancesCount, 100*item.InstancesCount/o.TotalCount),
-			TotalSize:      fmt.Sprintf("%v (%v%%)", format.Size(item.TotalSize), 100*item.TotalSize/o.TotalSize),
+			InstancesCount: fmt.Sprintf("%v (%v%%)", item.InstancesCount, percent(item.InstancesCount, o.TotalCount)),
+			TotalSize:      fmt.Sprintf("%v (%v%%)", format.Size(item.TotalSize), percent(item.TotalSize, o.TotalSize)),
 		})
 	}
 	printObj.TotalCount = strconv.Itoa(o.TotalCount)
@@ -123,6 +123,15 @@ func getPrintItems(o objects.Objects) printObject {
 	return printObj
 }
 
+// percent is the part of total in percents, total
+// can be zero f.e. if all arrays in the dump are empty
+func percent(part, total int) int {
+	if total == 0 {
+		return 0
+	}
+	return 100 * part / total
+}
+
 var (
 	//go:embed templates/objects.html
 	objectsHtml string
-- 
2.43.0


From 01af626da13319d386464b9e71364f00770c74e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 06/18] fix: deterministic order of rows with equal names in
 objects report

Classes of the same name (loaded by several class loaders) with the same
sort key were printed in random order of map iteration.
---
 internal/output/objects.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/output/objects.go b/internal/output/objects.go
index c2cab17..90ba46d 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -95,6 +95,9 @@ func getPrintItems(o objects.Objects) printObject {
 		}
 		sort.Slice(o.Items, func(i, j int) bool {
 			if o.Items[i].TotalSize == o.Items[j].TotalSize {
+				if o.Items[i].Name == o.Items[j].Name {
+					return o.Items[i].InstancesCount > o.Items[j].InstancesCount
+				}
 				return o.Items[i].Name < o.Items[j].Name
 			}
 			return o.Items[i].TotalSize > o.Items[j].TotalSize
@@ -105,6 +108,9 @@ func getPrintItems(o objects.Objects) printObject {
 		}
 		sort.Slice(o.Items, func(i, j int) bool {
 			if o.Items[i].InstancesCount == o.Items[j].InstancesCount {
+				if o.Items[i].Name == o.Items[j].Name {
+					return o.Items[i].TotalSize > o.Items[j].TotalSize
+				}
 				return o.Items[i].Name < o.Items[j].Name
 			}
 			return o.Items[i].InstancesCount > o.Items[j].InstancesCount
-- 
2.43.0


From d7bc2c7338c1e015e56d4c65ecea437ef1958f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 07/18] fix: progress bar does not panic on truncated and empty
 dumps

The bar was given a negative number of blocks when the position passed
the size of the file (or the size was zero). It is also erased now when
parsing fails.
---
 internal/cmd/interactive_print.go | 7 ++++++-
 internal/cmd/subcommands.go       | 5 +++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/cmd/interactive_print.go b/internal/cmd/interactive_print.go
index 0e0cc7e..ab0cdaa 100644
--- a/internal/cmd/interactive_print.go
+++ b/internal/cmd/interactive_print.go
@@ -37,7 +37,12 @@ func clearLine() {
 
 func progressBar(max int, positionFn func() int, label string) func() string {
 	return func() string {
-		progress := 100 * float64(positionFn()) / float64(max)
+		// position may run ahead of max if the dump is truncated
+		// or grows while it is being parsed
+		progress := 100.0
+		if position := positionFn(); position < max {
+			progress = 100 * float64(position) / float64(max)
+		}
 		blocksNumber := int(progress / 2)
 		blocks := strings.Repeat("▮", blocksNumber) + strings.Repeat("▯", 50-blocksNumber)
 		str := fmt.Sprintf("%s: %.2f%% [%s]", label, progress, blocks)
diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index fe97a22..d115a22 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -211,10 +211,11 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	metaWriter := storage.NewMetaWriteStorage()
 	parser := dump.NewParser(hprof, smallWriter, bigWriter, metaWriter)
 	cancel := interactive(progressBar(int(stat.Size()), parser.GetPosition, "Parsing"), nonInteractive)
-	if err := parser.ParseHeapDump(); err != nil {
+	err = parser.ParseHeapDump()
+	cancel()
+	if err != nil {
 		return fmt.Errorf("can't create index: %w", err)
 	}
-	cancel()
 
 	smallRecordsFile, err := os.OpenFile(hprofFileName+storageDirSuffix+smallRecordsFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
-- 
2.43.0


From 8fffbcae06cd370bbb3841331a055124d3fdbd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 08/18] fix: refuse HPROF_UTF8 record with malformed length

A length shorter than the identifier wrapped around to almost 4 GiB, and
the declared length was allocated before checking that it is there.
---
 internal/core/base_parsers.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 90f2206..326e5d7 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -45,11 +45,18 @@ func (parser *RecordParser) ParseHprofUtf8(remaining uint32) (HprofUtf8, error)
 	if err != nil {
 		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: %w", err)
 	}
-	buf := make([]byte, remaining-parser.primitiveParser.identifierSize)
-	_, err = io.ReadFull(parser.primitiveParser.heapDump, buf)
+	if remaining < parser.primitiveParser.identifierSize {
+		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: malformed record length %v", remaining)
+	}
+	length := int64(remaining - parser.primitiveParser.identifierSize)
+	// do not trust length and allocate it all at once, it could be malformed
+	buf, err := io.ReadAll(io.LimitReader(parser.primitiveParser.heapDump, length))
 	if err != nil {
 		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: %w", err)
 	}
+	if int64(len(buf)) != length {
+		return HprofUtf8{}, fmt.Errorf("error in ParseHprofUtf8: %w", io.ErrUnexpectedEOF)
+	}
 	return HprofUtf8{
 		Identifier: identifier,
 		Characters: string(buf),
-- 
2.43.0


From 798e2622f05698514d1904ff8a8c888b4534b6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 09/18] fix: refuse unknown types of array elements and
 instance fields

Such dumps made the tool panic while computing sizes, at once for arrays
or later when an instance was read.
---
 internal/core/base_parsers.go | 3 +++
 internal/core/types.go        | 6 ++++++
 internal/dump/parser.go       | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 326e5d7..6e2664f 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -435,6 +435,9 @@ func (parser *RecordParser) parseHprofGcClassDumpInstanceFieldsRecord() (HprofGc
 	if err != nil {
 		return HprofGcClassDumpInstanceFieldsRecord{}, fmt.Errorf("error in ParseHprofGcClassDumpInstanceFieldsRecord: %w", err)
 	}
+	if !ty.IsValid() {
+		return HprofGcClassDumpInstanceFieldsRecord{}, fmt.Errorf("error in ParseHprofGcClassDumpInstanceFieldsRecord: unexpected Java type: %v", byte(ty))
+	}
 	return HprofGcClassDumpInstanceFieldsRecord{
 		InstanceFieldName: instanceFieldName,
 		Ty:                ty,
diff --git a/internal/core/types.go b/internal/core/types.go
index fb7a2b9..c0f272f 100644
--- a/internal/core/types.go
+++ b/internal/core/types.go
@@ -70,6 +70,12 @@ func (j JavaType) String() string {
 	return "unknown"
 }
 
+// IsValid tells if the type is one of the known Java types.
+func (j JavaType) IsValid() bool {
+	_, ok := javaTypeMap[j]
+	return ok
+}
+
 // JavaValue wraps type of the
 // constant and the value converted
 // to corresponding Go type.
diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 2b346ff..5836b4f 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -205,6 +205,9 @@ func (parser *Parser) ParseHeapDump() (err error) {
 					if err != nil {
 						return fmt.Errorf("error parsing HprofGcPrimArrayDump: %w", err)
 					}
+					if !record.ElementType.IsValid() || record.ElementType == core.Object {
+						return fmt.Errorf("error parsing HprofGcPrimArrayDump: unexpected element type: %v", byte(record.ElementType))
+					}
 					if err := parser.bigRecordsWriteStorage.HprofGcPrimArrayDumpPutOffset(record.ArrayObjectId, parser.pos); err != nil {
 						return fmt.Errorf("indexing error: HprofGcPrimArrayDumpPutOffset: %w", err)
 					}
-- 
2.43.0


From 256dbe6f21ae93e322266f166efff52cb5347e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 10/18] fix: parse all GC root kinds and refuse unknown
 sub-records

HPROF_GC_ROOT_MONITOR_USED and other roots written by HotSpot were not
recognized, and bytes of unrecognized sub-records were skipped one by one
and taken for other sub-records.
---
 internal/core/base_parsers.go | 17 +++++++++++++++++
 internal/core/records.go      |  7 +++++++
 internal/core/sizes.go        |  6 ++++++
 internal/core/tags.go         |  9 +++++++++
 internal/dump/parser.go       | 10 ++++++++++
 internal/storage/small.go     |  9 +++++++++
 internal/summary/summary.go   |  2 +-
 7 files changed, 59 insertions(+), 1 deletion(-)

diff --git a/internal/core/base_parsers.go b/internal/core/base_parsers.go
index 6e2664f..205a72f 100644
--- a/internal/core/base_parsers.go
+++ b/internal/core/base_parsers.go
@@ -271,6 +271,23 @@ func (parser *RecordParser) ParseHprofGcRootStickyClass() (HprofGcRootStickyClas
 	return HprofGcRootStickyClass{ObjectId: objectId}, nil
 }
 
+// ParseHprofGcRootOther reads HPROF_GC_ROOT_NATIVE_STACK, HPROF_GC_ROOT_THREAD_BLOCK,
+// HPROF_GC_ROOT_MONITOR_USED and HPROF_GC_ROOT_UNKNOWN sub-records.
+func (parser *RecordParser) ParseHprofGcRootOther(rootType SubRecordType) (HprofGcRootOther, error) {
+	objectId, err := parser.primitiveParser.ParseIdentifier()
+	if err != nil {
+		return HprofGcRootOther{}, fmt.Errorf("error in ParseHprofGcRootOther: %w", err)
+	}
+	switch rootType {
+	case HprofGcRootNativeStackType, HprofGcRootThreadBlockType:
+		// thread serial number
+		if _, err := parser.primitiveParser.ParseUint32(); err != nil {
+			return HprofGcRootOther{}, fmt.Errorf("error in ParseHprofGcRootOther: %w", err)
+		}
+	}
+	return HprofGcRootOther{Type: rootType, ObjectId: objectId}, nil
+}
+
 // ParseHprofGcClassDump reads HPROF_GC_CLASS_DUMP sub-record.
 func (parser *RecordParser) ParseHprofGcClassDump() (HprofGcClassDump, error) {
 	classObjectId, err := parser.primitiveParser.ParseIdentifier()
diff --git a/internal/core/records.go b/internal/core/records.go
index 92a28c3..350af5f 100644
--- a/internal/core/records.go
+++ b/internal/core/records.go
@@ -84,6 +84,13 @@ type HprofGcRootStickyClass struct {
 	ObjectId Identifier
 }
 
+// HprofGcRootOther is GC root of any other kind. Such roots
+// are only counted.
+type HprofGcRootOther struct {
+	Type     SubRecordType
+	ObjectId Identifier
+}
+
 type HprofGcClassDump struct {
 	ClassObjectId            Identifier
 	StackTraceSerialNumber   uint32
diff --git a/internal/core/sizes.go b/internal/core/sizes.go
index 93342fd..cbb4876 100644
--- a/internal/core/sizes.go
+++ b/internal/core/sizes.go
@@ -22,6 +22,12 @@ func (s SizeInfo) Of(record any) int {
 		return s.idSize
 	case HprofGcRootThreadObj:
 		return s.idSize + 2*4
+	case HprofGcRootOther:
+		switch v.Type {
+		case HprofGcRootNativeStackType, HprofGcRootThreadBlockType:
+			return s.idSize + 4
+		}
+		return s.idSize
 	case HprofGcClassDump:
 		fieldsSize := 7*s.idSize + 2*4 + 3*2
 		var constantPoolSize int
diff --git a/internal/core/tags.go b/internal/core/tags.go
index f94332f..c7fe7c3 100644
--- a/internal/core/tags.go
+++ b/internal/core/tags.go
@@ -42,6 +42,11 @@ const (
 	HprofGcInstanceDumpType    SubRecordType = 0x21
 	HprofGcObjArrayDumpType    SubRecordType = 0x22
 	HprofGcPrimArrayDumpType   SubRecordType = 0x23
+
+	HprofGcRootNativeStackType SubRecordType = 0x04
+	HprofGcRootThreadBlockType SubRecordType = 0x06
+	HprofGcRootMonitorUsedType SubRecordType = 0x07
+	HprofGcRootUnknownType     SubRecordType = 0xff
 )
 
 // these duplicated tags from Tags to be able to exit parse subrecords loop.
@@ -60,6 +65,10 @@ var subRecordTypeMap = map[SubRecordType]string{
 	HprofGcInstanceDumpType:    "HPROF_GC_INSTANCE_DUMP",
 	HprofGcObjArrayDumpType:    "HPROF_GC_OBJ_ARRAY_DUMP",
 	HprofGcPrimArrayDumpType:   "HPROF_GC_PRIM_ARRAY_DUMP",
+	HprofGcRootNativeStackType: "HPROF_GC_ROOT_NATIVE_STACK",
+	HprofGcRootThreadBlockType: "HPROF_GC_ROOT_THREAD_BLOCK",
+	HprofGcRootMonitorUsedType: "HPROF_GC_ROOT_MONITOR_USED",
+	HprofGcRootUnknownType:     "HPROF_GC_ROOT_UNKNOWN",
 }
 
 func (s SubRecordType) String() string {
diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 5836b4f..78d24b6 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -165,6 +165,14 @@ func (parser *Parser) ParseHeapDump() (err error) {
 					}
 					parser.smallRecordsWriteStorage.PutHprofGcRootThreadObj(record)
 					parser.pos += size.Of(record)
+				case core.HprofGcRootNativeStackType, core.HprofGcRootThreadBlockType,
+					core.HprofGcRootMonitorUsedType, core.HprofGcRootUnknownType:
+					record, err := recordParser.ParseHprofGcRootOther(subRecordHeader.SubRecordType)
+					if err != nil {
+						return fmt.Errorf("error parsing HprofGcRootOther: %w", err)
+					}
+					parser.smallRecordsWriteStorage.PutHprofGcRootOther(record)
+					parser.pos += size.Of(record)
 				case core.HprofGcClassDumpType:
 					record, err := recordParser.ParseHprofGcClassDump()
 					if err != nil {
@@ -229,6 +237,8 @@ func (parser *Parser) ParseHeapDump() (err error) {
 					}
 					parser.pos--
 					break loop
+				default:
+					return fmt.Errorf("unknown sub-record type: %v", subRecordHeader.SubRecordType)
 				}
 			}
 		case core.HprofHeapDumpEndTag:
diff --git a/internal/storage/small.go b/internal/storage/small.go
index 06fd701..fe4b0dc 100644
--- a/internal/storage/small.go
+++ b/internal/storage/small.go
@@ -25,6 +25,7 @@ type underlyingStorage struct {
 	HprofGcRootJavaFrame   []core.HprofGcRootJavaFrame
 	HprofGcRootStickyClass []core.HprofGcRootStickyClass
 	HprofGcRootThreadObj   []core.HprofGcRootThreadObj
+	HprofGcRootOther       []core.HprofGcRootOther
 	HprofGcClassDump       map[core.Identifier]core.HprofGcClassDump
 }
 
@@ -112,6 +113,10 @@ func (s *SmallRecordsWriteStorage) PutHprofGcRootThreadObj(record core.HprofGcRo
 	s.HprofGcRootThreadObj = append(s.HprofGcRootThreadObj, record)
 }
 
+func (s *SmallRecordsWriteStorage) PutHprofGcRootOther(record core.HprofGcRootOther) {
+	s.HprofGcRootOther = append(s.HprofGcRootOther, record)
+}
+
 func (s *SmallRecordsWriteStorage) PutHprofGcClassDump(record core.HprofGcClassDump) {
 	s.HprofGcClassDump[record.ClassObjectId] = record
 }
@@ -182,6 +187,10 @@ func (s *SmallRecordsReadStorage) ListHprofGcRootThreadObj() []core.HprofGcRootT
 	return s.HprofGcRootThreadObj
 }
 
+func (s *SmallRecordsReadStorage) ListHprofGcRootOther() []core.HprofGcRootOther {
+	return s.HprofGcRootOther
+}
+
 func (s *SmallRecordsReadStorage) GetHprofGcClassDump(classObjectId core.Identifier) (core.HprofGcClassDump, error) {
 	res, ok := s.HprofGcClassDump[classObjectId]
 	if !ok {
diff --git a/internal/summary/summary.go b/internal/summary/summary.go
index c77c221..eef4ff2 100644
--- a/internal/summary/summary.go
+++ b/internal/summary/summary.go
@@ -211,7 +211,7 @@ func getHeap(parsedAccessor *dump.ParsedAccessor) (HeapProperties, error) {
 	classes := parsedAccessor.ListHprofLoadClass()
 	gcRootsCount := len(parsedAccessor.HprofGcRootJavaFrame) + len(parsedAccessor.HprofGcRootJniGlobal) +
 		len(parsedAccessor.HprofGcRootJniLocal) + len(parsedAccessor.ListHprofGcRootStickyClass()) +
-		len(parsedAccessor.ListHprofGcRootThreadObj())
+		len(parsedAccessor.ListHprofGcRootThreadObj()) + len(parsedAccessor.ListHprofGcRootOther())
 	classSet := make(map[core.Identifier]any)
 	var void any
 	for _, c := range classes {
-- 
2.43.0


From f418d7dc92268ee4288d64d4d63eae39a6b73fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 11/18] fix: refuse records whose length does not match their
 content

The declared length was added to the position in the dump whatever was
read, so offsets of all following objects were wrong.
---
 internal/core/sizes.go  | 6 ++++++
 internal/dump/parser.go | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/internal/core/sizes.go b/internal/core/sizes.go
index cbb4876..17bb035 100644
--- a/internal/core/sizes.go
+++ b/internal/core/sizes.go
@@ -12,6 +12,12 @@ func NewSizeInfo(idSize uint32) *SizeInfo {
 
 func (s SizeInfo) Of(record any) int {
 	switch v := record.(type) {
+	case HprofLoadClass:
+		return 2*s.idSize + 2*4
+	case HprofFrame:
+		return 4*s.idSize + 2*4
+	case HprofTrace:
+		return 3*4 + len(v.StackFrameIds)*s.idSize
 	case HprofGcRootJniGlobal:
 		return s.idSize * 2
 	case HprofGcRootJniLocal:
diff --git a/internal/dump/parser.go b/internal/dump/parser.go
index 78d24b6..d660afc 100644
--- a/internal/dump/parser.go
+++ b/internal/dump/parser.go
@@ -105,6 +105,9 @@ func (parser *Parser) ParseHeapDump() (err error) {
 			if err != nil {
 				return fmt.Errorf("error parsing HprofLoadClass: %w", err)
 			}
+			if size.Of(record) != int(header.Remaining) {
+				return fmt.Errorf("error parsing HprofLoadClass: malformed record length %v", header.Remaining)
+			}
 			parser.smallRecordsWriteStorage.PutHprofLoadClass(record)
 			parser.pos += int(header.Remaining)
 		case core.HprofFrameTag:
@@ -112,6 +115,9 @@ func (parser *Parser) ParseHeapDump() (err error) {
 			if err != nil {
 				return fmt.Errorf("error parsing HprofFrame: %w", err)
 			}
+			if size.Of(record) != int(header.Remaining) {
+				return fmt.Errorf("error parsing HprofFrame: malformed record length %v", header.Remaining)
+			}
 			parser.smallRecordsWriteStorage.PutHprofFrame(record)
 			parser.pos += int(header.Remaining)
 		case core.HprofTraceTag:
@@ -119,6 +125,9 @@ func (parser *Parser) ParseHeapDump() (err error) {
 			if err != nil {
 				return fmt.Errorf("error parsing HprofTrace: %w", err)
 			}
+			if size.Of(record) != int(header.Remaining) {
+				return fmt.Errorf("error parsing HprofTrace: malformed record length %v", header.Remaining)
+			}
 			parser.smallRecordsWriteStorage.PutHprofTrace(record)
 			parser.pos += int(header.Remaining)
 		case core.HprofHeapDumpSegmentTag:
-- 
2.43.0


From e48289bb7e2da9bcabbe8ab2cbba36a5c194662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:02 +0000
Subject: [PATCH 12/18] fix: refuse class that is its own superclass instead of
 overflowing the stack

---
 internal/java/heap.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/java/heap.go b/internal/java/heap.go
index 8670e44..edf41c7 100644
--- a/internal/java/heap.go
+++ b/internal/java/heap.go
@@ -132,6 +132,16 @@ func (h *Heap) parseByteArrayFull(arrayObjectId core.Identifier) ([]byte, error)
 // ParseClass parses inforamsion from HPROF_DC_CLASS_DUMP record of a class and all
 // its superclasses.
 func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
+	return h.parseClass(classId, make(map[core.Identifier]bool))
+}
+
+// parseClass is ParseClass with identifiers of the classes that
+// are already being parsed to detect malformed cyclic hierarchies.
+func (h *Heap) parseClass(classId core.Identifier, visited map[core.Identifier]bool) (Class, error) {
+	if visited[classId] {
+		return Class{}, fmt.Errorf("class with id %v is its own superclass", classId)
+	}
+	visited[classId] = true
 	class, err := h.parsedAccessor.GetHprofGcClassDump(classId)
 	if err != nil {
 		return Class{}, fmt.Errorf("error reading class with id %v", classId)
@@ -176,7 +186,7 @@ func (h *Heap) ParseClass(classId core.Identifier) (Class, error) {
 		superClass = nil
 	} else {
 		// TODO not stack safe, fix
-		sc, err := h.ParseClass(class.SuperclassObjectId)
+		sc, err := h.parseClass(class.SuperclassObjectId, visited)
 		if err != nil {
 			return Class{}, fmt.Errorf("error parsing superclass: %w", err)
 		}
-- 
2.43.0


From 46d93a8f3963b495c979a2a4d4e2bca6b4bc5420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 13/18] fix: do not mangle class names with parentheses and
 class objects of arrays

Parentheses are legal in class names (f.e. Kotlin names in backticks) but
were taken for the argument list, bytes of names that are not valid UTF-8
(modified UTF-8 of JVM) were replaced, and local variables referencing
class objects of array classes were printed garbled.
---
 internal/format/format.go  | 15 ++++++++++-----
 internal/output/threads.go |  9 ++++++---
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/internal/format/format.go b/internal/format/format.go
index 8f1dba7..ddc6782 100644
--- a/internal/format/format.go
+++ b/internal/format/format.go
@@ -33,13 +33,18 @@ func Signature(signature string) (string, string) {
 
 	var argLen int
 	activeLen := &argLen
-	for _, s := range signature {
+	for i := range len(signature) {
+		s := signature[i]
 		switch s {
 		case '(':
-			continue
+			if !inClassName {
+				continue
+			}
 		case ')':
-			activeLen = new(int)
-			continue
+			if !inClassName {
+				activeLen = new(int)
+				continue
+			}
 		case '[':
 			dimCount++
 			continue
@@ -60,7 +65,7 @@ func Signature(signature string) (string, string) {
 			if s == '/' {
 				classNameBuffer += "."
 			} else {
-				classNameBuffer += string(s)
+				classNameBuffer += signature[i : i+1]
 			}
 
 		} else {
diff --git a/internal/output/threads.go b/internal/output/threads.go
index 92257f1..50bdd3a 100644
--- a/internal/output/threads.go
+++ b/internal/output/threads.go
@@ -55,12 +55,15 @@ func createPrettyFrame(frame threads.StackFrame) string {
 
 func createPrettyStackVariable(localFrame threads.LocalFrame) string {
 	signature := localFrame.ObjectTypeSignature
+	if className, ok := strings.CutPrefix(signature, "class "); ok { // it's Class<?>
+		if strings.HasPrefix(className, "[") {
+			className, _ = format.Signature(className)
+		}
+		return "class " + format.ClassName(className)
+	}
 	if !strings.HasPrefix(signature, "[") { // it's object
 		signature = "L" + signature + ";"
 	}
-	if strings.HasPrefix(signature, "class") {
-		return signature
-	}
 	arg, _ := format.Signature(signature)
 	return arg
 }
-- 
2.43.0


From 197b8d8c355c6647bcbd9e48baf332f31500ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 14/18] fix: show unknown method signature as unknown

The placeholder text was parsed as if it were JVM signature.
---
 internal/output/threads.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/output/threads.go b/internal/output/threads.go
index 50bdd3a..fd2060f 100644
--- a/internal/output/threads.go
+++ b/internal/output/threads.go
@@ -48,7 +48,7 @@ func createPrettyThread(stackTrace threads.StackTrace) string {
 
 func createPrettyFrame(frame threads.StackFrame) string {
 	prettyClassName := format.ClassName(frame.ClassName)
-	args, ret := format.Signature(frame.MethodSignature)
+	args, ret := createSignature(frame.MethodSignature)
 	prettyLocation := createLocation(frame.FileName, frame.LineNumber)
 	return ret + " " + format.ClassName(prettyClassName) + "." + frame.MethodName + "(" + args + ")" + " " + prettyLocation
 }
@@ -68,6 +68,13 @@ func createPrettyStackVariable(localFrame threads.LocalFrame) string {
 	return arg
 }
 
+func createSignature(methodSignature string) (args, ret string) {
+	if methodSignature == threads.UnknownString {
+		return "", threads.UnknownString
+	}
+	return format.Signature(methodSignature)
+}
+
 func createLocation(fileName, lineNumber string) string {
 	if fileName == threads.UnknownString {
 		return ""
@@ -107,7 +114,7 @@ func ThreadsPlainColor(threadDump threads.ThreadDump, localVars bool) {
 
 func createPrettyColorfulFrame(frame threads.StackFrame) string {
 	prettyClassName := Yellow(format.ClassName(frame.ClassName))
-	args, ret := format.Signature(frame.MethodSignature)
+	args, ret := createSignature(frame.MethodSignature)
 	prettyLocation := Cyan(createLocation(frame.FileName, frame.LineNumber))
 	return ret + " " + prettyClassName + Yellow(".") + Red(frame.MethodName) + "(" + args + ")" + " " + prettyLocation
 }
@@ -154,7 +161,7 @@ func ThreadsHtml(threadDump threads.ThreadDump, localVars bool, destination io.W
 			for _, s := range f.LocalFrames {
 				stackVariables = append(stackVariables, createPrettyStackVariable(s))
 			}
-			args, ret := format.Signature(f.MethodSignature)
+			args, ret := createSignature(f.MethodSignature)
 			loc := createLocation(f.FileName, f.LineNumber)
 			frames = append(frames, printFrame{
 				ClassName:   format.ClassName(f.ClassName),
-- 
2.43.0


From 75bae8a3760e96b62b389916bc895c8b537c9c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:48 +0000
Subject: [PATCH 15/18] fix: report errors of writing plain reports to stdout

They were ignored, so the exit status was zero even if nothing could be
written, f.e. when the disk is full.
---
 internal/cmd/subcommands.go | 43 ++++++++++++++++++++++++-------------
 internal/output/objects.go  |  5 ++---
 internal/output/summary.go  |  5 ++---
 internal/output/threads.go  | 10 ++++-----
 4 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index d115a22..83df247 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -1,6 +1,7 @@
 package cmd
 
 import (
+	"bufio"
 	"fmt"
 	"os"
 
@@ -61,16 +62,20 @@ func GetThreads(hprofFileName string, noColor, localVars bool, outputType Output
 	if err != nil {
 		return fmt.Errorf("can't parse thread dump: %w", err)
 	}
+	stdout := bufio.NewWriter(os.Stdout)
 	if outputType == Plain {
 		if noColor {
-			output.ThreadsPlain(threadDump, localVars, os.Stdout)
-			return nil
+			output.ThreadsPlain(threadDump, localVars, stdout)
+			return stdout.Flush()
 		}
-		output.ThreadsPlainColor(threadDump, localVars)
-		return nil
+		output.ThreadsPlainColor(threadDump, localVars, stdout)
+		return stdout.Flush()
 	}
 	if outputType == Html {
-		return output.ThreadsHtml(threadDump, localVars, os.Stdout)
+		if err := output.ThreadsHtml(threadDump, localVars, stdout); err != nil {
+			return err
+		}
+		return stdout.Flush()
 	}
 	return fmt.Errorf("unknown output type '%s'", &outputType)
 }
@@ -111,16 +116,20 @@ func GetSummary(hprofFileName string, noColor, allProps bool, outputType OutputT
 	if err != nil {
 		return fmt.Errorf("can't parse summary: %w", err)
 	}
+	stdout := bufio.NewWriter(os.Stdout)
 	if outputType == Plain {
 		if noColor {
-			output.SummaryPlain(s, os.Stdout)
-			return nil
+			output.SummaryPlain(s, stdout)
+			return stdout.Flush()
 		}
-		output.SummaryPlainColor(s)
-		return nil
+		output.SummaryPlainColor(s, stdout)
+		return stdout.Flush()
 	}
 	if outputType == Html {
-		return output.SummaryHtml(s, os.Stdout)
+		if err := output.SummaryHtml(s, stdout); err != nil {
+			return err
+		}
+		return stdout.Flush()
 	}
 	return fmt.Errorf("unknown output type '%s'", &outputType)
 }
@@ -161,16 +170,20 @@ func GetObjects(hprofFileName string, noColor bool, sortBy objects.SortBy, outpu
 	if err != nil {
 		return fmt.Errorf("can't parse objects: %w", err)
 	}
+	stdout := bufio.NewWriter(os.Stdout)
 	if outputType == Plain {
 		if noColor {
-			output.ObjectsPlain(obj, os.Stdout)
-			return nil
+			output.ObjectsPlain(obj, stdout)
+			return stdout.Flush()
 		}
-		output.ObjectsPlainColor(obj)
-		return nil
+		output.ObjectsPlainColor(obj, stdout)
+		return stdout.Flush()
 	}
 	if outputType == Html {
-		return output.ObjectsHtml(obj, os.Stdout)
+		if err := output.ObjectsHtml(obj, stdout); err != nil {
+			return err
+		}
+		return stdout.Flush()
 	}
 	return fmt.Errorf("unknown output type '%s'", &outputType)
 }
diff --git a/internal/output/objects.go b/internal/output/objects.go
index 90ba46d..16dec31 100644
--- a/internal/output/objects.go
+++ b/internal/output/objects.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"html/template"
 	"io"
-	"os"
 	"sort"
 	"strings"
 	"unicode/utf8"
@@ -39,8 +38,8 @@ func ObjectsPlain(o objects.Objects, destination io.Writer) {
 
 // ObjectsPlainColor is the same as ObjectsPlain but
 // with colorful output
-func ObjectsPlainColor(o objects.Objects) {
-	print(o, Bold, Cyan, Yellow, Blue, os.Stdout)
+func ObjectsPlainColor(o objects.Objects, destination io.Writer) {
+	print(o, Bold, Cyan, Yellow, Blue, destination)
 }
 
 func print(o objects.Objects, headerColor, summaryColor, classNameColor, numColor func(s string) string, destination io.Writer) {
diff --git a/internal/output/summary.go b/internal/output/summary.go
index 90eb8e3..5e573d3 100644
--- a/internal/output/summary.go
+++ b/internal/output/summary.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"html/template"
 	"io"
-	"os"
 	"strconv"
 	"strings"
 
@@ -23,8 +22,8 @@ func SummaryPlain(s summary.Summary, destination io.Writer) {
 
 // SummaryPlainColor prints given Properties
 // in beautiful manner with colors
-func SummaryPlainColor(s summary.Summary) {
-	printSummary(s, Blue, Bold, Cyan, os.Stdout)
+func SummaryPlainColor(s summary.Summary, destination io.Writer) {
+	printSummary(s, Blue, Bold, Cyan, destination)
 }
 
 func printSummary(s summary.Summary, titleColor, keyColor, valColor func(string) string, destination io.Writer) {
diff --git a/internal/output/threads.go b/internal/output/threads.go
index fd2060f..b16c596 100644
--- a/internal/output/threads.go
+++ b/internal/output/threads.go
@@ -95,20 +95,20 @@ func getSortedStackTraces(threadDump threads.ThreadDump) []threads.StackTrace {
 
 // ThreadsPlainColor prints given thread dump
 // in beautiful manner with ANSI colors
-func ThreadsPlainColor(threadDump threads.ThreadDump, localVars bool) {
+func ThreadsPlainColor(threadDump threads.ThreadDump, localVars bool, destination io.Writer) {
 	traces := getSortedStackTraces(threadDump)
 	for _, stackTrace := range traces {
-		fmt.Println(Bold(createPrettyThread(stackTrace)))
+		fmt.Fprintln(destination, Bold(createPrettyThread(stackTrace)))
 		for _, frame := range stackTrace.Frames {
-			fmt.Printf("	%s\n", createPrettyColorfulFrame(frame))
+			fmt.Fprintf(destination, "	%s\n", createPrettyColorfulFrame(frame))
 			if localVars {
 				for _, local := range frame.LocalFrames {
 					localString := createPrettyStackVariable(local)
-					fmt.Printf("		local %s\n", Blue(localString))
+					fmt.Fprintf(destination, "		local %s\n", Blue(localString))
 				}
 			}
 		}
-		fmt.Println()
+		fmt.Fprintln(destination)
 	}
 }
 
-- 
2.43.0


From 89beeafc51e9f1adddea687cb64051483feddada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 16/18] fix: never take an incomplete or outdated index for a
 good one

Existence of the index directory was the only sign that the dump had
been indexed. After a crash, a failed or a concurrent run the partial
index was used forever, and it was also used after the dump had been
replaced. Build the index aside, put its files in place when complete and
record which dump it describes.
---
 internal/cmd/subcommands.go | 74 ++++++++++++++++++++++++++++++-------
 1 file changed, 61 insertions(+), 13 deletions(-)

diff --git a/internal/cmd/subcommands.go b/internal/cmd/subcommands.go
index 83df247..8a4cbb3 100644
--- a/internal/cmd/subcommands.go
+++ b/internal/cmd/subcommands.go
@@ -24,6 +24,7 @@ const (
 	primArrayDumpIndexFileName = "prim-array-dump.idx.bin"
 	smallRecordsFileName       = "small-records.bin"
 	metaFileName               = "meta.bin"
+	sourceFileName             = "source.txt"
 )
 
 func GetThreads(hprofFileName string, noColor, localVars bool, outputType OutputType) error {
@@ -188,6 +189,11 @@ func GetObjects(hprofFileName string, noColor bool, sortBy objects.SortBy, outpu
 	return fmt.Errorf("unknown output type '%s'", &outputType)
 }
 
+// ParseHprof creates the index of the given dump if it has not been created
+// yet or if the dump has changed since then. The index is built in temporary
+// directory and its files are put in place only when all of them are complete.
+// The file which describes the dump is the last one, so interrupted or failed
+// run never leaves the index that looks like ready to use.
 func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	hprof, err := os.Open(hprofFileName)
 	if err != nil {
@@ -195,42 +201,78 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	}
 	defer hprof.Close()
 
-	if err = os.Mkdir(hprofFileName+storageDirSuffix, os.ModePerm); err != nil {
-		if os.IsExist(err) {
-			return nil
-		}
-		return fmt.Errorf("can't create index: %w", err)
-	}
-
 	stat, err := hprof.Stat()
 	if err != nil {
 		return fmt.Errorf("can't get file stats: %w", err)
 	}
+	storageDir := hprofFileName + storageDirSuffix
+	source := describeSource(stat)
+	if indexed, err := os.ReadFile(storageDir + sourceFileName); err == nil && string(indexed) == source {
+		return nil
+	}
+
+	if err := os.Mkdir(storageDir, os.ModePerm); err != nil && !os.IsExist(err) {
+		return fmt.Errorf("can't create index: %w", err)
+	}
+	tmpDir, err := os.MkdirTemp(storageDir, "tmp")
+	if err != nil {
+		return fmt.Errorf("can't create index: %w", err)
+	}
+	defer os.RemoveAll(tmpDir)
+	tmpDir += "/"
 
+	if err := createIndex(hprof, int(stat.Size()), tmpDir, nonInteractive); err != nil {
+		return err
+	}
+	if err := os.WriteFile(tmpDir+sourceFileName, []byte(source), 0600); err != nil {
+		return fmt.Errorf("can't create index: %w", err)
+	}
+
+	if err := os.Remove(storageDir + sourceFileName); err != nil && !os.IsNotExist(err) {
+		return fmt.Errorf("can't replace index: %w", err)
+	}
+	for _, fileName := range []string{
+		instanceDumpIndexFileName, objArrayDumpIndexFileName, primArrayDumpIndexFileName,
+		smallRecordsFileName, metaFileName, sourceFileName,
+	} {
+		if err := os.Rename(tmpDir+fileName, storageDir+fileName); err != nil {
+			return fmt.Errorf("can't create index: %w", err)
+		}
+	}
+	return nil
+}
+
+// describeSource returns the content of the file that tells
+// which dump the index has been created for.
+func describeSource(stat os.FileInfo) string {
+	return fmt.Sprintf("size=%v mtime=%v\n", stat.Size(), stat.ModTime().UnixNano())
+}
+
+func createIndex(hprof *os.File, hprofSize int, dir string, nonInteractive bool) error {
 	smallWriter := storage.NewSmallRecordsWriteStorage()
-	instanceDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+instanceDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	instanceDumpIndexFile, err := os.OpenFile(dir+instanceDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
-	objArrayDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+objArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	objArrayDumpIndexFile, err := os.OpenFile(dir+objArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
-	primArrayDumpIndexFile, err := os.OpenFile(hprofFileName+storageDirSuffix+primArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	primArrayDumpIndexFile, err := os.OpenFile(dir+primArrayDumpIndexFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
 	bigWriter := storage.NewBigRecordsWriteStorage(instanceDumpIndexFile, objArrayDumpIndexFile, primArrayDumpIndexFile)
 	metaWriter := storage.NewMetaWriteStorage()
 	parser := dump.NewParser(hprof, smallWriter, bigWriter, metaWriter)
-	cancel := interactive(progressBar(int(stat.Size()), parser.GetPosition, "Parsing"), nonInteractive)
+	cancel := interactive(progressBar(hprofSize, parser.GetPosition, "Parsing"), nonInteractive)
 	err = parser.ParseHeapDump()
 	cancel()
 	if err != nil {
 		return fmt.Errorf("can't create index: %w", err)
 	}
 
-	smallRecordsFile, err := os.OpenFile(hprofFileName+storageDirSuffix+smallRecordsFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	smallRecordsFile, err := os.OpenFile(dir+smallRecordsFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
@@ -238,7 +280,10 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	if err := smallWriter.SerializeTo(smallRecordsFile); err != nil {
 		return fmt.Errorf("can't close small writer: %w", err)
 	}
-	metaFile, err := os.OpenFile(hprofFileName+storageDirSuffix+metaFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
+	if err := smallRecordsFile.Close(); err != nil {
+		return fmt.Errorf("can't close small writer: %w", err)
+	}
+	metaFile, err := os.OpenFile(dir+metaFileName, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0600)
 	if err != nil {
 		return err
 	}
@@ -246,6 +291,9 @@ func ParseHprof(hprofFileName string, nonInteractive bool) error {
 	if err := metaWriter.SerializeTo(metaFile); err != nil {
 		return fmt.Errorf("can't close meta writer: %w", err)
 	}
+	if err := metaFile.Close(); err != nil {
+		return fmt.Errorf("can't close meta writer: %w", err)
+	}
 	return nil
 }
 
-- 
2.43.0


From e245cec5c2a91d746d672f8aa567fb4fc11d2dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:06 +0000
Subject: [PATCH 17/18] fix: thread that has not been started is NEW

Thread.getState gives NEW for status zero, it was shown as RUNNABLE.
---
 internal/threads/models.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/threads/models.go b/internal/threads/models.go
index 7e3f3a1..ae6c650 100644
--- a/internal/threads/models.go
+++ b/internal/threads/models.go
@@ -58,9 +58,7 @@ func (ts ThreadStatus) String() string {
 		return "TIMED_WAITING"
 	} else if ts&ThreadStateTerminated != 0 {
 		return "TERMINATED"
-	} else if ts&ThreadStateAlive != 0 {
-		return "NEW"
 	} else {
-		return "RUNNABLE"
+		return "NEW"
 	}
 }
-- 
2.43.0


From 5bd72f5f85aa92a64319b45c7eb995d9c3592d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 18/18] fix: refuse header without the null that ends it

---
 internal/core/file_header_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/core/file_header_parser.go b/internal/core/file_header_parser.go
index 93e6db3..c09de58 100644
--- a/internal/core/file_header_parser.go
+++ b/internal/core/file_header_parser.go
@@ -19,8 +19,8 @@ func ParseFileHeader(heapDump io.Reader) (FileHeader, error) {
 		return FileHeader{}, fmt.Errorf("error in ParseFileHeader: %w", err)
 	}
 	header := string(str[:len(str)-1])
-	if header != ValidProfileVersion {
-		return FileHeader{}, fmt.Errorf("unsupported profile %v, only %v is supported", header, ValidProfileVersion)
+	if header != ValidProfileVersion || str[len(header)] != 0 { // null-terminated
+		return FileHeader{}, fmt.Errorf("unsupported profile %q, only %v is supported", str, ValidProfileVersion)
 	}
 	identifiersSize, err := parserUint32(heapDump)
 	if err != nil {
-- 
2.43.0

