From 567ef0c15cf305c489d3a28be317adff7ca94e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 1/4] fix: keep the fast readers from loading past the end of
 the stream

The bulk loops load 16 bytes per group of four integers and stop early enough
that the groups left over cover the load. The limit counted a trailing partial
group as a full one, so for counts that are not a multiple of four the last bulk
load could reach up to three bytes past the end of a stream whose numbers are
small, e.g. 17 one-byte integers.
---
 pkg/stream/reader/reader_amd64.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pkg/stream/reader/reader_amd64.go b/pkg/stream/reader/reader_amd64.go
index eb03649..5cf796b 100644
--- a/pkg/stream/reader/reader_amd64.go
+++ b/pkg/stream/reader/reader_amd64.go
@@ -34,7 +34,12 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		// since it will load the last 3 (unused) bytes. However, when attempting
 		// to decode the last three groups of 4, each load will need an extra
 		// 1, 2, or 3 bytes (respectively) in order to be considered safe.
-		lowest32 = ((ctrlLen - 3) * 4) &^ 31
+		//
+		// Only full groups count towards the limit: a trailing partial group can
+		// hold as little as a single byte, which isn't enough to stand in for one
+		// of the last 4 groups.
+		fullCtrl = count / 4
+		lowest32 = ((fullCtrl - 3) * 4) &^ 31
 	)
 
 	for ; decoded < lowest32; decoded += 32 {
@@ -86,9 +91,9 @@ func ReadAllFast(count int, stream []byte, out []uint32) {
 		ctrlPos += 8
 	}
 
-	// Must be strictly less than the last 4 blocks of integers, since we can't safely
-	// decode 8 if our ctrl pos starts at the first 4 in the block.
-	for ; ctrlPos < ctrlLen-4; ctrlPos += 2 {
+	// Must be strictly less than the last 4 full blocks of integers, since we can't
+	// safely decode 8 if our ctrl pos starts at the first 4 in the block.
+	for ; ctrlPos < fullCtrl-4; ctrlPos += 2 {
 		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
 		decode.Get8uint32FastAsm(
 			stream[dataPos:],
@@ -144,7 +149,12 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		// since it will load the last 3 (unused) bytes. However, when attempting
 		// to decode the last three groups of 4, each load will need an extra
 		// 1, 2, or 3 bytes (respectively) in order to be considered safe.
-		lowest32 = ((ctrlLen - 3) * 4) &^ 31
+		//
+		// Only full groups count towards the limit: a trailing partial group can
+		// hold as little as a single byte, which isn't enough to stand in for one
+		// of the last 4 groups.
+		fullCtrl = count / 4
+		lowest32 = ((fullCtrl - 3) * 4) &^ 31
 	)
 
 	for ; decoded < lowest32; decoded += 32 {
@@ -201,9 +211,9 @@ func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
 		prev = nums[31]
 	}
 
-	// Must be strictly less than the last 4 blocks of integers, since we can't safely
-	// decode 8 if our ctrl pos starts at the first 4 in the block.
-	for ; ctrlPos < ctrlLen-4; ctrlPos += 2 {
+	// Must be strictly less than the last 4 full blocks of integers, since we can't
+	// safely decode 8 if our ctrl pos starts at the first 4 in the block.
+	for ; ctrlPos < fullCtrl-4; ctrlPos += 2 {
 		ctrl := uint16(stream[ctrlPos]) | uint16(stream[ctrlPos+1])<<8
 		decode.Get8uint32DeltaFastAsm(
 			stream[dataPos:],
-- 
2.43.0


From c242bc2ac85d5b11e5b5d8c8a5b7611e446e3ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:22 +0000
Subject: [PATCH 2/4] fix: make the portable (non-amd64) build compile

The stand-ins for the accelerated functions had the wrong signature in decode
and were missing for the delta variants in reader and writer, so no package that
uses them compiled on other architectures.
---
 pkg/decode/decode_base.go        | 4 ++--
 pkg/stream/reader/reader_base.go | 4 ++++
 pkg/stream/writer/writer_base.go | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/decode/decode_base.go b/pkg/decode/decode_base.go
index decaee5..ee83b9c 100644
--- a/pkg/decode/decode_base.go
+++ b/pkg/decode/decode_base.go
@@ -10,10 +10,10 @@ func GetMode() shared.PerformanceMode {
 	return shared.Normal
 }
 
-func Get8uint32Fast(in []byte, out []uint32, ctrl uint16) int {
+func Get8uint32Fast(in []byte, out []uint32, ctrl uint16) {
 	panic("unreachable")
 }
 
-func Get8uint32DeltaFast(in []byte, out []uint32, ctrl uint16, prev uint32) int {
+func Get8uint32DeltaFast(in []byte, out []uint32, ctrl uint16, prev uint32) {
 	panic("unreachable")
 }
diff --git a/pkg/stream/reader/reader_base.go b/pkg/stream/reader/reader_base.go
index 18a7b86..7a6cdf4 100644
--- a/pkg/stream/reader/reader_base.go
+++ b/pkg/stream/reader/reader_base.go
@@ -5,3 +5,7 @@ package reader
 func ReadAllFast(count int, stream []byte, out []uint32) {
 	panic("unreachable")
 }
+
+func ReadAllDeltaFast(count int, stream []byte, out []uint32, prev uint32) {
+	panic("unreachable")
+}
diff --git a/pkg/stream/writer/writer_base.go b/pkg/stream/writer/writer_base.go
index 6a54520..7e815f0 100644
--- a/pkg/stream/writer/writer_base.go
+++ b/pkg/stream/writer/writer_base.go
@@ -5,3 +5,7 @@ package writer
 func WriteAllFast(in []uint32) []byte {
 	panic("unreachable")
 }
+
+func WriteAllDeltaFast(in []uint32, prev uint32) []byte {
+	panic("unreachable")
+}
-- 
2.43.0


From b4c509295902e56e5d17530e8a6561a0badd3002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 3/4] fix: draw random numbers of exactly the chosen byte
 length

The upper ends of the 1, 2 and 3 byte ranges were inclusive, so each of them
could produce a number that needs one byte more than the length picked.
---
 pkg/util/rand.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/util/rand.go b/pkg/util/rand.go
index 34ee6c8..4fa1f45 100644
--- a/pkg/util/rand.go
+++ b/pkg/util/rand.go
@@ -22,15 +22,15 @@ var (
 	generators = []generator{
 		// 1 byte,
 		func() uint32 {
-			return randUint32Range(0, 1<<8)
+			return randUint32Range(0, 1<<8-1)
 		},
 		// 2 byte,
 		func() uint32 {
-			return randUint32Range(1<<8, 1<<16)
+			return randUint32Range(1<<8, 1<<16-1)
 		},
 		// 3 byte,
 		func() uint32 {
-			return randUint32Range(1<<16, 1<<24)
+			return randUint32Range(1<<16, 1<<24-1)
 		},
 		// 4 byte,
 		func() uint32 {
-- 
2.43.0


From 694bbafb6e72ba5b84449a76b13ffdc36fcab3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:04 +0000
Subject: [PATCH 4/4] fix: benchmark refresh looks for the closing fence inside
 the section

The search started at the beginning of the README, so with a code block
before the section the tool duplicated (or panicked on) part of the file.
---
 tools/parse_and_write_bench.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/parse_and_write_bench.go b/tools/parse_and_write_bench.go
index 740771c..3a7ad18 100644
--- a/tools/parse_and_write_bench.go
+++ b/tools/parse_and_write_bench.go
@@ -99,7 +99,14 @@ func main() {
 		log.Fatalf("couldn't find start sentinel")
 	}
 
-	restStart := bytes.Index(allData, bEnd)
+	// The closing fence is the first one after the section starts, there may be
+	// other code blocks earlier in the file.
+	contentStart := start + len(bStart)
+	restStart := bytes.Index(allData[contentStart:], bEnd)
+	if restStart < 0 {
+		log.Fatalf("couldn't find end sentinel")
+	}
+	restStart += contentStart
 
 	var final []byte
 	final = append(final, allData[:start]...)
-- 
2.43.0

