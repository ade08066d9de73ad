From 79bbd9e9cd18a5e0285a31189c237b3b693e6ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 01/52] fix: compare plural indices and line numbers without
 overflow

---
 pkg/po/cmp.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index 470019b..b229a35 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -142,7 +142,7 @@ func ComparePluralEntryByStr(a, b PluralEntry) int {
 
 // ComparePluralEntryByID compares two plural entries by their numeric IDs.
 func ComparePluralEntryByID(a, b PluralEntry) int {
-	return a.ID - b.ID
+	return compareInts(a.ID, b.ID)
 }
 
 // CompareLocationsFunc compares two slices of locations using the given comparison function.
@@ -160,7 +160,17 @@ func CompareLocation(a, b Location) int {
 
 // CompareLocationByLine compares two locations by line number.
 func CompareLocationByLine(a, b Location) int {
-	return a.Line - b.Line
+	return compareInts(a.Line, b.Line)
+}
+
+// compareInts compares two integers without the overflow a subtraction has.
+func compareInts(a, b int) int {
+	if a < b {
+		return -1
+	} else if a > b {
+		return 1
+	}
+	return 0
 }
 
 // CompareLocationByFile compares two locations by cleaned file path string.
-- 
2.43.0


From 83c597a1cc41d2d79e3dfaa00009efa847aeaa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 02/52] fix: EntryStrMatchRatio compares translations, not ids

---
 pkg/po/cmp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/cmp.go b/pkg/po/cmp.go
index b229a35..37a659d 100644
--- a/pkg/po/cmp.go
+++ b/pkg/po/cmp.go
@@ -36,7 +36,7 @@ func EntryStrMatchRatio(e1, e2 Entry) int {
 
 	var ratios []int
 	if e1.Str != "" || e2.Str != "" {
-		ratios = append(ratios, ratio(e1.ID, e2.ID))
+		ratios = append(ratios, ratio(e1.Str, e2.Str))
 	}
 	if e1.IsPlural() || e2.IsPlural() {
 		for i, pe := range e1.Plurals {
-- 
2.43.0


From 39c545bd5018265ed28ffed18ffee93604d12872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:50 +0000
Subject: [PATCH 03/52] fix: the average of no values is zero instead of a
 panic

---
 internal/util/average.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/util/average.go b/internal/util/average.go
index c59c242..5742920 100644
--- a/internal/util/average.go
+++ b/internal/util/average.go
@@ -9,6 +9,10 @@ type Number interface {
 func Average[T Number](values ...T) T {
 	var total T
 
+	if len(values) == 0 {
+		return total
+	}
+
 	for _, v := range values {
 		total += v
 	}
-- 
2.43.0


From fad001fa80e698d96cceb66d2a1b0dd5b33c4010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 04/52] fix: hash the bytes of a message id, not its runes, as
 gettext does

---
 internal/util/hash.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/util/hash.go b/internal/util/hash.go
index a1bff94..91e304f 100644
--- a/internal/util/hash.go
+++ b/internal/util/hash.go
@@ -4,8 +4,8 @@ package util
 func PJWHash(str string) uint32 {
 	var h, g uint32
 
-	for _, c := range str {
-		h = (h << 4) + uint32(c)
+	for i := 0; i < len(str); i++ {
+		h = (h << 4) + uint32(str[i])
 		g = h & 0xF0000000 // Check the top 4 bits
 		if g != 0 {
 			h ^= g >> 24 // XOR with the high bits
-- 
2.43.0


From 40665968cce9d50d10f5b5fb7e81773fef57ed8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 05/52] fix: primality test without overflow near the greatest
 uint32

---
 internal/util/prime.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/prime.go b/internal/util/prime.go
index 8b2f724..a935e15 100644
--- a/internal/util/prime.go
+++ b/internal/util/prime.go
@@ -31,7 +31,7 @@ func IsPrime(n u32) bool {
 	if n%2 == 0 {
 		return false
 	}
-	for i := u32(3); i*i <= n; i += 2 {
+	for i := u32(3); i <= n/i; i += 2 {
 		if n%i == 0 {
 			return false
 		}
-- 
2.43.0


From d95bbc2d1da8ca4ac399d1419bc106ee15ae33f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 06/52] fix: write the MO magic number in the file's byte order

---
 internal/util/bytes.go    | 16 +++-------------
 pkg/po/parse/mo_parser.go |  2 +-
 2 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/internal/util/bytes.go b/internal/util/bytes.go
index 6508c2c..29362ef 100644
--- a/internal/util/bytes.go
+++ b/internal/util/bytes.go
@@ -41,20 +41,10 @@ func (e Endianness) Order() binary.ByteOrder {
 	}
 }
 
+// MagicNumber returns the number every MO file starts with. It is the same for
+// every byte order: encoding it in that order is what tells the order apart.
 func (e Endianness) MagicNumber() uint32 {
-	switch e {
-	case LittleEndian:
-		return LittleEndianMagicNumber
-	case BigEndian:
-		return BigEndianMagicNumber
-	case NativeEndian:
-		fallthrough
-	default:
-		if IsBigEndian {
-			return BigEndianMagicNumber
-		}
-		return LittleEndianMagicNumber
-	}
+	return LittleEndianMagicNumber
 }
 
 func (e Endianness) String() string {
diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index d871851..7dfbfa7 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -108,7 +108,7 @@ func (m *MoParser) defineOrder(reader *bytes.Reader) (order bin.ByteOrder) {
 	var magic u32
 
 	if m.Config.Endianness == NativeEndian {
-		err := bin.Read(reader, NativeEndian.Order(), &magic)
+		err := bin.Read(reader, bin.LittleEndian, &magic)
 		if err != nil {
 			m.error("error reading magic number: %w", err)
 			return
-- 
2.43.0


From bbe87bd2160b3ad24dabeaf419ea472cb4203736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 07/52] fix: keep the only plural form and EOT bytes inside ids
 when reading MO files

---
 pkg/po/parse/mo_parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 7dfbfa7..58b7a23 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -299,7 +299,7 @@ func makeEntry(msgid, msgstr []byte) (entry po.Entry) {
 	)
 
 	// Split context from message ID (separated by EOT)
-	d := bytes.Split(msgid, eot)
+	d := bytes.SplitN(msgid, eot, 2)
 	if len(d) == 1 {
 		msgid = d[0]
 	} else {
@@ -320,7 +320,7 @@ func makeEntry(msgid, msgstr []byte) (entry po.Entry) {
 
 	// Handle plural forms in message string
 	msgstrParts := bytes.Split(msgstr, nul)
-	if len(msgstrParts) == 1 {
+	if len(msgstrParts) == 1 && (len(pluralID) == 0 || len(msgstr) == 0) {
 		entry.Str = string(msgstrParts[0])
 	} else {
 		for i, s := range msgstrParts {
-- 
2.43.0


From b52c3e394917b3bf43d2068d5b98ad7ec9c06120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 08/52] fix: parsing MO data again does not repeat the errors
 of the last parse

---
 pkg/po/parse/mo_parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 58b7a23..07487e5 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -152,6 +152,7 @@ func (m *MoParser) ParseWithOptions(opts ...MoOption) (file *po.File) {
 // Parse reads and parses the MO file into a po.File structure.
 func (m *MoParser) Parse() (file *po.File) {
 	var err error
+	m.errors = nil
 	r := bytes.NewReader(m.data)
 
 	bo := m.defineOrder(r)
-- 
2.43.0


From a9f4c27b33308873816c79331be6b0591c57e3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:21 +0000
Subject: [PATCH 09/52] fix: check MO tables and strings against the file
 before reading them

---
 pkg/po/parse/mo_parser.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/pkg/po/parse/mo_parser.go b/pkg/po/parse/mo_parser.go
index 07487e5..1253a76 100644
--- a/pkg/po/parse/mo_parser.go
+++ b/pkg/po/parse/mo_parser.go
@@ -15,8 +15,8 @@ import (
 // Type aliases for cleaner code.
 type (
 	u32 = uint32
+	u64 = uint64
 	i64 = int64
-	i32 = int32
 )
 
 // Common byte sequences used in MO file parsing.
@@ -140,6 +140,11 @@ func (m *MoParser) defineOrder(reader *bytes.Reader) (order bin.ByteOrder) {
 	return
 }
 
+// contains reports whether the file holds n bytes at the given offset.
+func (m MoParser) contains(offset u32, n u64) bool {
+	return u64(offset)+n <= u64(len(m.data))
+}
+
 // ParseWithOptions parses the MO file with temporary configuration options.
 // The original configuration is restored after parsing.
 func (m *MoParser) ParseWithOptions(opts ...MoOption) (file *po.File) {
@@ -175,6 +180,15 @@ func (m *MoParser) Parse() (file *po.File) {
 		m.error("invalid minor version number (%d)", v)
 	}
 
+	if !m.contains(header.OrigTabOffset, u64(header.Nstrings)*8) {
+		m.error("original table out of range(%d)", header.OrigTabOffset)
+		return
+	}
+	if !m.contains(header.TransTabOffset, u64(header.Nstrings)*8) {
+		m.error("translation table out of range(%d)", header.TransTabOffset)
+		return
+	}
+
 	// Read message ID table
 	msgIDStart := make([]u32, header.Nstrings)
 	msgIDLen := make([]u32, header.Nstrings)
@@ -196,8 +210,8 @@ func (m *MoParser) Parse() (file *po.File) {
 	}
 
 	// Read message string table
-	msgStrStart := make([]i32, header.Nstrings)
-	msgStrLen := make([]i32, header.Nstrings)
+	msgStrStart := make([]u32, header.Nstrings)
+	msgStrLen := make([]u32, header.Nstrings)
 	_, err = r.Seek(i64(header.TransTabOffset), 0)
 	if err != nil {
 		m.error("bad translation table offset(%d): %w", header.TransTabOffset, err)
@@ -244,7 +258,7 @@ func (m *MoParser) makeEntries(
 	r *bytes.Reader,
 	header *util.MoHeader,
 	msgIDStart, msgIDLen []u32,
-	msgStrStart, msgStrLen []i32,
+	msgStrStart, msgStrLen []u32,
 ) (entries po.Entries) {
 	for i := u32(0); i < header.Nstrings; i++ {
 		idStart := i64(msgIDStart[i])
@@ -252,6 +266,15 @@ func (m *MoParser) makeEntries(
 		strStart := i64(msgStrStart[i])
 		strLen := msgStrLen[i]
 
+		if !m.contains(msgIDStart[i], u64(idLen)) {
+			m.error("msgid out of range[start: %d len: %d]", idStart, idLen)
+			continue
+		}
+		if !m.contains(msgStrStart[i], u64(strLen)) {
+			m.error("msgstr out of range[start: %d len: %d]", strStart, strLen)
+			continue
+		}
+
 		// Read message ID data
 		_, err := r.Seek(idStart, 0)
 		if err != nil {
-- 
2.43.0


From c2173466bb14cdc209b884f6fb29ad536bd57961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:29 +0000
Subject: [PATCH 10/52] fix: compiling to MO without cleaning does not sort the
 catalogue itself

---
 pkg/po/compile/mo_compile.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/po/compile/mo_compile.go b/pkg/po/compile/mo_compile.go
index e5e75e8..75ac49c 100644
--- a/pkg/po/compile/mo_compile.go
+++ b/pkg/po/compile/mo_compile.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 
+	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
@@ -61,7 +62,7 @@ func (mc *MoCompiler) writeTo(writer io.Writer) error {
 	}
 	if mc.Config.SortEntries {
 		mc.info("sorting entries...")
-		entries = entries.SortFunc(po.CompareEntryByID)
+		entries = slices.Clone(entries).SortFunc(po.CompareEntryByID)
 	}
 	mc.info("creating header...")
 	var hashTabSize u32
-- 
2.43.0


From 719d39243c3b49332a6b95b17ad6a4e98b1ae4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:04 +0000
Subject: [PATCH 11/52] fix: compiling to MO keeps an active message whose key
 an obsolete or fuzzy one has first

---
 pkg/po/compile/mo_compile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/compile/mo_compile.go b/pkg/po/compile/mo_compile.go
index 75ac49c..72e68b3 100644
--- a/pkg/po/compile/mo_compile.go
+++ b/pkg/po/compile/mo_compile.go
@@ -58,7 +58,7 @@ func (mc *MoCompiler) writeTo(writer io.Writer) error {
 	entries := mc.File.Entries
 	if mc.Config.DepureEntries {
 		mc.info("cleaning entries...")
-		entries = mc.File.Entries.CleanDuplicates().CleanFuzzy().CleanObsoletes()
+		entries = slices.Clone(entries).CleanFuzzy().CleanObsoletes().CleanDuplicates()
 	}
 	if mc.Config.SortEntries {
 		mc.info("sorting entries...")
-- 
2.43.0


From 8eac64f3c8601c57000d57ba301c487552c2d717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:01 +0000
Subject: [PATCH 12/52] fix: the saved configuration survives an option that
 replaces the whole of it

---
 pkg/go/parse/config.go      | 5 ++++-
 pkg/po/compile/mo_config.go | 5 ++++-
 pkg/po/compile/po_config.go | 5 ++++-
 pkg/po/parse/mo_config.go   | 5 ++++-
 pkg/po/parse/po_config.go   | 5 ++++-
 5 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/pkg/go/parse/config.go b/pkg/go/parse/config.go
index b8cd0b9..76af12c 100644
--- a/pkg/go/parse/config.go
+++ b/pkg/go/parse/config.go
@@ -34,11 +34,14 @@ func (c *Config) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [Config.RestoreLastCfg] if desired.
 func (c *Config) ApplyOptions(opts ...Option) {
-	c.lastCfg = *c
+	last := *c
 
 	for _, opt := range opts {
 		opt(c)
 	}
+
+	// An option may have replaced the whole configuration.
+	c.lastCfg = last
 }
 
 func DefaultConfig(opts ...Option) Config {
diff --git a/pkg/po/compile/mo_config.go b/pkg/po/compile/mo_config.go
index c9f1885..d645e01 100644
--- a/pkg/po/compile/mo_config.go
+++ b/pkg/po/compile/mo_config.go
@@ -54,11 +54,14 @@ const (
 // saving the previous state so that it can be restored
 // later with [MoConfig.RestoreLastCfg] if desired.
 func (mc *MoConfig) ApplyOptions(opts ...MoOption) {
-	mc.lastCfg = *mc
+	last := *mc
 
 	for _, opt := range opts {
 		opt(mc)
 	}
+
+	// An option may have replaced the whole configuration.
+	mc.lastCfg = last
 }
 
 // RestoreLastCfg restores the configuration state prior to the last
diff --git a/pkg/po/compile/po_config.go b/pkg/po/compile/po_config.go
index bfd7926..af65466 100644
--- a/pkg/po/compile/po_config.go
+++ b/pkg/po/compile/po_config.go
@@ -64,10 +64,13 @@ func NewPoConfigFromOptions(opts ...PoOption) PoConfig {
 // saving the previous state so that it can be restored
 // later with [PoConfig.RestoreLastCfg] if desired.
 func (c *PoConfig) ApplyOptions(opts ...PoOption) {
-	c.lastCfg = *c
+	last := *c
 	for _, po := range opts {
 		po(c)
 	}
+
+	// An option may have replaced the whole configuration.
+	c.lastCfg = last
 }
 
 // RestoreLastCfg restores the configuration state prior to the last
diff --git a/pkg/po/parse/mo_config.go b/pkg/po/parse/mo_config.go
index 6d70504..aae5e7c 100644
--- a/pkg/po/parse/mo_config.go
+++ b/pkg/po/parse/mo_config.go
@@ -42,11 +42,14 @@ func (mc *MoConfig) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [MoConfig.RestoreLastCfg] if desired.
 func (mc *MoConfig) ApplyOptions(opts ...MoOption) {
-	mc.lastCfg = *mc
+	last := *mc
 
 	for _, mo := range opts {
 		mo(mc)
 	}
+
+	// An option may have replaced the whole configuration.
+	mc.lastCfg = last
 }
 
 // Endianness represents byte order options for MO files.
diff --git a/pkg/po/parse/po_config.go b/pkg/po/parse/po_config.go
index 846b87a..7915aed 100644
--- a/pkg/po/parse/po_config.go
+++ b/pkg/po/parse/po_config.go
@@ -49,10 +49,13 @@ func (p *PoConfig) RestoreLastCfg() {
 // saving the previous state so that it can be restored
 // later with [PoConfig.RestoreLastCfg] if desired.
 func (p *PoConfig) ApplyOptions(opts ...PoOption) {
-	p.lastCfg = *p
+	last := *p
 	for _, opt := range opts {
 		opt(p)
 	}
+
+	// An option may have replaced the whole configuration.
+	p.lastCfg = last
 }
 
 // DefaultPoConfig returns a new PoConfig with recommended defaults:
-- 
2.43.0


From bca8f73bbe736524b344a95c6e30a9dcd9162abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:02 +0000
Subject: [PATCH 13/52] fix: restoring a PO compiler's configuration before any
 was saved does nothing

---
 pkg/po/compile/po_config.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/po/compile/po_config.go b/pkg/po/compile/po_config.go
index af65466..3ff8156 100644
--- a/pkg/po/compile/po_config.go
+++ b/pkg/po/compile/po_config.go
@@ -76,7 +76,9 @@ func (c *PoConfig) ApplyOptions(opts ...PoOption) {
 // RestoreLastCfg restores the configuration state prior to the last
 // [PoConfig.ApplyOptions] if it exists, otherwise it does nothing.
 func (c *PoConfig) RestoreLastCfg() {
-	*c = c.lastCfg.(PoConfig)
+	if c.lastCfg != nil {
+		*c = c.lastCfg.(PoConfig)
+	}
 }
 
 type PoLocationMode string
-- 
2.43.0


From d702597bdf9d10653641fc2e60105954b1036ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:19 +0000
Subject: [PATCH 14/52] fix: a header value may hold colons

---
 pkg/po/header.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pkg/po/header.go b/pkg/po/header.go
index dfecccb..17dfcfa 100644
--- a/pkg/po/header.go
+++ b/pkg/po/header.go
@@ -48,13 +48,13 @@ func NewHeader(options ...HeaderOption) Header {
 	return h.ToHeader()
 }
 
-var (
-	headerRegex = regexp.MustCompile(`(.*)\s*:\s*(.*)`)
-	exprRegex   = regexp.MustCompile(
-		`(?: *(\S+?) *= *(.+?) *; *)`,
-	)
+var exprRegex = regexp.MustCompile(
+	`(?: *(\S+?) *= *(.+?) *; *)`,
 )
 
+// headerSpace is the white space around the colon of a header field.
+const headerSpace = " \t\r\f"
+
 func parseAdvHeaderField(header string) map[string]string {
 	keyValueMap := make(map[string]string)
 	header = strings.TrimSpace(header)
@@ -319,14 +319,15 @@ func EntryToHeader(entry Entry) Header {
 	header := entry.Str
 	lines := strings.Split(header, "\n")
 	for _, line := range lines {
-		if !headerRegex.MatchString(line) {
+		// The name ends at the first colon, the value may hold others.
+		key, value, found := strings.Cut(line, ":")
+		if !found {
 			continue
 		}
-		matches := headerRegex.FindStringSubmatch(line)
 		h.Fields = append(h.Fields,
 			HeaderField{
-				Key:   matches[1],
-				Value: matches[2],
+				Key:   strings.TrimRight(key, headerSpace),
+				Value: strings.TrimLeft(value, headerSpace),
 			},
 		)
 	}
-- 
2.43.0


From f6e37d21ee260f1304099f7dd1eb172eeb456130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 15/52] fix: marking a copy of an entry fuzzy leaves the flags
 of the original alone

---
 pkg/po/entry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index 2600b32..f758de1 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -36,7 +36,7 @@ func (e *Entry) markAsObsolete() { e.Obsolete = true }
 // markAsFuzzy adds the "fuzzy" flag to the entry if not already present.
 func (e *Entry) markAsFuzzy() {
 	if !e.IsFuzzy() {
-		e.Flags = append(e.Flags, "fuzzy")
+		e.Flags = append(slices.Clip(e.Flags), "fuzzy")
 	}
 }
 
-- 
2.43.0


From 45773c3f9baae1fad4516d19a1cfc51c78de1686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 16/52] fix: merging does not write into the plural forms of
 the template

---
 pkg/po/merge.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index 9ebe727..9392a7b 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -1,5 +1,7 @@
 package po
 
+import "github.com/Tom5521/gotext-tools/v2/internal/slices"
+
 // SortMode defines the mode used to sort PO entries.
 type SortMode int
 
@@ -167,6 +169,7 @@ func mergeEntryStrings(target *Entry, source Entry) {
 	case target.IsPlural() && source.IsPlural():
 		target.Plurals = source.Plurals
 	case target.IsPlural() && !source.IsPlural():
+		target.Plurals = slices.Clone(target.Plurals)
 		if len(target.Plurals) == 0 {
 			target.Plurals = make(PluralEntries, 1)
 		}
-- 
2.43.0


From c813fbaa00fcf667a1370d1a14127b377ddb5a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 17/52] fix: merging completes new messages from translated
 ones only and keeps the plural forms they have

---
 pkg/po/merge.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index 9392a7b..438f1a6 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -107,9 +107,10 @@ func MergeWithConfig(config MergeConfig, def, ref Entries) Entries {
 		def[i] = entry
 	}
 
+	old := def
 	for _, entry := range ref {
 
-		if mergeRef(config, &entry, def, nplurals) {
+		if mergeRef(config, &entry, old, def, nplurals) {
 			continue
 		}
 		def = append(def, entry)
@@ -122,17 +123,19 @@ func MergeWithConfig(config MergeConfig, def, ref Entries) Entries {
 	return def
 }
 
-func mergeRef(config MergeConfig, entry *Entry, def Entries, nplurals int) bool {
+// mergeRef completes a message of the template that the merged entries do not
+// have yet with the translation of the most similar old one.
+func mergeRef(config MergeConfig, entry *Entry, old, def Entries, nplurals int) bool {
 	if def.ContainsUnifiedID(entry.UnifiedID()) || entry.IsHeader() {
 		return true
 	}
 	if config.FuzzyMatch {
-		if bestID, ratio := def.BestIDRatio(*entry); ratio >= 50 {
+		if bestID, ratio := old.BestIDRatio(*entry); ratio >= 50 {
 			entry.markAsFuzzy()
-			best := def[bestID]
+			best := old[bestID]
 			mergeEntryStrings(entry, best)
 		}
-	} else if entry.IsPlural() {
+	} else if entry.IsPlural() && len(entry.Plurals) == 0 {
 		for i := 0; i < nplurals; i++ {
 			entry.Plurals = append(entry.Plurals, PluralEntry{i, entry.ID})
 		}
-- 
2.43.0


From 04b333db03ebf48773c1b24c6051e16405c514d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 18/52] fix: merging keeps one entry per key and follows the
 template

---
 pkg/po/merge.go | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index 438f1a6..7e3cef6 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -101,7 +101,7 @@ func MergeWithConfig(config MergeConfig, def, ref Entries) Entries {
 	def = def.Solve()
 
 	for i, entry := range def {
-		if mergeDef(config, &entry, ref) {
+		if mergeDef(config, &entry, def, ref) {
 			continue
 		}
 		def[i] = entry
@@ -143,15 +143,25 @@ func mergeRef(config MergeConfig, entry *Entry, old, def Entries, nplurals int)
 	return false
 }
 
-func mergeDef(config MergeConfig, e *Entry, ref Entries) bool {
-	if ref.ContainsUnifiedID(e.UnifiedID()) || e.IsHeader() {
+// mergeDef adapts an old message to the template, def are the entries merged
+// so far.
+func mergeDef(config MergeConfig, e *Entry, def, ref Entries) bool {
+	if e.IsHeader() {
 		return true
 	}
+	if i := ref.IndexByUnifiedID(e.UnifiedID()); i != -1 {
+		e.follow(ref[i])
+		return false
+	}
 	switch {
 	case config.FuzzyMatch:
-		if bestID, ratio := ref.BestIDRatio(*e); ratio >= 50 {
+		bestID, ratio := ref.BestIDRatio(*e)
+		if ratio >= 50 && canBecome(*e, ref[bestID], def) {
 			e.markAsFuzzy()
 			e.ID = ref[bestID].ID
+			e.Context = ref[bestID].Context
+			e.Plural = ref[bestID].Plural
+			e.follow(ref[bestID])
 		} else {
 			e.markAsObsolete()
 		}
@@ -163,6 +173,21 @@ func mergeDef(config MergeConfig, e *Entry, ref Entries) bool {
 	return false
 }
 
+// canBecome reports whether the message e can take the place of the similar
+// message of the template: both are plural or none is, and no other entry has
+// that place.
+func canBecome(e, template Entry, def Entries) bool {
+	return !template.IsHeader() && template.IsPlural() == e.IsPlural() &&
+		!def.ContainsUnifiedID(template.UnifiedID())
+}
+
+// follow takes from the template what belongs to the sources.
+func (e *Entry) follow(template Entry) {
+	e.Obsolete = template.Obsolete
+	e.ExtractedComments = template.ExtractedComments
+	e.Locations = template.Locations
+}
+
 // mergeEntryStrings copies translation strings from source to target.
 //
 // If both entries are plural, plural forms are copied.
-- 
2.43.0


From 6865485b4f5556439b976d1d91314f68995c6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 19/52] fix: merging does not write behind the plural forms of
 the template

---
 pkg/po/merge.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/po/merge.go b/pkg/po/merge.go
index 7e3cef6..6f3f6a0 100644
--- a/pkg/po/merge.go
+++ b/pkg/po/merge.go
@@ -136,6 +136,7 @@ func mergeRef(config MergeConfig, entry *Entry, old, def Entries, nplurals int)
 			mergeEntryStrings(entry, best)
 		}
 	} else if entry.IsPlural() && len(entry.Plurals) == 0 {
+		entry.Plurals = nil
 		for i := 0; i < nplurals; i++ {
 			entry.Plurals = append(entry.Plurals, PluralEntry{i, entry.ID})
 		}
-- 
2.43.0


From 79557065a32a6a8d1ada4b16c40f8f08343da310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 20/52] fix: resolving duplicates does not write behind the
 locations of the first one

---
 pkg/po/entries.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/entries.go b/pkg/po/entries.go
index 0db5337..600e05e 100644
--- a/pkg/po/entries.go
+++ b/pkg/po/entries.go
@@ -140,7 +140,7 @@ func (e Entries) CleanObsoletes() Entries {
 // CleanDuplicates removes duplicate entries with the same ID and context, merging their locations.
 func (e Entries) CleanDuplicates() Entries {
 	return e.SolveFunc(func(a, b Entry) *Entry {
-		a.Locations = append(a.Locations, b.Locations...)
+		a.Locations = append(slices.Clip(a.Locations), b.Locations...)
 		return &a
 	})
 }
@@ -215,7 +215,7 @@ func SolveMerge(a, b Entry) *Entry {
 	}
 
 	// Combine the Locations from both entries.
-	preferred.Locations = append(a.Locations, b.Locations...)
+	preferred.Locations = append(slices.Clip(a.Locations), b.Locations...)
 
 	// Choose the preferred Str and Plurals based on CompareEntryByStr.
 	if CompareEntryByStr(a, b) > 0 {
-- 
2.43.0


From d292fb8b8fba732cf8a86399c027f8e4f8240a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 21/52] fix: concatenation drops a message beyond either bound
 on its occurrences

---
 pkg/po/msgcat_merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 757ea5e..d2381b1 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -64,7 +64,7 @@ func MsgcatMergeFiles(files []*File, opts ...MsgcatMergeOption) Entries {
 	return slices.DeleteFunc(process.entriesSlice, func(entry Entry) bool {
 		info := process.entriesMap[entry.UnifiedID()]
 
-		return info.timesFound >= process.config.LessThan &&
+		return info.timesFound >= process.config.LessThan ||
 			info.timesFound <= process.config.MoreThan
 	})
 }
-- 
2.43.0


From b9999e9569b3c193d5ac0f1f2890530b5659a0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 22/52] fix: concatenation does not put file names among the
 flags

---
 pkg/po/msgcat_merge.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index d2381b1..a420ea7 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -126,12 +126,7 @@ func msgcatMergeEntry(
 	originalFilename, newFilename string,
 ) Entry {
 	mergedEntry := Entry{
-		Flags: msgcatMergeComments(
-			originalEntry.Flags,
-			newEntry.Flags,
-			originalFilename,
-			newFilename,
-		),
+		Flags: msgcatMergeFlags(originalEntry.Flags, newEntry.Flags),
 		Comments: msgcatMergeComments(
 			originalEntry.Comments,
 			newEntry.Comments,
@@ -181,6 +176,17 @@ func msgcatMergeEntry(
 	return mergedEntry
 }
 
+// msgcatMergeFlags returns the flags of both entries, each once.
+func msgcatMergeFlags(originalFlags, newFlags []string) []string {
+	flags := slices.Clip(originalFlags)
+	for _, flag := range newFlags {
+		if !slices.Contains(flags, flag) {
+			flags = append(flags, flag)
+		}
+	}
+	return flags
+}
+
 // msgcatMergePlurals handles merging of plural form strings.
 func msgcatMergePlurals(
 	originalEntry, newEntry Entry,
-- 
2.43.0


From 0ac7d8d091e6d0e0d4af7afb872bd650306167df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 23/52] fix: concatenation does not write behind the locations
 of its input

---
 pkg/po/msgcat_merge.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index a420ea7..dfcbe57 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -162,7 +162,7 @@ func msgcatMergeEntry(
 			newFilename,
 		),
 		Locations: append(
-			originalEntry.Locations,
+			slices.Clip(originalEntry.Locations),
 			newEntry.Locations...,
 		),
 	}
@@ -170,7 +170,7 @@ func msgcatMergeEntry(
 	if !mergedEntry.IsFuzzy() &&
 		(originalEntry.FullUnifiedID() != newEntry.FullUnifiedID() ||
 			originalEntry.UnifiedStr() != newEntry.UnifiedStr()) {
-		mergedEntry.Flags = append(mergedEntry.Flags, "fuzzy")
+		mergedEntry.Flags = append(slices.Clip(mergedEntry.Flags), "fuzzy")
 	}
 
 	return mergedEntry
-- 
2.43.0


From 6d474f00757522bd47e5f214cd5910f29aab0226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 24/52] fix: concatenation loses no translation and marks
 nothing active as obsolete

---
 pkg/po/msgcat_merge.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index dfcbe57..9b96689 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -146,6 +146,8 @@ func msgcatMergeEntry(
 			newFilename,
 		),
 
+		Obsolete: originalEntry.Obsolete && newEntry.Obsolete,
+
 		ID:      originalEntry.ID,
 		Context: originalEntry.Context,
 		Plural:  originalEntry.Plural,
@@ -155,18 +157,22 @@ func msgcatMergeEntry(
 			originalFilename,
 			newFilename,
 		),
-		Str: msgcatMergeStrings(
-			originalEntry.Str,
-			newEntry.Str,
-			originalFilename,
-			newFilename,
-		),
+		Str: originalEntry.Str,
 		Locations: append(
 			slices.Clip(originalEntry.Locations),
 			newEntry.Locations...,
 		),
 	}
 
+	if originalEntry.IsPlural() == newEntry.IsPlural() {
+		mergedEntry.Str = msgcatMergeStrings(
+			originalEntry.Str,
+			newEntry.Str,
+			originalFilename,
+			newFilename,
+		)
+	}
+
 	if !mergedEntry.IsFuzzy() &&
 		(originalEntry.FullUnifiedID() != newEntry.FullUnifiedID() ||
 			originalEntry.UnifiedStr() != newEntry.UnifiedStr()) {
@@ -192,7 +198,7 @@ func msgcatMergePlurals(
 	originalEntry, newEntry Entry,
 	originalFilename, newFilename string,
 ) PluralEntries {
-	if !originalEntry.IsPlural() {
+	if !originalEntry.IsPlural() || !newEntry.IsPlural() {
 		return originalEntry.Plurals
 	}
 
@@ -213,6 +219,9 @@ func msgcatMergePlurals(
 			),
 		})
 	}
+	if len(newEntry.Plurals) > len(originalEntry.Plurals) {
+		mergedEntries = append(mergedEntries, newEntry.Plurals[len(originalEntry.Plurals):]...)
+	}
 
 	return mergedEntries
 }
-- 
2.43.0


From e3eec87b18059358d762bd9b41d5d7e9c907afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 25/52] fix: PO texts keep characters that are not printable

---
 pkg/po/compile/po_compiler_util.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index 872559f..279f362 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -4,7 +4,6 @@ import (
 	"bufio"
 	"fmt"
 	"io"
-	"strconv"
 	"strings"
 
 	"github.com/Tom5521/gotext-tools/v2/internal/slices"
@@ -41,8 +40,8 @@ func (c PoCompiler) compileEntries(writer io.Writer, eb *entryBuilder, entries p
 
 func escapePOString(s string) string {
 	var buf strings.Builder
-	for _, r := range s {
-		switch r {
+	for i := 0; i < len(s); i++ {
+		switch c := s[i]; c {
 		case '"':
 			buf.WriteString(`\"`)
 		case '\\':
@@ -54,10 +53,10 @@ func escapePOString(s string) string {
 		case '\r':
 			buf.WriteString(`\r`)
 		default:
-			if strconv.IsPrint(r) {
-				buf.WriteRune(r)
+			if c < ' ' || c == 0x7f {
+				fmt.Fprintf(&buf, "\\x%02x", c)
 			} else {
-				fmt.Fprintf(&buf, "\\x%02x", r)
+				buf.WriteByte(c)
 			}
 		}
 	}
-- 
2.43.0


From ea61f0cd162db81ac4206fe31e5c87dcea3fdd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 26/52] fix: writing locations without a location mode does not
 panic

---
 pkg/po/compile/po_compiler_format.go | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index 6b01765..c4e81b5 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -219,23 +219,12 @@ func (eb *entryBuilder) referenceComment() string {
 	}
 	var b strings.Builder
 
-	var writeRef func(id int)
-	switch eb.Config.AddLocation {
-	case PoLocationModeFull:
-		writeRef = func(id int) {
-			l := eb.Locations[id]
-			fmt.Fprintf(&b, "%s:%d\n", l.File, l.Line)
+	for _, l := range eb.Locations {
+		if eb.Config.AddLocation == PoLocationModeFile {
+			fmt.Fprintf(&b, "#: %s\n", l.File)
+		} else {
+			fmt.Fprintf(&b, "#: %s:%d\n", l.File, l.Line)
 		}
-	case PoLocationModeFile:
-		writeRef = func(id int) {
-			l := eb.Locations[id]
-			fmt.Fprintf(&b, "%s\n", l.File)
-		}
-	}
-
-	for i := range eb.Locations {
-		fmt.Fprint(&b, "#: ")
-		writeRef(i)
 	}
 
 	return b.String()
-- 
2.43.0


From ca1c0f9e4839e3462f1b7be248fb9a784f317d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 27/52] fix: compiling to PO leaves the file's entries alone

---
 pkg/po/compile/po_compiler.go      | 2 +-
 pkg/po/compile/po_compiler_util.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/po/compile/po_compiler.go b/pkg/po/compile/po_compiler.go
index dafc01d..bcaee74 100644
--- a/pkg/po/compile/po_compiler.go
+++ b/pkg/po/compile/po_compiler.go
@@ -107,7 +107,7 @@ func (c PoCompiler) ToWriter(outputWriter io.Writer) error {
 	if c.Config.OmitHeader {
 		i := c.File.Index("", "")
 		if i != -1 {
-			entries = slices.Delete(entries, i, i+1)
+			entries = append(slices.Clip(entries[:i]), entries[i+1:]...)
 		}
 	}
 
diff --git a/pkg/po/compile/po_compiler_util.go b/pkg/po/compile/po_compiler_util.go
index 279f362..be42e96 100644
--- a/pkg/po/compile/po_compiler_util.go
+++ b/pkg/po/compile/po_compiler_util.go
@@ -90,7 +90,7 @@ func (c PoCompiler) writeHeader(writer io.Writer, entries *po.Entries, eb *entry
 		return nil
 	}
 	header := c.File.HeaderFromIndex(i)
-	*entries = slices.Delete(*entries, i, i+1)
+	*entries = append(slices.Clip((*entries)[:i]), (*entries)[i+1:]...)
 
 	if c.Config.HeaderConfig != nil {
 		header = c.Config.HeaderConfig.ToHeader()
-- 
2.43.0


From 5e09f95738302749685a74a6ab1485e6a6671064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 28/52] fix: a managed header is written once, with its fields
 escaped

---
 pkg/po/compile/po_compiler_format.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index c4e81b5..b5708a1 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -119,7 +119,8 @@ func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 
 	if eb.Config.HeaderFields {
 		for i, field := range header.Fields {
-			fmt.Fprintf(&buf, headerFieldFormat, field.Key, field.Value)
+			fmt.Fprintf(&buf, headerFieldFormat,
+				escapePOString(field.Key), escapePOString(field.Value))
 
 			if i != len(header.Fields) {
 				fmt.Fprint(&buf, "\n")
@@ -129,9 +130,6 @@ func (eb *entryBuilder) BuildHeader(header po.Header) []byte {
 
 	fmt.Fprintln(&buf)
 
-	buf.WriteString(eb.msgid())
-	buf.WriteString(eb.msgstr())
-
 	return buf.Bytes()
 }
 
-- 
2.43.0


From c31a48f4f1672839ef4dc375a1b7e9756401d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 29/52] fix: comments of several lines stay comments in PO
 files

---
 pkg/po/compile/po_compiler_format.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/po/compile/po_compiler_format.go b/pkg/po/compile/po_compiler_format.go
index b5708a1..9f25908 100644
--- a/pkg/po/compile/po_compiler_format.go
+++ b/pkg/po/compile/po_compiler_format.go
@@ -198,7 +198,7 @@ func (eb *entryBuilder) comment() string {
 func (eb *entryBuilder) translatorComment() string {
 	var b strings.Builder
 	for _, comment := range eb.Comments {
-		fmt.Fprintf(&b, "# %s\n", comment)
+		fmt.Fprintf(&b, "# %s\n", strings.ReplaceAll(comment, "\n", "\n# "))
 	}
 	return b.String()
 }
@@ -206,7 +206,7 @@ func (eb *entryBuilder) translatorComment() string {
 func (eb *entryBuilder) extractedComment() string {
 	var b strings.Builder
 	for _, comment := range eb.ExtractedComments {
-		fmt.Fprintf(&b, "#. %s\n", comment)
+		fmt.Fprintf(&b, "#. %s\n", strings.ReplaceAll(comment, "\n", "\n#. "))
 	}
 	return b.String()
 }
@@ -241,7 +241,7 @@ func (eb *entryBuilder) flagComment() string {
 func (eb *entryBuilder) previousComment() string {
 	var b strings.Builder
 	for _, p := range eb.Previous {
-		fmt.Fprintf(&b, "#| %s\n", p)
+		fmt.Fprintf(&b, "#| %s\n", strings.ReplaceAll(p, "\n", "\n#| "))
 	}
 	return b.String()
 }
-- 
2.43.0


From 8ecdd348dc5394d7b34038b780fe007444b338ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 30/52] fix: PO texts may end in a backslash

---
 internal/util/po_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/po_parse.go b/internal/util/po_parse.go
index 4db6769..69086d9 100644
--- a/internal/util/po_parse.go
+++ b/internal/util/po_parse.go
@@ -43,7 +43,7 @@ var (
 		{Name: "Integer", Pattern: `\d+`},
 		{Name: "LB", Pattern: `\[`},
 		{Name: "RB", Pattern: `\]`},
-		{Name: "String", Pattern: `"(\\"|[^"])*"`},
+		{Name: "String", Pattern: `"(\\.|[^"\\])*"`},
 		{Name: "Msgctxt", Pattern: "msgctxt"},
 		{Name: "MsgidPlural", Pattern: "msgid_plural"},
 		{Name: "Msgid", Pattern: "msgid"},
-- 
2.43.0


From 3bcea260933a890546e3db2e8a4e34259f8b7981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 31/52] fix: the kind of a PO comment is told by its start only

---
 pkg/po/parse/po_parser.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 695b438..56c4444 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -126,12 +126,12 @@ func (p *PoParser) Errors() []error {
 
 // Regular expressions for parsing different types of PO file comments.
 var (
-	locationRegex  = regexp.MustCompile(`#: *(.*)`)  // Source location comments
-	generalRegex   = regexp.MustCompile(`# *(.*)`)   // General translator comments
-	extractedRegex = regexp.MustCompile(`#\. *(.*)`) // Extracted comments
-	flagRegex      = regexp.MustCompile(`#, *(.*)`)  // Flag comments
-	obsoleteRegex  = regexp.MustCompile(`#~ *(.*)`)  // Obsolete entry markers
-	previousRegex  = regexp.MustCompile(`#\| *(.*)`) // Previous message comments
+	locationRegex  = regexp.MustCompile(`^#: *(.*)`)  // Source location comments
+	generalRegex   = regexp.MustCompile(`^# *(.*)`)   // General translator comments
+	extractedRegex = regexp.MustCompile(`^#\. *(.*)`) // Extracted comments
+	flagRegex      = regexp.MustCompile(`^#, *(.*)`)  // Flag comments
+	obsoleteRegex  = regexp.MustCompile(`^#~ *(.*)`)  // Obsolete entry markers
+	previousRegex  = regexp.MustCompile(`^#\| *(.*)`) // Previous message comments
 )
 
 // parseObsoleteEntries extracts and parses obsolete entries from the PO file.
-- 
2.43.0


From fe17fa51a35569263028236a77610d7af86b5d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 32/52] fix: locations without a line, or several in one
 comment, are read

---
 pkg/po/parse/po_parser.go | 48 +++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 56c4444..ddfbe57 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -190,21 +190,9 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
 		}
 		switch {
 		case locationRegex.MatchString(t.String()):
-			matches := locationRegex.FindStringSubmatch(t.String())
-			parts := strings.SplitN(matches[1], ":", 2)
-			line := -1
-			if parts[1] != "" {
-				line, err = strconv.Atoi(parts[1])
-				if err != nil {
-					return fmt.Errorf("error parsing integer: %w", err)
-				}
-			}
-
-			loc := po.Location{
-				Line: line,
-				File: parts[0],
-			}
-			entry.Locations = append(entry.Locations, loc)
+			entry.Locations = append(entry.Locations,
+				parseLocations(locationRegex.FindStringSubmatch(t.String())[1])...,
+			)
 		case extractedRegex.MatchString(t.String()):
 			entry.ExtractedComments = append(entry.ExtractedComments,
 				extractedRegex.FindStringSubmatch(t.String())[1],
@@ -227,6 +215,36 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
 	return nil
 }
 
+// parseLocations reads the references of one location comment.
+func parseLocations(s string) po.Locations {
+	var locations po.Locations
+	for _, ref := range strings.Fields(s) {
+		loc := parseLocation(ref)
+		if loc.Line == -1 {
+			// A name with blanks, or without a line.
+			return po.Locations{parseLocation(s)}
+		}
+		locations = append(locations, loc)
+	}
+	return locations
+}
+
+// parseLocation reads one reference. The line of one that has none is -1.
+func parseLocation(ref string) po.Location {
+	i := strings.LastIndexByte(ref, ':')
+	if i == -1 {
+		return po.Location{Line: -1, File: ref}
+	}
+	if i == len(ref)-1 {
+		return po.Location{Line: -1, File: ref[:i]}
+	}
+	line, err := strconv.Atoi(ref[i+1:])
+	if err != nil {
+		return po.Location{Line: -1, File: ref}
+	}
+	return po.Location{Line: line, File: ref[:i]}
+}
+
 // ParseWithOptions parses the PO file with temporary configuration options.
 // The original configuration is restored after parsing.
 func (p *PoParser) ParseWithOptions(opts ...PoOption) *po.File {
-- 
2.43.0


From 583492635effbecf97ea1000e1d55c5ea34d7cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 33/52] fix: several flags in one comment are several flags

---
 pkg/po/parse/po_parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index ddfbe57..2130c2f 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -198,9 +198,10 @@ func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
 				extractedRegex.FindStringSubmatch(t.String())[1],
 			)
 		case flagRegex.MatchString(t.String()):
-			entry.Flags = append(entry.Flags,
-				flagRegex.FindStringSubmatch(t.String())[1],
-			)
+			flags := flagRegex.FindStringSubmatch(t.String())[1]
+			for _, flag := range strings.Split(flags, ",") {
+				entry.Flags = append(entry.Flags, strings.TrimSpace(flag))
+			}
 		case previousRegex.MatchString(t.String()):
 			entry.Previous = append(entry.Previous,
 				previousRegex.FindStringSubmatch(t.String())[1],
-- 
2.43.0


From 6aad89e30ab98eefd54c711d2a2cd279c4b4adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 34/52] fix: parsing PO files does not write behind the
 caller's bytes, nor into their last line

---
 pkg/po/parse/po_parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index 2130c2f..c1a28a3 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -255,7 +255,8 @@ func (p *PoParser) ParseWithOptions(opts ...PoOption) *po.File {
 	return p.Parse()
 }
 
-const safeTemplate = `msgid "---"
+const safeTemplate = `
+msgid "---"
 msgstr "---"`
 
 // Parse reads and parses the PO file into a po.File structure.
@@ -268,8 +269,7 @@ func (p *PoParser) Parse() *po.File {
 	// unnecessary heavy and slow thing of ANTLR.
 
 	// Add temporary marker to handle edge cases
-	p.data = p.originalData
-	p.data = append(p.data, []byte(safeTemplate)...)
+	p.data = append(slices.Clip(p.originalData), []byte(safeTemplate)...)
 
 	// Parse the file using the participle parser
 	pFile, err := util.PoParser.ParseBytes(p.filename, p.data)
-- 
2.43.0


From c69369c603b03d3f209fdceb5cfa3a80abe1e307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 35/52] fix: obsolete PO entries are read with their comments
 and any prefix, their errors reported

---
 pkg/po/parse/po_parser.go | 78 +++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 32 deletions(-)

diff --git a/pkg/po/parse/po_parser.go b/pkg/po/parse/po_parser.go
index c1a28a3..b74f8e6 100644
--- a/pkg/po/parse/po_parser.go
+++ b/pkg/po/parse/po_parser.go
@@ -130,48 +130,61 @@ var (
 	generalRegex   = regexp.MustCompile(`^# *(.*)`)   // General translator comments
 	extractedRegex = regexp.MustCompile(`^#\. *(.*)`) // Extracted comments
 	flagRegex      = regexp.MustCompile(`^#, *(.*)`)  // Flag comments
-	obsoleteRegex  = regexp.MustCompile(`^#~ *(.*)`)  // Obsolete entry markers
 	previousRegex  = regexp.MustCompile(`^#\| *(.*)`) // Previous message comments
 )
 
-// parseObsoleteEntries extracts and parses obsolete entries from the PO file.
-func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
-	comp := obsoleteRegex
+// obsoleteLine returns what a comment says of an obsolete entry, if it does.
+func (p *PoParser) obsoleteLine(comment string) (string, bool) {
+	prefix := "#~"
 	if p.Config.UseCustomObsoletePrefix {
-		var err error
-		comp, err = regexp.Compile(fmt.Sprintf(`#%s *(.*)`, string(p.Config.CustomObsoletePrefix)))
-		if err != nil {
-			p.warn(err.Error())
-			return nil
-		}
+		prefix = "#" + string(p.Config.CustomObsoletePrefix)
+	}
+	if !strings.HasPrefix(comment, prefix) {
+		return "", false
 	}
 
-	cleanedLines := make([]string, 0, len(tokens))
+	line := strings.TrimLeft(comment[len(prefix):], " ")
+	if strings.HasPrefix(line, "|") {
+		line = "#" + line
+	}
+	return line, true
+}
+
+// parseObsoleteEntries extracts and parses obsolete entries from the PO file.
+func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
+	var lines, comments []string
 	for _, token := range tokens {
-		if token.Type != util.PoSymbols["Comment"] {
-			continue
-		}
-		if !comp.MatchString(token.String()) {
-			continue
+		switch token.Type {
+		case util.PoSymbols["WS"]:
+		case util.PoSymbols["Comment"]:
+			line, obsolete := p.obsoleteLine(token.String())
+			if !obsolete {
+				comments = append(comments, token.String())
+				continue
+			}
+			// The comments before an obsolete entry are its own.
+			lines = append(lines, comments...)
+			lines = append(lines, line)
+			comments = nil
+		default:
+			comments = nil
 		}
-
-		cleanedLines = append(cleanedLines,
-			comp.FindStringSubmatch(token.String())[1],
-		)
 	}
-
-	fullFile := strings.Join(cleanedLines, "\n")
+	if len(lines) == 0 {
+		return nil
+	}
 
 	parser := NewPoFromString(
-		fullFile,
-		"tmp",
+		strings.Join(lines, "\n"),
+		p.filename,
 		PoWithConfig(p.Config),
+		PoWithParseObsolete(false),
 		poWithMarkAllAsObsolete(true),
 	)
 
 	f := parser.Parse()
-	err := parser.Error()
-	if err != nil {
+	p.errors = append(p.errors, parser.Errors()...)
+	if f == nil {
 		return nil
 	}
 
@@ -180,12 +193,15 @@ func (p *PoParser) parseObsoleteEntries(tokens []lexer.Token) po.Entries {
 
 // parseComments processes all comment tokens associated with an entry and
 // populates the corresponding fields in the Entry struct.
-func parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
+func (p *PoParser) parseComments(entry *po.Entry, tokens []lexer.Token) (err error) {
 	for _, t := range tokens {
 		if t.Type != util.PoSymbols["Comment"] {
 			continue
 		}
-		if obsoleteRegex.MatchString(t.String()) {
+		if _, obsolete := p.obsoleteLine(t.String()); obsolete {
+			// What came before belongs to the obsolete entry.
+			entry.Comments, entry.ExtractedComments, entry.Previous = nil, nil, nil
+			entry.Locations, entry.Flags = nil, nil
 			continue
 		}
 		switch {
@@ -316,7 +332,7 @@ func (p *PoParser) Parse() *po.File {
 		}
 
 		// Parse comments associated with this entry
-		err = parseComments(&newEntry, e.Tokens)
+		err = p.parseComments(&newEntry, e.Tokens)
 		if err != nil {
 			p.error(err.Error())
 		}
@@ -332,9 +348,7 @@ func (p *PoParser) Parse() *po.File {
 	}
 
 	// Process obsolete entries if configured to do so
-	if slices.ContainsFunc(pFile.Tokens, func(t lexer.Token) bool {
-		return t.Type == util.PoSymbols["Comment"] && obsoleteRegex.MatchString(t.String())
-	}) && p.Config.ParseObsoletes {
+	if p.Config.ParseObsoletes {
 		entries = append(entries, p.parseObsoleteEntries(pFile.Tokens)...)
 	}
 
-- 
2.43.0


From 1176423cfed2509b5e97fedfea2c4974ec0e14e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 36/52] fix: concatenation marks a message fuzzy when
 translations conflict, not when one is missing

---
 pkg/po/msgcat_merge.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/po/msgcat_merge.go b/pkg/po/msgcat_merge.go
index 9b96689..68632a5 100644
--- a/pkg/po/msgcat_merge.go
+++ b/pkg/po/msgcat_merge.go
@@ -175,13 +175,30 @@ func msgcatMergeEntry(
 
 	if !mergedEntry.IsFuzzy() &&
 		(originalEntry.FullUnifiedID() != newEntry.FullUnifiedID() ||
-			originalEntry.UnifiedStr() != newEntry.UnifiedStr()) {
+			msgcatConflict(originalEntry, newEntry)) {
 		mergedEntry.Flags = append(slices.Clip(mergedEntry.Flags), "fuzzy")
 	}
 
 	return mergedEntry
 }
 
+// msgcatConflict reports whether both entries are translated, differently.
+func msgcatConflict(a, b Entry) bool {
+	if a.Str == b.Str && slices.Equal(a.Plurals, b.Plurals) {
+		return false
+	}
+	return a.IsPlural() != b.IsPlural() || msgcatTranslated(a) && msgcatTranslated(b)
+}
+
+func msgcatTranslated(e Entry) bool {
+	for _, pe := range e.Plurals {
+		if pe.Str != "" {
+			return true
+		}
+	}
+	return e.Str != ""
+}
+
 // msgcatMergeFlags returns the flags of both entries, each once.
 func msgcatMergeFlags(originalFlags, newFlags []string) []string {
 	flags := slices.Clip(originalFlags)
-- 
2.43.0


From a0055b2df5d6e368c292d6402fd1e40520a8c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 37/52] fix: messages that are not obsolete may be equal

---
 pkg/po/entry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index f758de1..b56d1b4 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -141,7 +141,7 @@ func (e Entry) Hash() uint32 {
 func (e Entry) Equal(x Entry) bool {
 	ok1 := e.FullUnifiedID() == x.FullUnifiedID() && e.UnifiedStr() == x.UnifiedStr()
 	ok2 := slices.CompareFunc(e.Flags, x.Flags, strings.Compare) == 0
-	ok3 := e.Obsolete && x.Obsolete
+	ok3 := e.Obsolete == x.Obsolete
 	return ok1 && ok2 && ok3
 }
 
-- 
2.43.0


From 6c90c79e68397525dcee9217fecb20e01bd163fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 38/52] fix: messages with different keys, texts or plural
 forms are not equal

---
 pkg/po/entry.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/po/entry.go b/pkg/po/entry.go
index b56d1b4..822de48 100644
--- a/pkg/po/entry.go
+++ b/pkg/po/entry.go
@@ -142,7 +142,10 @@ func (e Entry) Equal(x Entry) bool {
 	ok1 := e.FullUnifiedID() == x.FullUnifiedID() && e.UnifiedStr() == x.UnifiedStr()
 	ok2 := slices.CompareFunc(e.Flags, x.Flags, strings.Compare) == 0
 	ok3 := e.Obsolete == x.Obsolete
-	return ok1 && ok2 && ok3
+	// The joined texts alone do not tell where each of them ends.
+	ok4 := e.UnifiedID() == x.UnifiedID() && e.Str == x.Str &&
+		slices.Equal(slices.Clone(e.Plurals).Sort(), slices.Clone(x.Plurals).Sort())
+	return ok1 && ok2 && ok3 && ok4
 }
 
 // IsPlural reports whether the entry is plural or contains plural forms.
-- 
2.43.0


From e67ca8a590b2bd410917b08f2e2b5d7f3073927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:26 +0000
Subject: [PATCH 39/52] fix: comparing lists does not skip the first field of
 their elements

---
 internal/util/equal.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/util/equal.go b/internal/util/equal.go
index 602c8b2..090e7e1 100644
--- a/internal/util/equal.go
+++ b/internal/util/equal.go
@@ -11,7 +11,14 @@ func FuzzyEqual(x, y string) bool {
 	return fuzzy.Ratio(x, y) >= 80
 }
 
-type visitedPairs map[[2]uintptr]struct{}
+// visitedPair is a pair of values of one type: a struct and its first field
+// have the same address.
+type visitedPair struct {
+	typ          reflect.Type
+	addr1, addr2 uintptr
+}
+
+type visitedPairs map[visitedPair]struct{}
 
 func Equal[X, Y any](x X, y Y) bool {
 	return equal(reflect.ValueOf(x), reflect.ValueOf(y), make(visitedPairs))
@@ -38,7 +45,7 @@ func equal(v1, v2 reflect.Value, visited visitedPairs) bool {
 	}
 	if v1.CanAddr() && v2.CanAddr() {
 		addr1, addr2 := v1.UnsafeAddr(), v2.UnsafeAddr()
-		pair := [2]uintptr{addr1, addr2}
+		pair := visitedPair{v1.Type(), addr1, addr2}
 		if _, found := visited[pair]; found {
 			return true
 		}
-- 
2.43.0


From 623d71eb2c4f4f28448515736f66aec77fc55409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 40/52] fix: the line of a literal is the one it begins on

---
 pkg/go/parse/process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index e03b80a..9d73b46 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -64,7 +64,7 @@ func (f *File) basicLitToEntry(n *ast.BasicLit) (po.Entry, error) {
 	return po.Entry{
 		ID: str,
 		Locations: []po.Location{{
-			Line: util.FindLineFromReader(f.reader, n.Pos()),
+			Line: util.FindLineFromReader(f.reader, n.Pos()-1),
 			File: f.name,
 		}},
 	}, nil
@@ -137,7 +137,7 @@ func (f *File) processPoCall(
 			entry.Locations = append(entry.Locations,
 				po.Location{
 					File: f.name,
-					Line: util.FindLineFromReader(f.reader, arg.pos),
+					Line: util.FindLineFromReader(f.reader, arg.pos-1),
 				},
 			)
 			fallthrough
-- 
2.43.0


From 4fd23d99fd81477c82f39e3227f07254b211c084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 41/52] fix: calls of something that shadows the package are
 not translations

---
 pkg/go/parse/process.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index 9d73b46..a276765 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -45,8 +45,9 @@ func (f *File) isGotextCall(n ast.Node) bool {
 		return false
 	}
 
+	// An identifier that is declared in the file is not that of an import.
 	ident, ok := selectorExpr.X.(*ast.Ident)
-	if !ok || ident.Name != f.pkgName {
+	if !ok || ident.Name != f.pkgName || ident.Obj != nil {
 		return false
 	}
 
-- 
2.43.0


From 43face2bcca154e33bd72d3bfb3cf7773eec9934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 42/52] fix: a call with all arguments from another call does
 not lose the file

---
 pkg/go/parse/process.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index a276765..2c00a9b 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -84,6 +84,12 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 	if index == -1 {
 		return
 	}
+	if index >= len(call.Args) && len(call.Args) == 1 {
+		// A call may be the only argument, returning all of them.
+		if _, ok := call.Args[0].(*ast.BasicLit); !ok {
+			return
+		}
+	}
 	if index < 0 || index >= len(call.Args) {
 		a.err = f.error("index (%d) out of range", index)
 		return
-- 
2.43.0


From 33bc6928988aca3222a27bed86f549aeeb8aefa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 43/52] fix: the errors of a Go file are reported

---
 pkg/go/parse/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/go/parse/parser.go b/pkg/go/parse/parser.go
index 8499b4d..e251547 100644
--- a/pkg/go/parse/parser.go
+++ b/pkg/go/parse/parser.go
@@ -204,6 +204,7 @@ func (p *Parser) Parse() (file *po.File) {
 		p.info("parsing %s...", f.name)
 		entries := f.Entries()
 		if err := f.Error(); err != nil {
+			p.errors = append(p.errors, f.Errors()...)
 			continue
 		}
 		file.Entries = append(file.Entries, entries...)
-- 
2.43.0


From 37fa126a675bb2c3eb7d534828e898324742dbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 44/52] fix: with extract-all no literal is lost with a call
 that is not collected, nor are empty ones collected

---
 pkg/go/parse/process.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index 2c00a9b..f2b54aa 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -55,6 +55,11 @@ func (f *File) isGotextCall(n ast.Node) bool {
 	return ok
 }
 
+// isEmptyLit reports whether a literal is that of the empty string.
+func isEmptyLit(lit *ast.BasicLit) bool {
+	return lit.Value == `""` || lit.Value == "``"
+}
+
 // basicLitToEntry converts a basic literal AST node to a translation entry.
 func (f *File) basicLitToEntry(n *ast.BasicLit) (po.Entry, error) {
 	str, err := strconv.Unquote(n.Value)
@@ -77,6 +82,7 @@ type argumentData struct {
 	valid bool
 	err   error
 	pos   token.Pos
+	lit   *ast.BasicLit
 }
 
 // extractArg extracts a string argument from a function call at the specified index.
@@ -104,19 +110,17 @@ func (f *File) extractArg(index int, call *ast.CallExpr) (a argumentData) {
 		return
 	}
 
-	if lit.Value == `""` {
+	if isEmptyLit(lit) {
 		return
 	}
 
-	f.seenNodes[lit] = struct{}{}
-
 	str, err := strconv.Unquote(lit.Value)
 	if err != nil {
 		a.err = f.error("error unquoting basic literal: %w", err)
 		return
 	}
 
-	return argumentData{str, true, err, lit.Pos()}
+	return argumentData{str, true, err, lit.Pos(), lit}
 }
 
 // processPoCall processes a gotext function call and extracts translation entries.
@@ -156,6 +160,16 @@ func (f *File) processPoCall(
 		}
 	}
 
+	if !valid {
+		return
+	}
+
+	for _, arg := range args {
+		if arg.valid {
+			f.seenNodes[arg.lit] = struct{}{}
+		}
+	}
+
 	return
 }
 
@@ -194,7 +208,7 @@ func (f *File) processNode(n ast.Node) (po.Entries, []error) {
 		}
 	case *ast.BasicLit:
 		_, ok := f.seenNodes[t]
-		if t.Kind != token.STRING || ok || t.Value == `""` {
+		if t.Kind != token.STRING || ok || isEmptyLit(t) {
 			break
 		}
 		f.seenNodes[t] = struct{}{}
-- 
2.43.0


From 8201f4b190e50d34ebbcc60224449dfa466ddae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 45/52] fix: every import of the package counts, and none of a
 file parsed before

---
 pkg/go/parse/file.go    | 25 +++++++++++++++----------
 pkg/go/parse/process.go |  3 ++-
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 11a2004..770cacd 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -19,6 +19,8 @@ const (
 	// WantedImport specifies the import path of the "gotext" library
 	// that the parser is looking for in the Go files.
 	WantedImport = `"github.com/leonelquinteros/gotext"`
+	// rawWantedImport is WantedImport as a raw string literal.
+	rawWantedImport = "`github.com/leonelquinteros/gotext`"
 )
 
 // File represents the parser of an individual go file,
@@ -30,9 +32,9 @@ type File struct {
 	seenNodes map[ast.Node]struct{}
 	file      *ast.File // The parsed abstract syntax tree (AST) of the file.
 	reader    *bytes.Reader
-	name      string // The path to the file.
-	pkgName   string // The name of the package declared in the file.
-	hasGotext bool   // Indicates if the file imports the desired "gotext" package.
+	name      string   // The path to the file.
+	pkgNames  []string // The names by which the file imports the desired "gotext" package.
+	hasGotext bool     // Indicates if the file imports the desired "gotext" package.
 
 	errors []error
 }
@@ -87,10 +89,9 @@ func (f *File) Reset(d io.Reader, name string, config *Config) error {
 
 func NewFileFromBytes(b []byte, name string, config *Config) (*File, error) {
 	file := &File{
-		reader:  bytes.NewReader(b),
-		name:    name,
-		pkgName: DefaultPackageName,
-		config:  config,
+		reader: bytes.NewReader(b),
+		name:   name,
+		config: config,
 	}
 
 	if err := file.parse(); err != nil {
@@ -135,13 +136,17 @@ func (f *File) parse() error {
 // determinePackageInfo analyzes the file's AST to extract package-related information.
 // It determines the package name and checks if the desired "gotext" package is imported.
 func (f *File) determinePackageInfo() {
+	f.hasGotext = false
+	f.pkgNames = nil
+
 	for _, imp := range f.file.Imports {
-		if imp.Path.Value == WantedImport {
+		if imp.Path.Value == WantedImport || imp.Path.Value == rawWantedImport {
 			f.hasGotext = true
 			if imp.Name != nil {
-				f.pkgName = imp.Name.String()
+				f.pkgNames = append(f.pkgNames, imp.Name.String())
+			} else {
+				f.pkgNames = append(f.pkgNames, DefaultPackageName)
 			}
-			break
 		}
 	}
 }
diff --git a/pkg/go/parse/process.go b/pkg/go/parse/process.go
index f2b54aa..3c69f97 100644
--- a/pkg/go/parse/process.go
+++ b/pkg/go/parse/process.go
@@ -5,6 +5,7 @@ import (
 	"go/token"
 	"strconv"
 
+	"github.com/Tom5521/gotext-tools/v2/internal/slices"
 	"github.com/Tom5521/gotext-tools/v2/internal/util"
 	"github.com/Tom5521/gotext-tools/v2/pkg/po"
 )
@@ -47,7 +48,7 @@ func (f *File) isGotextCall(n ast.Node) bool {
 
 	// An identifier that is declared in the file is not that of an import.
 	ident, ok := selectorExpr.X.(*ast.Ident)
-	if !ok || ident.Name != f.pkgName || ident.Obj != nil {
+	if !ok || !slices.Contains(f.pkgNames, ident.Name) || ident.Obj != nil {
 		return false
 	}
 
-- 
2.43.0


From cc0686981b25463e6799870d52b87fe65856538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 46/52] fix: paths that cannot be read are reported

---
 cli/xgotext/cmd/input.go | 4 ++++
 pkg/go/parse/parser.go   | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/cli/xgotext/cmd/input.go b/cli/xgotext/cmd/input.go
index 17ac4a4..0c03252 100644
--- a/cli/xgotext/cmd/input.go
+++ b/cli/xgotext/cmd/input.go
@@ -73,6 +73,10 @@ func readFiles(paths []string) ([]*os.File, error) {
 	for _, path := range paths {
 		walker := krfs.Walk(path)
 		for walker.Step() {
+			if err := walker.Err(); err != nil {
+				return nil, err
+			}
+
 			if util.ShouldSkipFile(walker, exclude, &seenFiles, logger) {
 				continue
 			}
diff --git a/pkg/go/parse/parser.go b/pkg/go/parse/parser.go
index e251547..6fad1ba 100644
--- a/pkg/go/parse/parser.go
+++ b/pkg/go/parse/parser.go
@@ -58,6 +58,11 @@ func (p *Parser) appendFiles(files ...string) error {
 	for _, file := range files {
 		walker := krfs.Walk(file)
 		for walker.Step() {
+			if err := walker.Err(); err != nil {
+				p.error("error reading path %s: %w", walker.Path(), err)
+				return p.lastErr()
+			}
+
 			if util.ShouldSkipFile(walker, p.Config.Exclude, &p.seen, p.Config.Logger) {
 				continue
 			}
-- 
2.43.0


From 3b0b508648ab156278099e910955f209d8abd366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 47/52] fix: lines of a Go file are counted from where it was
 read

---
 pkg/go/parse/file.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pkg/go/parse/file.go b/pkg/go/parse/file.go
index 770cacd..19a7ceb 100644
--- a/pkg/go/parse/file.go
+++ b/pkg/go/parse/file.go
@@ -61,15 +61,12 @@ func (f *File) Reset(d io.Reader, name string, config *Config) error {
 	f.seenNodes = nil
 	f.errors = nil
 
-	if r, ok := d.(*bytes.Reader); ok {
-		f.reader = r
-	} else {
-		b, err := io.ReadAll(d)
-		if err != nil {
-			return err
-		}
-		f.reader = bytes.NewReader(b)
+	// The reader may have been read in part.
+	b, err := io.ReadAll(d)
+	if err != nil {
+		return err
 	}
+	f.reader = bytes.NewReader(b)
 	f.name = name
 
 	if config != nil {
-- 
2.43.0


From b10c07e7cf290aa8deb5c267c2a58c98ad9d4087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 48/52] fix: msgocat reads the input files named by
 --files-from

---
 cli/msgocat/cmd/parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cli/msgocat/cmd/parse.go b/cli/msgocat/cmd/parse.go
index 9c107de..c2be639 100644
--- a/cli/msgocat/cmd/parse.go
+++ b/cli/msgocat/cmd/parse.go
@@ -22,8 +22,10 @@ func expandArgsWithFiles(args []string) ([]string, error) {
 		return nil, err
 	}
 
-	if len(filesFromContent) > 0 {
-		filesFromContent = strings.Split(string(filesFromBinContent), "\n")
+	for _, line := range strings.Split(string(filesFromBinContent), "\n") {
+		if line != "" {
+			filesFromContent = append(filesFromContent, line)
+		}
 	}
 
 	var directoryContent []string
-- 
2.43.0


From 89e2fee55bbb48a51791b7fbdca57dd1220ea219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 49/52] fix: msgofmt writes to standard output when the output
 is -

---
 cli/msgofmt/cmd/root.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cli/msgofmt/cmd/root.go b/cli/msgofmt/cmd/root.go
index 64dc529..393ba75 100644
--- a/cli/msgofmt/cmd/root.go
+++ b/cli/msgofmt/cmd/root.go
@@ -38,7 +38,9 @@ If input file is -, standard input is read.`,
 	},
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
 		if directory != "" {
-			output = filepath.Join(directory, output)
+			if output != "-" {
+				output = filepath.Join(directory, output)
+			}
 			for i, v := range args {
 				if v == "-" {
 					continue
@@ -105,6 +107,10 @@ If input file is -, standard input is read.`,
 			return
 		}
 
+		if output == "-" {
+			return compile.MoToWriter(allEntries, os.Stdout, compile.MoWithConfig(compilerCfg))
+		}
+
 		return compile.MoToFile(allEntries, output, compile.MoWithConfig(compilerCfg))
 	},
 }
-- 
2.43.0


From 8130cd96558fece242802e74618ff1db373528e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 50/52] fix: msgomerge keeps the header and opens its outputs
 after reading its inputs

---
 cli/msgomerge/cmd/config.go |  1 -
 cli/msgomerge/cmd/root.go   | 61 ++++++++++++++++++-------------------
 2 files changed, 30 insertions(+), 32 deletions(-)

diff --git a/cli/msgomerge/cmd/config.go b/cli/msgomerge/cmd/config.go
index 04b9c55..2a83ff3 100644
--- a/cli/msgomerge/cmd/config.go
+++ b/cli/msgomerge/cmd/config.go
@@ -22,7 +22,6 @@ func initConfig(cmd *cobra.Command, args []string) {
 		AddLocation: compile.PoLocationMode(addLocation),
 		WordWrap:    !noWrap,
 		ForcePo:     forcePo,
-		OmitHeader:  true,
 		Verbose:     verbose,
 		Logger:      log.Default(),
 	}
diff --git a/cli/msgomerge/cmd/root.go b/cli/msgomerge/cmd/root.go
index 7b813c9..ae630c4 100644
--- a/cli/msgomerge/cmd/root.go
+++ b/cli/msgomerge/cmd/root.go
@@ -35,11 +35,7 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 		use, use, use,
 	),
 	Args: func(cmd *cobra.Command, args []string) error {
-		if len(args) != 2 && len(compendium) < 1 {
-			return cobra.ExactArgs(2)(cmd, args)
-		}
-
-		return nil
+		return cobra.ExactArgs(2)(cmd, args)
 	},
 	PreRun: initConfig,
 	RunE: func(cmd *cobra.Command, args []string) (err error) {
@@ -54,28 +50,15 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 		}
 
 		var defFile, refFile *os.File
-		if defFile, err = os.OpenFile(defPath, os.O_RDWR, os.ModePerm); err != nil {
+		if defFile, err = os.Open(defPath); err != nil {
 			return err
 		}
-		if refFile, err = os.OpenFile(refPath, os.O_RDWR, os.ModePerm); err != nil {
+		defer defFile.Close()
+		if refFile, err = os.Open(refPath); err != nil {
 			return err
 		}
-		defer defFile.Close()
 		defer refFile.Close()
 
-		var outWriter io.Writer
-		if outputPath == "-" {
-			outWriter = os.Stdout
-		} else {
-			var file *os.File
-			file, err = os.OpenFile(outputPath, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, os.ModePerm)
-			if err != nil {
-				return err
-			}
-			defer file.Close()
-			outWriter = file
-		}
-
 		var def, ref *po.File
 		if def, err = parse.PoFromFile(defFile); err != nil {
 			return err
@@ -97,21 +80,37 @@ Where an exact match cannot be found, fuzzy matching is used to produce better r
 			ref.Entries = ref.Solve()
 		}
 
-		if update {
-			// Reset and truncate defFile
-			if _, err := defFile.Seek(0, 0); err != nil {
+		out := &po.File{
+			Name:    outputPath,
+			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
+		}
+
+		// The outputs may be the inputs: they are opened only now.
+		var outWriter io.Writer
+		if outputPath == "-" {
+			outWriter = os.Stdout
+		} else {
+			var file *os.File
+			file, err = os.OpenFile(outputPath, os.O_TRUNC|os.O_CREATE|os.O_WRONLY, os.ModePerm)
+			if err != nil {
 				return err
 			}
-			if err := defFile.Truncate(0); err != nil {
+			defer file.Close()
+			outWriter = file
+		}
+
+		if update {
+			var updated *os.File
+			updated, err = os.OpenFile(defPath, os.O_TRUNC|os.O_WRONLY, os.ModePerm)
+			if err != nil {
 				return err
 			}
+			defer updated.Close()
 
-			outWriter = io.MultiWriter(defFile, outWriter)
-		}
-
-		out := &po.File{
-			Name:    outputPath,
-			Entries: po.MergeWithConfig(mergeCfg, def.Entries, ref.Entries),
+			err = compile.PoToWriter(out, updated, compile.PoWithConfig(compilerCfg))
+			if err != nil {
+				return err
+			}
 		}
 
 		return compile.PoToWriter(out, outWriter, compile.PoWithConfig(compilerCfg))
-- 
2.43.0


From 5d37d8e02fe9e3e377b171e90647156df62f361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:29 +0000
Subject: [PATCH 51/52] fix: xgotext -j reads the existing file before
 truncating it; blank lines of file lists name no file

---
 cli/xgotext/cmd/output.go | 5 +++++
 cli/xgotext/cmd/root.go   | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/xgotext/cmd/output.go b/cli/xgotext/cmd/output.go
index a0d2aef..7c327dc 100644
--- a/cli/xgotext/cmd/output.go
+++ b/cli/xgotext/cmd/output.go
@@ -22,6 +22,11 @@ func processOutput() (*os.File, error) {
 		return nil, fmt.Errorf("file %s already exists", outputFilePath)
 	}
 
+	if joinExisting {
+		// What it holds is read first.
+		return os.OpenFile(outputFilePath, os.O_RDWR|os.O_CREATE, os.ModePerm)
+	}
+
 	// Truncate file.
 	return os.Create(outputFilePath)
 }
diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 83f33b6..1982d94 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -74,7 +74,9 @@ func readFilesFrom(path string) ([]string, error) {
 	}
 	var files []string
 	for _, line := range bytes.Split(file, []byte{'\n'}) {
-		files = append(files, string(line))
+		if len(line) > 0 {
+			files = append(files, string(line))
+		}
 	}
 
 	return files, nil
-- 
2.43.0


From 1ba41d6d2c10a7e2a69e85042576d9cb6825c173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:25 +0000
Subject: [PATCH 52/52] fix: xgotext logs to standard error, its messages are
 not part of the result

---
 cli/xgotext/cmd/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/xgotext/cmd/root.go b/cli/xgotext/cmd/root.go
index 1982d94..5c2a18c 100644
--- a/cli/xgotext/cmd/root.go
+++ b/cli/xgotext/cmd/root.go
@@ -10,7 +10,7 @@ import (
 	"github.com/spf13/cobra"
 )
 
-var logger = log.New(os.Stdout, "", log.Ltime)
+var logger = log.New(os.Stderr, "", log.Ltime)
 
 var use = "xgotext"
 
-- 
2.43.0

