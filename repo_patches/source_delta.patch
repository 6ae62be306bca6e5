From d250956ca723a98525660e0ecce2a46720dba9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:27 +0000
Subject: [PATCH 01/65] fix: tag-value writer delimits text with outer white
 space or <text> in it

---
 spdx/v2/v2_1/tagvalue/writer/util.go | 4 +++-
 spdx/v2/v2_2/tagvalue/writer/util.go | 4 +++-
 spdx/v2/v2_3/tagvalue/writer/util.go | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/writer/util.go b/spdx/v2/v2_1/tagvalue/writer/util.go
index 5298ee0..11f3395 100644
--- a/spdx/v2/v2_1/tagvalue/writer/util.go
+++ b/spdx/v2/v2_1/tagvalue/writer/util.go
@@ -8,7 +8,9 @@ import (
 )
 
 func textify(s string) string {
-	if strings.Contains(s, "\n") {
+	// text that starts or ends with white space or contains <text> must be
+	// delimited too, or it would not be read back as written
+	if strings.Contains(s, "\n") || strings.Contains(s, "<text>") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
diff --git a/spdx/v2/v2_2/tagvalue/writer/util.go b/spdx/v2/v2_2/tagvalue/writer/util.go
index 5298ee0..11f3395 100644
--- a/spdx/v2/v2_2/tagvalue/writer/util.go
+++ b/spdx/v2/v2_2/tagvalue/writer/util.go
@@ -8,7 +8,9 @@ import (
 )
 
 func textify(s string) string {
-	if strings.Contains(s, "\n") {
+	// text that starts or ends with white space or contains <text> must be
+	// delimited too, or it would not be read back as written
+	if strings.Contains(s, "\n") || strings.Contains(s, "<text>") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
diff --git a/spdx/v2/v2_3/tagvalue/writer/util.go b/spdx/v2/v2_3/tagvalue/writer/util.go
index 5298ee0..11f3395 100644
--- a/spdx/v2/v2_3/tagvalue/writer/util.go
+++ b/spdx/v2/v2_3/tagvalue/writer/util.go
@@ -8,7 +8,9 @@ import (
 )
 
 func textify(s string) string {
-	if strings.Contains(s, "\n") {
+	// text that starts or ends with white space or contains <text> must be
+	// delimited too, or it would not be read back as written
+	if strings.Contains(s, "\n") || strings.Contains(s, "<text>") || strings.TrimSpace(s) != s {
 		return fmt.Sprintf("<text>%s</text>", s)
 	}
 
-- 
2.43.0


From 075b0398a9235915d4769863b78ed3288f9c342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 02/65] fix: tag-value reader accepts lines longer than 64 KiB

---
 tagvalue/reader/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tagvalue/reader/reader.go b/tagvalue/reader/reader.go
index 786f7ea..59444e4 100644
--- a/tagvalue/reader/reader.go
+++ b/tagvalue/reader/reader.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 	"unicode"
 )
@@ -22,6 +23,8 @@ func ReadTagValues(content io.Reader) ([]TagValuePair, error) {
 	r := &tvReader{}
 
 	scanner := bufio.NewScanner(content)
+	// lines may be of any length
+	scanner.Buffer(nil, math.MaxInt)
 	for scanner.Scan() {
 		// read each line, one by one
 		err := r.readNextLine(scanner.Text())
-- 
2.43.0


From eef206464ba59d28486e84a01e5e331e3fc2d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 03/65] fix: tag-value reader splits the excluded files of a
 verification code as they are written

---
 spdx/v2/v2_1/tagvalue/reader/parse_package.go | 14 +++++++++++---
 spdx/v2/v2_2/tagvalue/reader/parse_package.go | 14 +++++++++++---
 spdx/v2/v2_3/tagvalue/reader/parse_package.go | 14 +++++++++++---
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_package.go b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
index 4d4c491..2b9e8e1 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
@@ -195,9 +195,17 @@ func extractCodeAndExcludes(value string) common.PackageVerificationCode {
 	// if we're here, code is in first part and excludes filename is in
 	// second part, with trailing paren
 	code := strings.TrimSpace(sp[0])
-	parsedSp := strings.SplitN(sp[1], ")", 2)
-	fileName := strings.TrimSpace(parsedSp[0])
-	return common.PackageVerificationCode{Value: code, ExcludedFiles: []string{fileName}}
+	// (file names may have parens in them, so the last one is the trailing one);
+	// if there are several filenames, they are separated by ", "
+	excludes := sp[1]
+	if i := strings.LastIndex(excludes, ")"); i >= 0 {
+		excludes = excludes[:i]
+	}
+	fileNames := strings.Split(excludes, ", ")
+	for i := range fileNames {
+		fileNames[i] = strings.TrimSpace(fileNames[i])
+	}
+	return common.PackageVerificationCode{Value: code, ExcludedFiles: fileNames}
 }
 
 func extractPackageExternalReference(value string) (string, string, string, error) {
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_package.go b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
index c6a17b0..cbe95e3 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
@@ -209,9 +209,17 @@ func extractCodeAndExcludes(value string) common.PackageVerificationCode {
 	// if we're here, code is in first part and excludes filename is in
 	// second part, with trailing paren
 	code := strings.TrimSpace(sp[0])
-	parsedSp := strings.SplitN(sp[1], ")", 2)
-	fileName := strings.TrimSpace(parsedSp[0])
-	return common.PackageVerificationCode{Value: code, ExcludedFiles: []string{fileName}}
+	// (file names may have parens in them, so the last one is the trailing one);
+	// if there are several filenames, they are separated by ", "
+	excludes := sp[1]
+	if i := strings.LastIndex(excludes, ")"); i >= 0 {
+		excludes = excludes[:i]
+	}
+	fileNames := strings.Split(excludes, ", ")
+	for i := range fileNames {
+		fileNames[i] = strings.TrimSpace(fileNames[i])
+	}
+	return common.PackageVerificationCode{Value: code, ExcludedFiles: fileNames}
 }
 
 func extractPackageExternalReference(value string) (string, string, string, error) {
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_package.go b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
index b01fbef..990921e 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
@@ -225,9 +225,17 @@ func extractCodeAndExcludes(value string) *common.PackageVerificationCode {
 	// if we're here, code is in first part and excludes filename is in
 	// second part, with trailing paren
 	code := strings.TrimSpace(sp[0])
-	parsedSp := strings.SplitN(sp[1], ")", 2)
-	fileName := strings.TrimSpace(parsedSp[0])
-	return &common.PackageVerificationCode{Value: code, ExcludedFiles: []string{fileName}}
+	// (file names may have parens in them, so the last one is the trailing one);
+	// if there are several filenames, they are separated by ", "
+	excludes := sp[1]
+	if i := strings.LastIndex(excludes, ")"); i >= 0 {
+		excludes = excludes[:i]
+	}
+	fileNames := strings.Split(excludes, ", ")
+	for i := range fileNames {
+		fileNames[i] = strings.TrimSpace(fileNames[i])
+	}
+	return &common.PackageVerificationCode{Value: code, ExcludedFiles: fileNames}
 }
 
 func extractPackageExternalReference(value string) (string, string, string, error) {
-- 
2.43.0


From 7c74b4b31988a75d2ef88f93af144aa51a31a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 04/65] fix: tag-value writer does not write an empty snippet
 file identifier, which cannot be read

---
 spdx/v2/v2_1/tagvalue/writer/save_snippet.go | 2 +-
 spdx/v2/v2_2/tagvalue/writer/save_snippet.go | 2 +-
 spdx/v2/v2_3/tagvalue/writer/save_snippet.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/writer/save_snippet.go b/spdx/v2/v2_1/tagvalue/writer/save_snippet.go
index afb5b80..bc8beaa 100644
--- a/spdx/v2/v2_1/tagvalue/writer/save_snippet.go
+++ b/spdx/v2/v2_1/tagvalue/writer/save_snippet.go
@@ -15,7 +15,7 @@ func renderSnippet(sn *spdx.Snippet, w io.Writer) error {
 		fmt.Fprintf(w, "SnippetSPDXID: %s\n", common.RenderElementID(sn.SnippetSPDXIdentifier))
 	}
 	snFromFileIDStr := common.RenderElementID(sn.SnippetFromFileSPDXIdentifier)
-	if snFromFileIDStr != "" {
+	if sn.SnippetFromFileSPDXIdentifier != "" {
 		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", snFromFileIDStr)
 	}
 
diff --git a/spdx/v2/v2_2/tagvalue/writer/save_snippet.go b/spdx/v2/v2_2/tagvalue/writer/save_snippet.go
index 6845ec9..682467c 100644
--- a/spdx/v2/v2_2/tagvalue/writer/save_snippet.go
+++ b/spdx/v2/v2_2/tagvalue/writer/save_snippet.go
@@ -15,7 +15,7 @@ func renderSnippet(sn *spdx.Snippet, w io.Writer) error {
 		fmt.Fprintf(w, "SnippetSPDXID: %s\n", common.RenderElementID(sn.SnippetSPDXIdentifier))
 	}
 	snFromFileIDStr := common.RenderElementID(sn.SnippetFromFileSPDXIdentifier)
-	if snFromFileIDStr != "" {
+	if sn.SnippetFromFileSPDXIdentifier != "" {
 		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", snFromFileIDStr)
 	}
 
diff --git a/spdx/v2/v2_3/tagvalue/writer/save_snippet.go b/spdx/v2/v2_3/tagvalue/writer/save_snippet.go
index f7914af..3a51797 100644
--- a/spdx/v2/v2_3/tagvalue/writer/save_snippet.go
+++ b/spdx/v2/v2_3/tagvalue/writer/save_snippet.go
@@ -15,7 +15,7 @@ func renderSnippet(sn *spdx.Snippet, w io.Writer) error {
 		fmt.Fprintf(w, "SnippetSPDXID: %s\n", common.RenderElementID(sn.SnippetSPDXIdentifier))
 	}
 	snFromFileIDStr := common.RenderElementID(sn.SnippetFromFileSPDXIdentifier)
-	if snFromFileIDStr != "" {
+	if sn.SnippetFromFileSPDXIdentifier != "" {
 		fmt.Fprintf(w, "SnippetFromFileSPDXID: %s\n", snFromFileIDStr)
 	}
 
-- 
2.43.0


From f42975d647f278c0e30b750aebec29c0569f5d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 05/65] fix: JSON strings of agents and identifiers are
 unescaped when read

---
 spdx/v2/common/annotation.go    |  7 +++++--
 spdx/v2/common/creation_info.go |  7 +++++--
 spdx/v2/common/identifier.go    | 19 +++++++++++++------
 spdx/v2/common/package.go       | 13 +++++++++----
 4 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/spdx/v2/common/annotation.go b/spdx/v2/common/annotation.go
index 096a36f..1c3d130 100644
--- a/spdx/v2/common/annotation.go
+++ b/spdx/v2/common/annotation.go
@@ -3,6 +3,7 @@
 package common
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 
@@ -19,8 +20,10 @@ type Annotator struct {
 // This function is also used when unmarshalling YAML
 func (a *Annotator) UnmarshalJSON(data []byte) error {
 	// annotator will simply be a string
-	annotatorStr := string(data)
-	annotatorStr = strings.Trim(annotatorStr, "\"")
+	var annotatorStr string
+	if err := json.Unmarshal(data, &annotatorStr); err != nil {
+		return err
+	}
 
 	annotatorFields := strings.SplitN(annotatorStr, ":", 2)
 
diff --git a/spdx/v2/common/creation_info.go b/spdx/v2/common/creation_info.go
index 5fc52bc..e505d41 100644
--- a/spdx/v2/common/creation_info.go
+++ b/spdx/v2/common/creation_info.go
@@ -3,6 +3,7 @@
 package common
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 
@@ -20,8 +21,10 @@ type Creator struct {
 // UnmarshalJSON takes an annotator in the typical one-line format and parses it into a Creator struct.
 // This function is also used when unmarshalling YAML
 func (c *Creator) UnmarshalJSON(data []byte) error {
-	str := string(data)
-	str = strings.Trim(str, "\"")
+	var str string
+	if err := json.Unmarshal(data, &str); err != nil {
+		return err
+	}
 	fields := strings.SplitN(str, ":", 2)
 
 	if len(fields) != 2 {
diff --git a/spdx/v2/common/identifier.go b/spdx/v2/common/identifier.go
index 17396a4..2b8e090 100644
--- a/spdx/v2/common/identifier.go
+++ b/spdx/v2/common/identifier.go
@@ -3,6 +3,7 @@
 package common
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 
@@ -27,8 +28,10 @@ func (d DocumentID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON validates DocumentRef- prefixes and removes them when processing DocumentIDs
 func (d *DocumentID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	var idStr string
+	if err := json.Unmarshal(data, &idStr); err != nil {
+		return err
+	}
 
 	documentID, err := trimDocumentIdPrefix(idStr)
 	if err != nil {
@@ -71,8 +74,10 @@ func (d ElementID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON validates SPDXRef- prefixes and removes them when processing ElementIDs
 func (d *ElementID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	var idStr string
+	if err := json.Unmarshal(data, &idStr); err != nil {
+		return err
+	}
 
 	elementID, err := trimElementIdPrefix(idStr)
 	if err != nil {
@@ -141,8 +146,10 @@ func (d DocElementID) MarshalJSON() ([]byte, error) {
 // This function is also used when unmarshalling YAML
 func (d *DocElementID) UnmarshalJSON(data []byte) error {
 	// SPDX identifier will simply be a string
-	idStr := string(data)
-	idStr = strings.Trim(idStr, "\"")
+	var idStr string
+	if err := json.Unmarshal(data, &idStr); err != nil {
+		return err
+	}
 
 	// handle special cases
 	if idStr == "NONE" || idStr == "NOASSERTION" {
diff --git a/spdx/v2/common/package.go b/spdx/v2/common/package.go
index 0bcbe7d..c40b921 100644
--- a/spdx/v2/common/package.go
+++ b/spdx/v2/common/package.go
@@ -3,6 +3,7 @@
 package common
 
 import (
+	"encoding/json"
 	"fmt"
 	"strings"
 
@@ -20,8 +21,10 @@ type Supplier struct {
 // This function is also used when unmarshalling YAML
 func (s *Supplier) UnmarshalJSON(data []byte) error {
 	// the value is just a string presented as a slice of bytes
-	supplierStr := string(data)
-	supplierStr = strings.Trim(supplierStr, "\"")
+	var supplierStr string
+	if err := json.Unmarshal(data, &supplierStr); err != nil {
+		return err
+	}
 
 	if supplierStr == "NOASSERTION" {
 		s.Supplier = supplierStr
@@ -63,8 +66,10 @@ type Originator struct {
 // This function is also used when unmarshalling YAML
 func (o *Originator) UnmarshalJSON(data []byte) error {
 	// the value is just a string presented as a slice of bytes
-	originatorStr := string(data)
-	originatorStr = strings.Trim(originatorStr, "\"")
+	var originatorStr string
+	if err := json.Unmarshal(data, &originatorStr); err != nil {
+		return err
+	}
 
 	if originatorStr == "NOASSERTION" {
 		o.Originator = originatorStr
-- 
2.43.0


From 2fc474e33107b87de1e72a099d1aba2625d74b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 06/65] fix: YAML writer escapes control characters, which YAML
 forbids or folds

---
 yaml/writer.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/yaml/writer.go b/yaml/writer.go
index 4ec078f..c23262d 100644
--- a/yaml/writer.go
+++ b/yaml/writer.go
@@ -3,6 +3,9 @@
 package yaml
 
 import (
+	"bytes"
+	"encoding/json"
+	"fmt"
 	"io"
 
 	"sigs.k8s.io/yaml"
@@ -12,7 +15,12 @@ import (
 
 // Write takes an SPDX Document and an io.Writer, and writes the document to the writer in YAML format.
 func Write(doc common.AnyDocument, w io.Writer) error {
-	buf, err := yaml.Marshal(doc)
+	buf, err := json.Marshal(doc)
+	if err != nil {
+		return err
+	}
+
+	buf, err = yaml.JSONToYAML(escapeControls(buf))
 	if err != nil {
 		return err
 	}
@@ -24,3 +32,17 @@ func Write(doc common.AnyDocument, w io.Writer) error {
 
 	return nil
 }
+
+// escapeControls escapes the characters which may stand unescaped in JSON but not in YAML,
+// where they are forbidden or taken for line breaks.
+func escapeControls(js []byte) []byte {
+	var out bytes.Buffer
+	for _, r := range string(js) {
+		if r >= 0x7f && r <= 0x9f || r == 0xfffe || r == 0xffff {
+			fmt.Fprintf(&out, "\\u%04x", r)
+		} else {
+			out.WriteRune(r)
+		}
+	}
+	return out.Bytes()
+}
-- 
2.43.0


From 48e21f47bef7814a32c3115851f39ee8a23bfdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 07/65] fix: upgrading to 2.3 does not state an empty
 verification code for packages without one

---
 spdx/v2/v2_3/document.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/spdx/v2/v2_3/document.go b/spdx/v2/v2_3/document.go
index 1c76750..5497c6a 100644
--- a/spdx/v2/v2_3/document.go
+++ b/spdx/v2/v2_3/document.go
@@ -74,6 +74,14 @@ type Document struct {
 
 func From_v2_2(_ v2_2.Document, d *Document) {
 	d.SPDXVersion = Version
+
+	// the verification code is not optional in 2.2 packages: one that is not stated there remains not stated
+	for _, p := range d.Packages {
+		if p != nil && p.PackageVerificationCode != nil &&
+			p.PackageVerificationCode.Value == "" && len(p.PackageVerificationCode.ExcludedFiles) == 0 {
+			p.PackageVerificationCode = nil
+		}
+	}
 }
 
 func To_v2_2(_ Document, d *v2_2.Document) {
-- 
2.43.0


From 4e36849981084dd3d0e8c76014883c2dbe531b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 08/65] fix: tag-value reader lists a package or file once,
 also if its identifier is stated again or its name is empty

---
 spdx/v2/v2_1/tagvalue/reader/parse_file.go    | 5 +++++
 spdx/v2/v2_1/tagvalue/reader/parse_package.go | 9 ++++++---
 spdx/v2/v2_2/tagvalue/reader/parse_file.go    | 5 +++++
 spdx/v2/v2_2/tagvalue/reader/parse_package.go | 9 ++++++---
 spdx/v2/v2_3/tagvalue/reader/parse_file.go    | 5 +++++
 spdx/v2/v2_3/tagvalue/reader/parse_package.go | 9 ++++++---
 6 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_file.go b/spdx/v2/v2_1/tagvalue/reader/parse_file.go
index 46f494c..dcf710b 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_file.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_file.go
@@ -48,7 +48,12 @@ func (parser *tvParser) parsePairFromFile(tag string, value string) error {
 		if err != nil {
 			return err
 		}
+		// a file is listed once, also if its identifier is stated again
+		listed := parser.file.FileSPDXIdentifier != nullSpdxElementId
 		parser.file.FileSPDXIdentifier = eID
+		if listed {
+			break
+		}
 		if parser.pkg == nil {
 			if parser.doc.Files == nil {
 				parser.doc.Files = []*v2_1.File{}
diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_package.go b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
index 2b9e8e1..a47b8db 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
@@ -20,7 +20,7 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 	switch tag {
 	case "PackageName":
 		// if package already has a name, create and go on to a new package
-		if parser.pkg == nil || parser.pkg.PackageName != "" {
+		if parser.pkg == nil || parser.pkg.PackageName != "" || parser.pkg.PackageSPDXIdentifier != nullSpdxElementId {
 			// check if the previous package contained an spdxId or not
 			if parser.pkg != nil && parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
 				return fmt.Errorf("package with PackageName %s does not have SPDX identifier", parser.pkg.PackageName)
@@ -44,11 +44,14 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 		if err != nil {
 			return err
 		}
-		parser.pkg.PackageSPDXIdentifier = eID
 		if parser.doc.Packages == nil {
 			parser.doc.Packages = []*v2_1.Package{}
 		}
-		parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
+		// a package is listed once, also if its identifier is stated again
+		if parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
+			parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
+		}
+		parser.pkg.PackageSPDXIdentifier = eID
 	case "PackageVersion":
 		parser.pkg.PackageVersion = value
 	case "PackageFileName":
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_file.go b/spdx/v2/v2_2/tagvalue/reader/parse_file.go
index 25537df..72b6f94 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_file.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_file.go
@@ -48,7 +48,12 @@ func (parser *tvParser) parsePairFromFile(tag string, value string) error {
 		if err != nil {
 			return err
 		}
+		// a file is listed once, also if its identifier is stated again
+		listed := parser.file.FileSPDXIdentifier != nullSpdxElementId
 		parser.file.FileSPDXIdentifier = eID
+		if listed {
+			break
+		}
 		if parser.pkg == nil {
 			if parser.doc.Files == nil {
 				parser.doc.Files = []*v2_2.File{}
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_package.go b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
index cbe95e3..e3ddf29 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
@@ -20,7 +20,7 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 	switch tag {
 	case "PackageName":
 		// if package already has a name, create and go on to a new package
-		if parser.pkg == nil || parser.pkg.PackageName != "" {
+		if parser.pkg == nil || parser.pkg.PackageName != "" || parser.pkg.PackageSPDXIdentifier != nullSpdxElementId {
 			// check if the previous package contained an spdx Id or not
 			if parser.pkg != nil && parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
 				return fmt.Errorf("package with PackageName %s does not have SPDX identifier", parser.pkg.PackageName)
@@ -44,11 +44,14 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 		if err != nil {
 			return err
 		}
-		parser.pkg.PackageSPDXIdentifier = eID
 		if parser.doc.Packages == nil {
 			parser.doc.Packages = []*v2_2.Package{}
 		}
-		parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
+		// a package is listed once, also if its identifier is stated again
+		if parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
+			parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
+		}
+		parser.pkg.PackageSPDXIdentifier = eID
 	case "PackageVersion":
 		parser.pkg.PackageVersion = value
 	case "PackageFileName":
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_file.go b/spdx/v2/v2_3/tagvalue/reader/parse_file.go
index 25badf0..0d79dc2 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_file.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_file.go
@@ -48,7 +48,12 @@ func (parser *tvParser) parsePairFromFile(tag string, value string) error {
 		if err != nil {
 			return err
 		}
+		// a file is listed once, also if its identifier is stated again
+		listed := parser.file.FileSPDXIdentifier != nullSpdxElementId
 		parser.file.FileSPDXIdentifier = eID
+		if listed {
+			break
+		}
 		if parser.pkg == nil {
 			if parser.doc.Files == nil {
 				parser.doc.Files = []*spdx.File{}
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_package.go b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
index 990921e..1bbddda 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
@@ -20,7 +20,7 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 	switch tag {
 	case "PackageName":
 		// if package already has a name, create and go on to a new package
-		if parser.pkg == nil || parser.pkg.PackageName != "" {
+		if parser.pkg == nil || parser.pkg.PackageName != "" || parser.pkg.PackageSPDXIdentifier != nullSpdxElementId {
 			// check if the previous package contained an spdx Id or not
 			if parser.pkg != nil && parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
 				return fmt.Errorf("package with PackageName %s does not have SPDX identifier", parser.pkg.PackageName)
@@ -44,11 +44,14 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 		if err != nil {
 			return err
 		}
-		parser.pkg.PackageSPDXIdentifier = eID
 		if parser.doc.Packages == nil {
 			parser.doc.Packages = []*spdx.Package{}
 		}
-		parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
+		// a package is listed once, also if its identifier is stated again
+		if parser.pkg.PackageSPDXIdentifier == nullSpdxElementId {
+			parser.doc.Packages = append(parser.doc.Packages, parser.pkg)
+		}
+		parser.pkg.PackageSPDXIdentifier = eID
 	case "PackageVersion":
 		parser.pkg.PackageVersion = value
 	case "PackageFileName":
-- 
2.43.0


From 71eee18e3662d8d61a6d5526a5d85a90ed0d7444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 09/65] fix: nil and doubly indirect documents give an error
 instead of a panic, also when they are described

---
 convert/chain.go  |  6 ++++++
 convert/struct.go | 16 ++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/convert/chain.go b/convert/chain.go
index e1607ec..136e4db 100644
--- a/convert/chain.go
+++ b/convert/chain.go
@@ -31,6 +31,12 @@ func Document(from common.AnyDocument, to common.AnyDocument) error {
 	if !IsPtr(to) {
 		return fmt.Errorf("struct to convert to must be a pointer")
 	}
+	if target := reflect.ValueOf(to); target.IsNil() || target.Elem().Kind() == reflect.Ptr {
+		return fmt.Errorf("struct to convert to must be a pointer to a document, not %T", to)
+	}
+	if value := reflect.ValueOf(from); !value.IsValid() || value.Kind() == reflect.Ptr && value.IsNil() {
+		return fmt.Errorf("no document to convert from")
+	}
 	from = FromPtr(from)
 	if reflect.TypeOf(from) == reflect.TypeOf(FromPtr(to)) {
 		reflect.ValueOf(to).Elem().Set(reflect.ValueOf(from))
diff --git a/convert/struct.go b/convert/struct.go
index 7223dbd..e64df6d 100644
--- a/convert/struct.go
+++ b/convert/struct.go
@@ -12,7 +12,10 @@ import (
 // FromPtr accepts a document or a document pointer and returns the direct struct reference
 func FromPtr(doc common.AnyDocument) common.AnyDocument {
 	value := reflect.ValueOf(doc)
-	for value.Type().Kind() == reflect.Ptr {
+	if !value.IsValid() {
+		return doc
+	}
+	for value.Type().Kind() == reflect.Ptr && !value.IsNil() {
 		value = value.Elem()
 	}
 	return value.Interface()
@@ -20,6 +23,9 @@ func FromPtr(doc common.AnyDocument) common.AnyDocument {
 
 func IsPtr(obj common.AnyDocument) bool {
 	t := reflect.TypeOf(obj)
+	if t == nil {
+		return false
+	}
 	if t.Kind() == reflect.Interface {
 		t = t.Elem()
 	}
@@ -28,9 +34,12 @@ func IsPtr(obj common.AnyDocument) bool {
 
 func Describe(o interface{}) string {
 	value := reflect.ValueOf(o)
+	if !value.IsValid() {
+		return "nil"
+	}
 	typ := value.Type()
 	prefix := ""
-	for typ.Kind() == reflect.Ptr {
+	for typ.Kind() == reflect.Ptr && !value.IsNil() {
 		prefix += "*"
 		value = value.Elem()
 		typ = value.Type()
@@ -45,6 +54,9 @@ func limit(text string, length int) string {
 		return text
 	}
 	r := []rune(text)
+	if len(r) <= length+3 {
+		return text
+	}
 	r = r[:length]
 	return string(r) + "..."
 }
-- 
2.43.0


From 3668ae5fc65a0f687c436204b4436f86a1723c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 10/65] fix: tag-value writer reports errors of the destination

---
 tagvalue/writer.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tagvalue/writer.go b/tagvalue/writer.go
index d77bd3a..85a898b 100644
--- a/tagvalue/writer.go
+++ b/tagvalue/writer.go
@@ -4,6 +4,7 @@
 package tagvalue
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 
@@ -22,13 +23,21 @@ import (
 // if any error is encountered.
 func Write(doc common.AnyDocument, w io.Writer) error {
 	doc = convert.FromPtr(doc)
+	// the buffer keeps the first error of w
+	buf := bufio.NewWriter(w)
+	var err error
 	switch doc := doc.(type) {
 	case v2_1.Document:
-		return v2_1_writer.RenderDocument(&doc, w)
+		err = v2_1_writer.RenderDocument(&doc, buf)
 	case v2_2.Document:
-		return v2_2_writer.RenderDocument(&doc, w)
+		err = v2_2_writer.RenderDocument(&doc, buf)
 	case v2_3.Document:
-		return v2_3_writer.RenderDocument(&doc, w)
+		err = v2_3_writer.RenderDocument(&doc, buf)
+	default:
+		err = fmt.Errorf("unsupported document type: %s", convert.Describe(doc))
 	}
-	return fmt.Errorf("unsupported document type: %s", convert.Describe(doc))
+	if err != nil {
+		return err
+	}
+	return buf.Flush()
 }
-- 
2.43.0


From 0f5f2f1550892598a675f84355402a2da0d93af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 11/65] fix: reporter reports errors of the destination

---
 reporter/reporter.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/reporter/reporter.go b/reporter/reporter.go
index 7ef32d0..86cfc20 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -5,6 +5,7 @@
 package reporter
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"sort"
@@ -22,7 +23,8 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 	}
 	totalFound, totalNotFound, foundCounts := countLicenses(pkg)
 
-	wr := tabwriter.NewWriter(w, 0, 0, 2, ' ', tabwriter.AlignRight)
+	var buf bytes.Buffer
+	wr := tabwriter.NewWriter(&buf, 0, 0, 2, ' ', tabwriter.AlignRight)
 
 	fmt.Fprintf(wr, "%d\t  License found\n", totalFound)
 	fmt.Fprintf(wr, "%d\t  License not found\n", totalNotFound)
@@ -50,8 +52,11 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 	}
 	fmt.Fprintf(wr, "%d\t  TOTAL FOUND\n", totalFound)
 
-	wr.Flush()
-	return nil
+	if err := wr.Flush(); err != nil {
+		return err
+	}
+	_, err := buf.WriteTo(w)
+	return err
 }
 
 func countLicenses(pkg *spdx.Package) (int, int, map[string]int) {
-- 
2.43.0


From e4744ac35c8d5d7ca17cad4dc67e6e5d5c868c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:00 +0000
Subject: [PATCH 12/65] fix: reporter lists equally frequent licenses in a
 fixed order

---
 reporter/reporter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reporter/reporter.go b/reporter/reporter.go
index 86cfc20..bed4a3b 100644
--- a/reporter/reporter.go
+++ b/reporter/reporter.go
@@ -45,7 +45,12 @@ func Generate(pkg *spdx.Package, w io.Writer) error {
 		counts = append(counts, entry)
 	}
 
-	sort.Slice(counts, func(i, j int) bool { return counts[i].count > counts[j].count })
+	sort.Slice(counts, func(i, j int) bool {
+		if counts[i].count != counts[j].count {
+			return counts[i].count > counts[j].count
+		}
+		return counts[i].lic < counts[j].lic
+	})
 
 	for _, c := range counts {
 		fmt.Fprintf(wr, "%d\t  %s\n", c.count, c.lic)
-- 
2.43.0


From bce6f4fdfffdb59387bdee5d84716370b72f6f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 13/65] fix: tag-value writers sort copies of the document's
 lists where nothing relies on the sorting

---
 spdx/v2/v2_1/tagvalue/writer/save_document.go | 21 +++++++++++--------
 spdx/v2/v2_1/tagvalue/writer/save_package.go  |  7 ++++---
 spdx/v2/v2_2/tagvalue/writer/save_document.go | 21 +++++++++++--------
 spdx/v2/v2_2/tagvalue/writer/save_package.go  |  7 ++++---
 spdx/v2/v2_3/tagvalue/writer/save_document.go |  7 ++++---
 spdx/v2/v2_3/tagvalue/writer/save_package.go  |  7 ++++---
 6 files changed, 40 insertions(+), 30 deletions(-)

diff --git a/spdx/v2/v2_1/tagvalue/writer/save_document.go b/spdx/v2/v2_1/tagvalue/writer/save_document.go
index f5ef79f..acb47a5 100644
--- a/spdx/v2/v2_1/tagvalue/writer/save_document.go
+++ b/spdx/v2/v2_1/tagvalue/writer/save_document.go
@@ -38,10 +38,11 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 		fmt.Fprintf(w, "DocumentNamespace: %s\n", doc.DocumentNamespace)
 	}
 	// print EDRs in order sorted by identifier
-	sort.Slice(doc.ExternalDocumentReferences, func(i, j int) bool {
-		return doc.ExternalDocumentReferences[i].DocumentRefID < doc.ExternalDocumentReferences[j].DocumentRefID
+	edrs := append([]spdx.ExternalDocumentRef(nil), doc.ExternalDocumentReferences...)
+	sort.Slice(edrs, func(i, j int) bool {
+		return edrs[i].DocumentRefID < edrs[j].DocumentRefID
 	})
-	for _, edr := range doc.ExternalDocumentReferences {
+	for _, edr := range edrs {
 		fmt.Fprintf(w, "ExternalDocumentRef: DocumentRef-%s %s %s:%s\n",
 			edr.DocumentRefID, edr.URI, edr.Checksum.Algorithm, edr.Checksum.Value)
 	}
@@ -53,19 +54,21 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Files) > 0 {
 		fmt.Fprintf(w, "##### Unpackaged files\n\n")
-		sort.Slice(doc.Files, func(i, j int) bool {
-			return doc.Files[i].FileSPDXIdentifier < doc.Files[j].FileSPDXIdentifier
+		files := append([]*spdx.File(nil), doc.Files...)
+		sort.Slice(files, func(i, j int) bool {
+			return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 		})
-		for _, fi := range doc.Files {
+		for _, fi := range files {
 			renderFile(fi, w)
 		}
 	}
 
 	// sort Packages by identifier
-	sort.Slice(doc.Packages, func(i, j int) bool {
-		return doc.Packages[i].PackageSPDXIdentifier < doc.Packages[j].PackageSPDXIdentifier
+	packages := append([]*spdx.Package(nil), doc.Packages...)
+	sort.Slice(packages, func(i, j int) bool {
+		return packages[i].PackageSPDXIdentifier < packages[j].PackageSPDXIdentifier
 	})
-	for _, pkg := range doc.Packages {
+	for _, pkg := range packages {
 		fmt.Fprintf(w, "##### Package: %s\n\n", pkg.PackageName)
 		renderPackage(pkg, w)
 	}
diff --git a/spdx/v2/v2_1/tagvalue/writer/save_package.go b/spdx/v2/v2_1/tagvalue/writer/save_package.go
index 19d47cd..a4c1722 100644
--- a/spdx/v2/v2_1/tagvalue/writer/save_package.go
+++ b/spdx/v2/v2_1/tagvalue/writer/save_package.go
@@ -103,10 +103,11 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	fmt.Fprintf(w, "\n")
 
 	// also render any files for this package
-	sort.Slice(pkg.Files, func(i, j int) bool {
-		return pkg.Files[i].FileSPDXIdentifier < pkg.Files[j].FileSPDXIdentifier
+	files := append([]*spdx.File(nil), pkg.Files...)
+	sort.Slice(files, func(i, j int) bool {
+		return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 	})
-	for _, fi := range pkg.Files {
+	for _, fi := range files {
 		renderFile(fi, w)
 	}
 
diff --git a/spdx/v2/v2_2/tagvalue/writer/save_document.go b/spdx/v2/v2_2/tagvalue/writer/save_document.go
index 2020a76..9a947fa 100644
--- a/spdx/v2/v2_2/tagvalue/writer/save_document.go
+++ b/spdx/v2/v2_2/tagvalue/writer/save_document.go
@@ -38,10 +38,11 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 		fmt.Fprintf(w, "DocumentNamespace: %s\n", doc.DocumentNamespace)
 	}
 	// print EDRs in order sorted by identifier
-	sort.Slice(doc.ExternalDocumentReferences, func(i, j int) bool {
-		return doc.ExternalDocumentReferences[i].DocumentRefID < doc.ExternalDocumentReferences[j].DocumentRefID
+	edrs := append([]spdx.ExternalDocumentRef(nil), doc.ExternalDocumentReferences...)
+	sort.Slice(edrs, func(i, j int) bool {
+		return edrs[i].DocumentRefID < edrs[j].DocumentRefID
 	})
-	for _, edr := range doc.ExternalDocumentReferences {
+	for _, edr := range edrs {
 		fmt.Fprintf(w, "ExternalDocumentRef: DocumentRef-%s %s %s:%s\n",
 			edr.DocumentRefID, edr.URI, edr.Checksum.Algorithm, edr.Checksum.Value)
 	}
@@ -53,19 +54,21 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 
 	if len(doc.Files) > 0 {
 		fmt.Fprintf(w, "##### Unpackaged files\n\n")
-		sort.Slice(doc.Files, func(i, j int) bool {
-			return doc.Files[i].FileSPDXIdentifier < doc.Files[j].FileSPDXIdentifier
+		files := append([]*spdx.File(nil), doc.Files...)
+		sort.Slice(files, func(i, j int) bool {
+			return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 		})
-		for _, fi := range doc.Files {
+		for _, fi := range files {
 			renderFile(fi, w)
 		}
 	}
 
 	// sort Packages by identifier
-	sort.Slice(doc.Packages, func(i, j int) bool {
-		return doc.Packages[i].PackageSPDXIdentifier < doc.Packages[j].PackageSPDXIdentifier
+	packages := append([]*spdx.Package(nil), doc.Packages...)
+	sort.Slice(packages, func(i, j int) bool {
+		return packages[i].PackageSPDXIdentifier < packages[j].PackageSPDXIdentifier
 	})
-	for _, pkg := range doc.Packages {
+	for _, pkg := range packages {
 		fmt.Fprintf(w, "##### Package: %s\n\n", pkg.PackageName)
 		renderPackage(pkg, w)
 	}
diff --git a/spdx/v2/v2_2/tagvalue/writer/save_package.go b/spdx/v2/v2_2/tagvalue/writer/save_package.go
index 56e96f7..df8da06 100644
--- a/spdx/v2/v2_2/tagvalue/writer/save_package.go
+++ b/spdx/v2/v2_2/tagvalue/writer/save_package.go
@@ -106,10 +106,11 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	fmt.Fprintf(w, "\n")
 
 	// also render any files for this package
-	sort.Slice(pkg.Files, func(i, j int) bool {
-		return pkg.Files[i].FileSPDXIdentifier < pkg.Files[j].FileSPDXIdentifier
+	files := append([]*spdx.File(nil), pkg.Files...)
+	sort.Slice(files, func(i, j int) bool {
+		return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 	})
-	for _, fi := range pkg.Files {
+	for _, fi := range files {
 		renderFile(fi, w)
 	}
 
diff --git a/spdx/v2/v2_3/tagvalue/writer/save_document.go b/spdx/v2/v2_3/tagvalue/writer/save_document.go
index f3a3d64..563cad3 100644
--- a/spdx/v2/v2_3/tagvalue/writer/save_document.go
+++ b/spdx/v2/v2_3/tagvalue/writer/save_document.go
@@ -37,10 +37,11 @@ func RenderDocument(doc *spdx.Document, w io.Writer) error {
 		fmt.Fprintf(w, "DocumentNamespace: %s\n", doc.DocumentNamespace)
 	}
 	// print EDRs in order sorted by identifier
-	sort.Slice(doc.ExternalDocumentReferences, func(i, j int) bool {
-		return doc.ExternalDocumentReferences[i].DocumentRefID < doc.ExternalDocumentReferences[j].DocumentRefID
+	edrs := append([]spdx.ExternalDocumentRef(nil), doc.ExternalDocumentReferences...)
+	sort.Slice(edrs, func(i, j int) bool {
+		return edrs[i].DocumentRefID < edrs[j].DocumentRefID
 	})
-	for _, edr := range doc.ExternalDocumentReferences {
+	for _, edr := range edrs {
 		fmt.Fprintf(w, "ExternalDocumentRef: DocumentRef-%s %s %s:%s\n",
 			edr.DocumentRefID, edr.URI, edr.Checksum.Algorithm, edr.Checksum.Value)
 	}
diff --git a/spdx/v2/v2_3/tagvalue/writer/save_package.go b/spdx/v2/v2_3/tagvalue/writer/save_package.go
index 22ae2cc..cb789cc 100644
--- a/spdx/v2/v2_3/tagvalue/writer/save_package.go
+++ b/spdx/v2/v2_3/tagvalue/writer/save_package.go
@@ -118,10 +118,11 @@ func renderPackage(pkg *spdx.Package, w io.Writer) error {
 	fmt.Fprintf(w, "\n")
 
 	// also render any files for this package
-	sort.Slice(pkg.Files, func(i, j int) bool {
-		return pkg.Files[i].FileSPDXIdentifier < pkg.Files[j].FileSPDXIdentifier
+	files := append([]*spdx.File(nil), pkg.Files...)
+	sort.Slice(files, func(i, j int) bool {
+		return files[i].FileSPDXIdentifier < files[j].FileSPDXIdentifier
 	})
-	for _, fi := range pkg.Files {
+	for _, fi := range files {
 		renderFile(fi, w)
 	}
 
-- 
2.43.0


From c71452627e41d4492b1b61d75aa7a7c3648a1ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 14/65] fix: directory walk lists regular files only, so that a
 named pipe does not block the build

---
 utils/filesystem.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/utils/filesystem.go b/utils/filesystem.go
index a24e2d1..41b997e 100644
--- a/utils/filesystem.go
+++ b/utils/filesystem.go
@@ -35,12 +35,9 @@ func GetAllFilePaths(dirRoot string, pathsIgnored []string) ([]string, error) {
 		if err != nil {
 			return err
 		}
-		// don't include path if it's a directory
-		if fi.IsDir() {
-			return nil
-		}
-		// don't include path if it's a symbolic link
-		if fi.Mode()&os.ModeSymlink == os.ModeSymlink {
+		// don't include path if it's not a file: a directory, a symbolic link,
+		// a named pipe, ...
+		if !fi.Mode().IsRegular() {
 			return nil
 		}
 
-- 
2.43.0


From 6472b5cdf98df33c80c2fcb9ca8050251cc18dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:25 +0000
Subject: [PATCH 15/65] fix: directory walk follows a root that is a symbolic
 link

---
 utils/filesystem.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/filesystem.go b/utils/filesystem.go
index 41b997e..2396d8d 100644
--- a/utils/filesystem.go
+++ b/utils/filesystem.go
@@ -28,7 +28,11 @@ func GetAllFilePaths(dirRoot string, pathsIgnored []string) ([]string, error) {
 	if err != nil {
 		return nil, err
 	}
-	dirRoot = absRoot
+	// the walk itself doesn't follow symbolic links
+	dirRoot, err = filepath.EvalSymlinks(absRoot)
+	if err != nil {
+		return nil, err
+	}
 	prefix := strings.TrimSuffix(filepath.ToSlash(dirRoot), "/")
 
 	err = filepath.Walk(dirRoot, func(path string, fi os.FileInfo, err error) error {
-- 
2.43.0


From 2d08da03d1f4815ad97bfda761f9e46be8a32d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 16/65] fix: ignore pattern for a file in a directory does not
 match files deeper in that directory

---
 utils/filesystem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/filesystem.go b/utils/filesystem.go
index 2396d8d..41e56e4 100644
--- a/utils/filesystem.go
+++ b/utils/filesystem.go
@@ -121,7 +121,7 @@ func ShouldIgnore(fileName string, pathsIgnored []string) bool {
 		}
 
 		// case 4: specific file in any matching subdir
-		if patternDirStars && strings.Contains(fDirs, patternDirs) && patternFile != "" && patternFile == fFile {
+		if patternDirStars && strings.HasSuffix(fDirs, patternDirs) && patternFile != "" && patternFile == fFile {
 			return true
 		}
 
-- 
2.43.0


From 244cabe83bc57e2412db71735f2d02a3a72e33a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 17/65] fix: verification code covers files without a name when
 no file is excluded

---
 utils/verification.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/verification.go b/utils/verification.go
index e6d38e4..5db62b9 100644
--- a/utils/verification.go
+++ b/utils/verification.go
@@ -23,7 +23,7 @@ func GetVerificationCode(files []*spdx.File, excludeFile string) (common.Package
 		if f == nil {
 			return common.PackageVerificationCode{}, fmt.Errorf("got nil file for identifier %v", i)
 		}
-		if f.FileName != excludeFile {
+		if excludeFile == "" || f.FileName != excludeFile {
 			// find the SHA1 hash, if present
 			for _, checksum := range f.Checksums {
 				if checksum.Algorithm == common.SHA1 {
-- 
2.43.0


From bff9478c63321b0f37207ac887eb84292c79bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 18/65] fix: built identifiers have only the characters allowed
 in them

---
 builder/build_package.go      | 17 +++++++++++++++--
 builder/build_relationship.go |  4 +---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/builder/build_package.go b/builder/build_package.go
index 68ec353..0cb0323 100644
--- a/builder/build_package.go
+++ b/builder/build_package.go
@@ -3,7 +3,7 @@
 package builder
 
 import (
-	"fmt"
+	"strings"
 
 	"github.com/spdx/tools-golang/spdx"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -47,7 +47,7 @@ func BuildPackageSection(packageName string, dirRoot string, pathsIgnore []strin
 	// now build the package section
 	pkg := &spdx.Package{
 		PackageName:                 packageName,
-		PackageSPDXIdentifier:       common.ElementID(fmt.Sprintf("Package-%s", packageName)),
+		PackageSPDXIdentifier:       packageID(packageName),
 		PackageDownloadLocation:     "NOASSERTION",
 		FilesAnalyzed:               true,
 		IsFilesAnalyzedTagPresent:   true,
@@ -61,3 +61,16 @@ func BuildPackageSection(packageName string, dirRoot string, pathsIgnore []strin
 
 	return pkg, nil
 }
+
+// packageID makes the identifier of the package with the given name, which
+// may have letters, numbers, . and - only.
+func packageID(packageName string) common.ElementID {
+	id := strings.Map(func(r rune) rune {
+		switch {
+		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '.', r == '-':
+			return r
+		}
+		return '-'
+	}, packageName)
+	return common.ElementID("Package-" + id)
+}
diff --git a/builder/build_relationship.go b/builder/build_relationship.go
index fa534ad..80cf4db 100644
--- a/builder/build_relationship.go
+++ b/builder/build_relationship.go
@@ -3,8 +3,6 @@
 package builder
 
 import (
-	"fmt"
-
 	"github.com/spdx/tools-golang/spdx"
 	"github.com/spdx/tools-golang/spdx/v2/common"
 )
@@ -16,7 +14,7 @@ import (
 func BuildRelationshipSection(packageName string) (*spdx.Relationship, error) {
 	rln := &spdx.Relationship{
 		RefA:         common.MakeDocElementID("", "DOCUMENT"),
-		RefB:         common.MakeDocElementID("", fmt.Sprintf("Package-%s", packageName)),
+		RefB:         common.MakeDocElementID("", string(packageID(packageName))),
 		Relationship: "DESCRIBES",
 	}
 
-- 
2.43.0


From 00413377961b93cde61f7c6251f4b4d7e99d72c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 19/65] fix: builder takes an unknown creator type for a
 person, as documented

---
 builder/build_creation_info.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/build_creation_info.go b/builder/build_creation_info.go
index 1916c4e..5c207f5 100644
--- a/builder/build_creation_info.go
+++ b/builder/build_creation_info.go
@@ -18,6 +18,12 @@ import (
 //   - creator: creator string
 //   - testValues: for testing only; call with nil when using in production
 func BuildCreationInfoSection(creatorType string, creator string, testValues map[string]string) (*spdx.CreationInfo, error) {
+	switch creatorType {
+	case "Person", "Organization", "Tool":
+	default:
+		creatorType = "Person"
+	}
+
 	// build creator slices
 	creators := []common.Creator{
 		// add builder as a tool
-- 
2.43.0


From f5da06d67049f10a4cb27dfcb5cf6d87c57e8a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 20/65] fix: searcher matches its ignored paths against the
 path as the builder does

---
 idsearcher/idsearcher.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 7413bb4..43f4381 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -85,7 +85,8 @@ func BuildIDsDocument(packageName string, dirRoot string, idconfig *Config) (*sp
 		f.LicenseConcluded = "NOASSERTION"
 
 		// check whether the searcher should ignore this file
-		if utils.ShouldIgnore(f.FileName, idconfig.SearcherPathsIgnored) {
+		// (patterns are for paths beginning with /, file names begin with ./)
+		if utils.ShouldIgnore(strings.TrimPrefix(f.FileName, "."), idconfig.SearcherPathsIgnored) {
 			continue
 		}
 
-- 
2.43.0


From 5705069a55cd304b594ee38c32b1444520ab9b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:11 +0000
Subject: [PATCH 21/65] fix: searcher strips white space and closing comment
 marks from short-form identifiers and skips empty ones

---
 idsearcher/idsearcher.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 43f4381..d5c5d42 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -166,12 +166,15 @@ func searchFileIDs(filePath string) ([]string, error) {
 				continue
 			}
 
-			// stop before trailing */ if it is present
+			// stop before trailing */ or other closing mark if it is present
 			lidToExtract := strs[1]
-			lidToExtract = strings.Split(lidToExtract, "*/")[0]
-			lid := strings.TrimSpace(lidToExtract)
-			lid = stripTrash(lid)
-			idsMap[lid] = 1
+			for _, mark := range []string{"*/", "-->", "*)", "-}"} {
+				lidToExtract = strings.Split(lidToExtract, mark)[0]
+			}
+			lid := strings.TrimSpace(stripTrash(lidToExtract))
+			if lid != "" {
+				idsMap[lid] = 1
+			}
 		}
 	}
 
-- 
2.43.0


From 650e005e8c31477646d662a54ffddb809b2d98c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:14 +0000
Subject: [PATCH 22/65] fix: searcher does not take indentation for text before
 a short-form identifier

---
 idsearcher/idsearcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index d5c5d42..99d4b1f 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -161,7 +161,7 @@ func searchFileIDs(filePath string) ([]string, error) {
 			// if prefixed by more than n characters, it's probably not a
 			// short-form ID; it's probably code to detect short-form IDs.
 			// Like this function itself, for example  =)
-			prefix := stripTrash(strs[0])
+			prefix := strings.TrimSpace(stripTrash(strs[0]))
 			if len(prefix) > 5 {
 				continue
 			}
-- 
2.43.0


From 8f9bfc6e8852e07cf7f8fdabb3173abbd20db6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 23/65] fix: searcher recognises compound license expressions
 whatever their case and spacing

---
 idsearcher/idsearcher.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 99d4b1f..5f5f55b 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -202,8 +202,10 @@ func stripTrash(lid string) string {
 }
 
 func makeElement(lic string) string {
-	if strings.Contains(lic, " AND ") || strings.Contains(lic, " OR ") {
-		return fmt.Sprintf("(%s)", lic)
+	for _, elt := range strings.Fields(lic) {
+		if strings.EqualFold(elt, "AND") || strings.EqualFold(elt, "OR") {
+			return fmt.Sprintf("(%s)", lic)
+		}
 	}
 
 	return lic
@@ -215,11 +217,10 @@ func getIndividualLicenses(lic string) []string {
 	lic = strings.Replace(lic, ")", " ", -1)
 	lic = strings.Replace(lic, "+", " ", -1)
 
-	// now, split by spaces, trim, and add to slice
-	licElements := strings.Split(lic, " ")
+	// now, split by spaces and add to slice
+	licElements := strings.Fields(lic)
 	lics := []string{}
 	for _, elt := range licElements {
-		elt := strings.TrimSpace(elt)
 		// don't add if empty or if case-insensitive operator
 		if elt == "" || strings.EqualFold(elt, "AND") ||
 			strings.EqualFold(elt, "OR") || strings.EqualFold(elt, "WITH") {
-- 
2.43.0


From ca3c360f4d207ebaebd4f5585f84034ceb0b6b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 24/65] fix: license diff takes a file without concluded
 license for one with NOASSERTION, not for an absent one

---
 licensediff/licensediff.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/licensediff/licensediff.go b/licensediff/licensediff.go
index 542ec5d..da9e150 100644
--- a/licensediff/licensediff.go
+++ b/licensediff/licensediff.go
@@ -21,7 +21,7 @@ func MakePairs(p1 *spdx.Package, p2 *spdx.Package) (map[string]LicensePair, erro
 
 	// first, go through and add all files/licenses from p1
 	for _, f := range p1.Files {
-		pair := LicensePair{First: f.LicenseConcluded, Second: ""}
+		pair := LicensePair{First: concluded(f), Second: ""}
 		pairs[f.FileName] = pair
 	}
 
@@ -35,13 +35,22 @@ func MakePairs(p1 *spdx.Package, p2 *spdx.Package) (map[string]LicensePair, erro
 			firstLic = existingPair.First
 		}
 		// now, update what's there, either way
-		pair := LicensePair{First: firstLic, Second: f.LicenseConcluded}
+		pair := LicensePair{First: firstLic, Second: concluded(f)}
 		pairs[f.FileName] = pair
 	}
 
 	return pairs, nil
 }
 
+// concluded returns the concluded license of a file. If there is none, that
+// means NOASSERTION; "" stands for the absence of the file.
+func concluded(f *spdx.File) string {
+	if f.LicenseConcluded == "" {
+		return "NOASSERTION"
+	}
+	return f.LicenseConcluded
+}
+
 // LicenseDiff is a structured version of the output of MakePairs. It is
 // meant to make it easier to find and report on, e.g., just the files that
 // have different licenses, or those that are in just one scan.
-- 
2.43.0


From 842948cfedb8b5b7de621d78c41577488cedc9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 25/65] fix: validation knows files in packages and snippets
 and does not look for NONE, NOASSERTION and external elements

---
 spdxlib/documents.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/spdxlib/documents.go b/spdxlib/documents.go
index a6a34ca..312c3ad 100644
--- a/spdxlib/documents.go
+++ b/spdxlib/documents.go
@@ -9,29 +9,42 @@ import (
 )
 
 // ValidateDocument returns an error if the Document is found to be invalid, or nil if the Document is valid.
-// Currently, this only verifies that all Element IDs mentioned in Relationships exist in the Document as either a
-// Package or an UnpackagedFile.
+// Currently, this only verifies that all Element IDs of this document mentioned in Relationships exist in the
+// Document as a Package, a File or a Snippet.
 func ValidateDocument(doc *spdx.Document) error {
 	// cache a map of package IDs for quick lookups
 	validElementIDs := make(map[common.ElementID]bool)
+	addFiles := func(files []*spdx.File) {
+		for _, file := range files {
+			validElementIDs[file.FileSPDXIdentifier] = true
+			for _, snippet := range file.Snippets {
+				validElementIDs[snippet.SnippetSPDXIdentifier] = true
+			}
+		}
+	}
 	for _, docPackage := range doc.Packages {
 		validElementIDs[docPackage.PackageSPDXIdentifier] = true
+		addFiles(docPackage.Files)
 	}
 
-	for _, unpackagedFile := range doc.Files {
-		validElementIDs[unpackagedFile.FileSPDXIdentifier] = true
+	addFiles(doc.Files)
+
+	for _, snippet := range doc.Snippets {
+		validElementIDs[snippet.SnippetSPDXIdentifier] = true
 	}
 
 	// add the Document element ID
 	validElementIDs[common.MakeDocElementID("", "DOCUMENT").ElementRefID] = true
 
 	for _, relationship := range doc.Relationships {
-		if !validElementIDs[relationship.RefA.ElementRefID] {
-			return fmt.Errorf("%s used in relationship but no such package exists", string(relationship.RefA.ElementRefID))
-		}
-
-		if !validElementIDs[relationship.RefB.ElementRefID] {
-			return fmt.Errorf("%s used in relationship but no such package exists", string(relationship.RefB.ElementRefID))
+		for _, ref := range []common.DocElementID{relationship.RefA, relationship.RefB} {
+			// NONE, NOASSERTION and elements of other documents can't be found in this one
+			if ref.SpecialID != "" || ref.DocumentRefID != "" {
+				continue
+			}
+			if !validElementIDs[ref.ElementRefID] {
+				return fmt.Errorf("%s used in relationship but no such element exists", string(ref.ElementRefID))
+			}
 		}
 	}
 
-- 
2.43.0


From e97d5d8c837210f94497d19fb261a39018704bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 26/65] fix: described packages are packages of the document,
 listed once

---
 spdxlib/described_elements.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/spdxlib/described_elements.go b/spdxlib/described_elements.go
index 5a72781..b4b60e1 100644
--- a/spdxlib/described_elements.go
+++ b/spdxlib/described_elements.go
@@ -37,16 +37,27 @@ func GetDescribedPackageIDs(doc *spdx.Document) ([]common.ElementID, error) {
 		return nil, fmt.Errorf("multiple Packages in Document but Relationships slice is nil")
 	}
 
+	// the packages not found described yet
+	packages := map[common.DocElementID]bool{}
+	for _, pkg := range doc.Packages {
+		packages[common.DocElementID{ElementRefID: pkg.PackageSPDXIdentifier}] = true
+	}
+
 	eIDs, err := FilterRelationships(doc, func(relationship *spdx.Relationship) *common.ElementID {
 		refDocument := common.MakeDocElementID("", "DOCUMENT")
 
+		var described *common.DocElementID
 		if relationship.Relationship == "DESCRIBES" && relationship.RefA == refDocument {
-			return &relationship.RefB.ElementRefID
+			described = &relationship.RefB
 		} else if relationship.Relationship == "DESCRIBED_BY" && relationship.RefB == refDocument {
-			return &relationship.RefA.ElementRefID
+			described = &relationship.RefA
+		}
+		if described == nil || !packages[*described] {
+			return nil
 		}
+		delete(packages, *described)
 
-		return nil
+		return &described.ElementRefID
 	})
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4d125a4eaee7c972de5bea51a76ae470eaae59a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:54 +0000
Subject: [PATCH 27/65] fix: JSON and YAML writers report writes that the
 destination shortens

---
 json/writer.go | 10 ++++++++--
 yaml/writer.go |  8 ++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/json/writer.go b/json/writer.go
index a944dcc..1fce046 100644
--- a/json/writer.go
+++ b/json/writer.go
@@ -3,6 +3,7 @@
 package json
 
 import (
+	"bytes"
 	"encoding/json"
 	"io"
 
@@ -25,9 +26,14 @@ func EscapeHTML(escape bool) WriteOption {
 
 // Write takes an SPDX Document and an io.Writer, and writes the document to the writer in JSON format.
 func Write(doc common.AnyDocument, w io.Writer, opts ...WriteOption) error {
-	e := json.NewEncoder(w)
+	var buf bytes.Buffer
+	e := json.NewEncoder(&buf)
 	for _, opt := range opts {
 		opt(e)
 	}
-	return e.Encode(doc)
+	if err := e.Encode(doc); err != nil {
+		return err
+	}
+	_, err := buf.WriteTo(w)
+	return err
 }
diff --git a/yaml/writer.go b/yaml/writer.go
index c23262d..149e544 100644
--- a/yaml/writer.go
+++ b/yaml/writer.go
@@ -25,12 +25,8 @@ func Write(doc common.AnyDocument, w io.Writer) error {
 		return err
 	}
 
-	_, err = w.Write(buf)
-	if err != nil {
-		return err
-	}
-
-	return nil
+	_, err = bytes.NewReader(buf).WriteTo(w)
+	return err
 }
 
 // escapeControls escapes the characters which may stand unescaped in JSON but not in YAML,
-- 
2.43.0


From 03f53947591f23bfc6d3165a8cdb48c06c1832d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 28/65] fix: RDF reader reports a failing source and accepts
 empty reads

---
 rdf/reader.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rdf/reader.go b/rdf/reader.go
index 9bc3369..8f416d4 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -3,6 +3,7 @@
 package rdf
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -32,7 +33,12 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 	if !convert.IsPtr(doc) {
 		return fmt.Errorf("doc to read into must be a pointer")
 	}
-	var rdfParserObj, err = rdfloader.LoadFromReaderObject(content)
+	// the loader takes a failure after the last element for the end
+	buf, err := io.ReadAll(content)
+	if err != nil {
+		return err
+	}
+	rdfParserObj, err := rdfloader.LoadFromReaderObject(bytes.NewReader(buf))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c39e47d7ce4653ef876207c20e70e5927ce743cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:30 +0000
Subject: [PATCH 29/65] fix: searcher keeps the colon of
 DocumentRef-...:LicenseRef-... in short-form identifiers

---
 idsearcher/idsearcher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/idsearcher/idsearcher.go b/idsearcher/idsearcher.go
index 5f5f55b..286a7fd 100644
--- a/idsearcher/idsearcher.go
+++ b/idsearcher/idsearcher.go
@@ -161,7 +161,7 @@ func searchFileIDs(filePath string) ([]string, error) {
 			// if prefixed by more than n characters, it's probably not a
 			// short-form ID; it's probably code to detect short-form IDs.
 			// Like this function itself, for example  =)
-			prefix := strings.TrimSpace(stripTrash(strs[0]))
+			prefix := strings.TrimSpace(stripTrash(strings.ReplaceAll(strs[0], ":", "")))
 			if len(prefix) > 5 {
 				continue
 			}
@@ -197,7 +197,7 @@ func searchFileIDs(filePath string) ([]string, error) {
 }
 
 func stripTrash(lid string) string {
-	re := regexp.MustCompile(`[^\w\s\d.\-\+()]+`)
+	re := regexp.MustCompile(`[^\w\s\d.:\-\+()]+`)
 	return re.ReplaceAllString(lid, "")
 }
 
-- 
2.43.0


From b7ec1fc1804e1e670f0d6b51aa5b567de63d4568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 30/65] fix: RDF identifiers of the document and of external
 documents kept their prefixes

---
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go | 7 ++++---
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 7629a92..fec5dae 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -20,8 +21,8 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 	if err != nil {
 		return err
 	}
-	parser.doc.DocumentNamespace = baseUri               // 2.5
-	parser.doc.SPDXIdentifier = common.ElementID(offset) // 2.3
+	parser.doc.DocumentNamespace = baseUri                                               // 2.5
+	parser.doc.SPDXIdentifier = common.ElementID(strings.TrimPrefix(offset, "SPDXRef-")) // 2.3
 
 	// parse other associated triples.
 	for _, subTriple := range parser.nodeToTriples(spdxDocNode) {
@@ -96,7 +97,7 @@ func (parser *rdfParser2_2) getExternalDocumentRefFromNode(node *gordfParser.Nod
 		switch triple.Predicate.ID {
 		case SPDX_EXTERNAL_DOCUMENT_ID:
 			// cardinality: exactly 1
-			edr.DocumentRefID = common.DocumentID(triple.Object.ID)
+			edr.DocumentRefID = common.DocumentID(strings.TrimPrefix(triple.Object.ID, "DocumentRef-"))
 		case SPDX_SPDX_DOCUMENT:
 			// cardinality: exactly 1
 			// assumption: "spdxDocument" property of an external document
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 7601c4d..528b13d 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/tools-golang/spdx/v2/common"
@@ -20,8 +21,8 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 	if err != nil {
 		return err
 	}
-	parser.doc.DocumentNamespace = baseUri               // 2.5
-	parser.doc.SPDXIdentifier = common.ElementID(offset) // 2.3
+	parser.doc.DocumentNamespace = baseUri                                               // 2.5
+	parser.doc.SPDXIdentifier = common.ElementID(strings.TrimPrefix(offset, "SPDXRef-")) // 2.3
 
 	// parse other associated triples.
 	for _, subTriple := range parser.nodeToTriples(spdxDocNode) {
@@ -96,7 +97,7 @@ func (parser *rdfParser2_3) getExternalDocumentRefFromNode(node *gordfParser.Nod
 		switch triple.Predicate.ID {
 		case SPDX_EXTERNAL_DOCUMENT_ID:
 			// cardinality: exactly 1
-			edr.DocumentRefID = common.DocumentID(triple.Object.ID)
+			edr.DocumentRefID = common.DocumentID(strings.TrimPrefix(triple.Object.ID, "DocumentRef-"))
 		case SPDX_SPDX_DOCUMENT:
 			// cardinality: exactly 1
 			// assumption: "spdxDocument" property of an external document
-- 
2.43.0


From c28638c66b7b8f5037db2f24374d644033b367af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 31/65] fix: relationship and file types read from RDF kept the
 names of the graph

---
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 23 +++++++++++++++++++
 spdx/v2/v2_2/rdf/reader/parser.go             | 15 ++++++++++++
 spdx/v2/v2_3/rdf/reader/constants.go          |  3 ++-
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 23 +++++++++++++++++++
 spdx/v2/v2_3/rdf/reader/parser.go             | 15 ++++++++++++
 5 files changed, 78 insertions(+), 1 deletion(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index 1946933..adb5b9f 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -5,6 +5,7 @@ package reader
 import (
 	"fmt"
 	"strings"
+	"unicode"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/gordf/rdfwriter"
@@ -137,6 +138,28 @@ func getReferenceFromURI(uri string) (common.DocElementID, error) {
 	return ExtractDocElementID(fragment)
 }
 
+// returns the name the document uses for a relationshipType of the graph.
+func getRelationshipTypeName(relnType string) string {
+	switch relnType {
+	case "amendment":
+		return common.TypeRelationshipAmends
+	case "dataFile":
+		return common.TypeRelationshipDataFileOf
+	case "documentation":
+		return common.TypeRelationshipDocumentationOf
+	case "testcaseOf":
+		return common.TypeRelationshipTestCaseOf
+	}
+	var name strings.Builder
+	for _, r := range relnType {
+		if unicode.IsUpper(r) {
+			name.WriteByte('_')
+		}
+		name.WriteRune(unicode.ToUpper(r))
+	}
+	return name.String()
+}
+
 // note: relationshipType is case sensitive.
 func getRelationshipTypeFromURI(relnTypeURI string) (string, error) {
 	relnTypeURI = strings.TrimSpace(relnTypeURI)
diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 2c61491..c8231e3 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -5,6 +5,7 @@ package reader
 import (
 	"errors"
 	"fmt"
+	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	gordfWriter "github.com/spdx/gordf/rdfwriter"
@@ -85,9 +86,23 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 	// Files attribute of the document
 	// WARNING: do not relocate following function call. It must be at the end of the function
 	parser.setUnpackagedFiles()
+	parser.setNamesOfTypes()
 	return parser.doc, nil
 }
 
+// the graph names the types of relationships and files otherwise than the
+// document does: relationshipType_dependsOn is DEPENDS_ON, fileType_source is SOURCE.
+func (parser *rdfParser2_2) setNamesOfTypes() {
+	for _, reln := range parser.doc.Relationships {
+		reln.Relationship = getRelationshipTypeName(reln.Relationship)
+	}
+	for _, file := range parser.files {
+		for i := range file.FileTypes {
+			file.FileTypes[i] = strings.ToUpper(file.FileTypes[i])
+		}
+	}
+}
+
 // from the given parser object, returns the SpdxDocument Node defined in the root elements.
 // returns error if the document is associated with no SpdxDocument or
 // associated with more than one SpdxDocument node.
diff --git a/spdx/v2/v2_3/rdf/reader/constants.go b/spdx/v2/v2_3/rdf/reader/constants.go
index 4220602..a50c196 100644
--- a/spdx/v2/v2_3/rdf/reader/constants.go
+++ b/spdx/v2/v2_3/rdf/reader/constants.go
@@ -154,7 +154,8 @@ func AllRelationshipTypes() []string {
 		"generatedFrom", "generates", "hasPrerequisite", "metafileOf",
 		"optionalComponentOf", "optionalDependencyOf", "other", "packageOf",
 		"patchApplied", "patchFor", "prerequisiteFor", "providedDependencyOf",
-		"runtimeDependencyOf", "staticLink", "testDependencyOf", "testOf",
+		"requirementDescriptionFor", "runtimeDependencyOf",
+		"specificationFor", "staticLink", "testDependencyOf", "testOf",
 		"testToolOf", "testcaseOf", "variantOf",
 	}
 }
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index b1753db..e97f6ed 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -5,6 +5,7 @@ package reader
 import (
 	"fmt"
 	"strings"
+	"unicode"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/gordf/rdfwriter"
@@ -137,6 +138,28 @@ func getReferenceFromURI(uri string) (common.DocElementID, error) {
 	return ExtractDocElementID(fragment)
 }
 
+// returns the name the document uses for a relationshipType of the graph.
+func getRelationshipTypeName(relnType string) string {
+	switch relnType {
+	case "amendment":
+		return common.TypeRelationshipAmends
+	case "dataFile":
+		return common.TypeRelationshipDataFileOf
+	case "documentation":
+		return common.TypeRelationshipDocumentationOf
+	case "testcaseOf":
+		return common.TypeRelationshipTestCaseOf
+	}
+	var name strings.Builder
+	for _, r := range relnType {
+		if unicode.IsUpper(r) {
+			name.WriteByte('_')
+		}
+		name.WriteRune(unicode.ToUpper(r))
+	}
+	return name.String()
+}
+
 // note: relationshipType is case sensitive.
 func getRelationshipTypeFromURI(relnTypeURI string) (string, error) {
 	relnTypeURI = strings.TrimSpace(relnTypeURI)
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 93a382e..1028060 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -5,6 +5,7 @@ package reader
 import (
 	"errors"
 	"fmt"
+	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	gordfWriter "github.com/spdx/gordf/rdfwriter"
@@ -85,9 +86,23 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 	// Files attribute of the document
 	// WARNING: do not relocate following function call. It must be at the end of the function
 	parser.setUnpackagedFiles()
+	parser.setNamesOfTypes()
 	return parser.doc, nil
 }
 
+// the graph names the types of relationships and files otherwise than the
+// document does: relationshipType_dependsOn is DEPENDS_ON, fileType_source is SOURCE.
+func (parser *rdfParser2_3) setNamesOfTypes() {
+	for _, reln := range parser.doc.Relationships {
+		reln.Relationship = getRelationshipTypeName(reln.Relationship)
+	}
+	for _, file := range parser.files {
+		for i := range file.FileTypes {
+			file.FileTypes[i] = strings.ToUpper(file.FileTypes[i])
+		}
+	}
+}
+
 // from the given parser object, returns the SpdxDocument Node defined in the root elements.
 // returns error if the document is associated with no SpdxDocument or
 // associated with more than one SpdxDocument node.
-- 
2.43.0


From 845f6ac1ed47f9231d70e66e679f45ac594429c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 32/65] fix: RDF packages without filesAnalyzed were read as
 not analyzed

---
 spdx/v2/v2_2/rdf/reader/parse_package.go | 2 +-
 spdx/v2/v2_3/rdf/reader/parse_package.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index bb4a331..a661487 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -12,7 +12,7 @@ import (
 )
 
 func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (pkg *v2_2.Package, err error) {
-	pkg = &v2_2.Package{} // new package which will be returned
+	pkg = &v2_2.Package{FilesAnalyzed: true} // new package which will be returned, with the default of 7.8
 
 	currState := parser.cache[packageNode.ID]
 	if currState == nil {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index b868e7d..6b65eac 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -12,7 +12,7 @@ import (
 )
 
 func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (pkg *spdx.Package, err error) {
-	pkg = &spdx.Package{} // new package which will be returned
+	pkg = &spdx.Package{FilesAnalyzed: true} // new package which will be returned, with the default of 7.8
 
 	currState := parser.cache[packageNode.ID]
 	if currState == nil {
-- 
2.43.0


From 9c4bf81cfaeda996699e27f072312b6da2ba2e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 33/65] fix: RDF packages stated with describesPackage were
 listed twice

---
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go | 8 ++------
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go | 8 ++------
 2 files changed, 4 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index fec5dae..18151a2 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -62,12 +62,8 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.setReviewFromNode(subTriple.Object)
 		case SPDX_DESCRIBES_PACKAGE: // describes Package
 			// cardinality: min 0
-			var pkg *v2_2.Package
-			pkg, err = parser.getPackageFromNode(subTriple.Object)
-			if err != nil {
-				return err
-			}
-			parser.doc.Packages = append(parser.doc.Packages, pkg)
+			// parsing the package adds it to the document
+			_, err = parser.getPackageFromNode(subTriple.Object)
 		case SPDX_HAS_EXTRACTED_LICENSING_INFO: // hasExtractedLicensingInfo
 			// cardinality: min 0
 			extractedLicensingInfo, err := parser.getExtractedLicensingInfoFromNode(subTriple.Object)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 528b13d..543ead2 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -62,12 +62,8 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.setReviewFromNode(subTriple.Object)
 		case SPDX_DESCRIBES_PACKAGE: // describes Package
 			// cardinality: min 0
-			var pkg *spdx.Package
-			pkg, err = parser.getPackageFromNode(subTriple.Object)
-			if err != nil {
-				return err
-			}
-			parser.doc.Packages = append(parser.doc.Packages, pkg)
+			// parsing the package adds it to the document
+			_, err = parser.getPackageFromNode(subTriple.Object)
 		case SPDX_HAS_EXTRACTED_LICENSING_INFO: // hasExtractedLicensingInfo
 			// cardinality: min 0
 			extractedLicensingInfo, err := parser.getExtractedLicensingInfoFromNode(subTriple.Object)
-- 
2.43.0


From 1838f819ecf0d68df9003ff4cb555bec37a9761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 34/65] fix: RDF reader panicked on a node used as elements of
 two kinds

---
 spdx/v2/v2_2/rdf/reader/parse_file.go    | 6 +++++-
 spdx/v2/v2_2/rdf/reader/parse_package.go | 6 +++++-
 spdx/v2/v2_3/rdf/reader/parse_file.go    | 6 +++++-
 spdx/v2/v2_3/rdf/reader/parse_package.go | 6 +++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index ffc7645..620d956 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this file node and we needn't parse it again.
-		return currState.object.(*v2_2.File), nil
+		file, isFile := currState.object.(*v2_2.File)
+		if !isFile {
+			return nil, fmt.Errorf("%s is used as a file inside of another element of the same name", fileNode.ID)
+		}
+		return file, nil
 	}
 
 	// setting color to grey to indicate that we've started parsing this node.
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index a661487..253af11 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this package node and we needn't parse it again.
-		return currState.object.(*v2_2.Package), nil
+		pkg, isPackage := currState.object.(*v2_2.Package)
+		if !isPackage {
+			return nil, fmt.Errorf("%s is used as a package inside of another element of the same name", packageNode.ID)
+		}
+		return pkg, nil
 	}
 
 	// setting color of the state to grey to indicate that we've started to
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index cce0f9f..714bec8 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this file node and we needn't parse it again.
-		return currState.object.(*spdx.File), nil
+		file, isFile := currState.object.(*spdx.File)
+		if !isFile {
+			return nil, fmt.Errorf("%s is used as a file inside of another element of the same name", fileNode.ID)
+		}
+		return file, nil
 	}
 
 	// setting color to grey to indicate that we've started parsing this node.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 6b65eac..47e0959 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -24,7 +24,11 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 		}
 	} else if currState.Color == GREY {
 		// we have already started parsing this package node and we needn't parse it again.
-		return currState.object.(*spdx.Package), nil
+		pkg, isPackage := currState.object.(*spdx.Package)
+		if !isPackage {
+			return nil, fmt.Errorf("%s is used as a package inside of another element of the same name", packageNode.ID)
+		}
+		return pkg, nil
 	}
 
 	// setting color of the state to grey to indicate that we've started to
-- 
2.43.0


From 0d2bdd29d1fae2d070d78252292f7542bb0f7614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 35/65] fix: RDF packages and files referred to repeatedly got
 their values repeatedly

---
 spdx/v2/v2_2/rdf/reader/parse_file.go    |  3 ++-
 spdx/v2/v2_2/rdf/reader/parse_package.go |  3 ++-
 spdx/v2/v2_2/rdf/reader/types.go         |  3 +++
 spdx/v2/v2_2/rdf/reader/utils.go         | 15 +++++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_file.go    |  3 ++-
 spdx/v2/v2_3/rdf/reader/parse_package.go |  3 ++-
 spdx/v2/v2_3/rdf/reader/types.go         |  3 +++
 spdx/v2/v2_3/rdf/reader/utils.go         | 15 +++++++++++++++
 8 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 620d956..14a76c8 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -45,9 +45,10 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 
 	if existingFile := parser.files[file.FileSPDXIdentifier]; existingFile != nil {
 		file = existingFile
+		parser.cache[fileNode.ID].object = file
 	}
 
-	for _, subTriple := range parser.nodeToTriples(fileNode) {
+	for _, subTriple := range parser.newTriples(fileNode) {
 		switch subTriple.Predicate.ID {
 		case SPDX_FILE_NAME: // 4.1
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 253af11..bd6563a 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -51,12 +51,13 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 		if existingPkg != nil && existingPkg.PackageSPDXIdentifier == eId {
 			existingPackageIndex = ii
 			pkg = existingPkg
+			parser.cache[packageNode.ID].object = pkg
 			break
 		}
 	}
 
 	// iterate over all the triples associated with the provided package packageNode.
-	for _, subTriple := range parser.nodeToTriples(packageNode) {
+	for _, subTriple := range parser.newTriples(packageNode) {
 		switch subTriple.Predicate.ID {
 		case RDF_TYPE:
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_2/rdf/reader/types.go b/spdx/v2/v2_2/rdf/reader/types.go
index 2e2d7b0..f8471ff 100644
--- a/spdx/v2/v2_2/rdf/reader/types.go
+++ b/spdx/v2/v2_2/rdf/reader/types.go
@@ -23,6 +23,9 @@ type rdfParser2_2 struct {
 
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
+
+	// statements about packages and files that are already in the document.
+	processed map[*gordfParser.Triple]bool
 }
 
 type Color int
diff --git a/spdx/v2/v2_2/rdf/reader/utils.go b/spdx/v2/v2_2/rdf/reader/utils.go
index 25db1fc..c076096 100644
--- a/spdx/v2/v2_2/rdf/reader/utils.go
+++ b/spdx/v2/v2_2/rdf/reader/utils.go
@@ -51,6 +51,21 @@ func (parser *rdfParser2_2) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	return parser.nodeStringToTriples[node.String()]
 }
 
+// newTriples returns the triples of a node which were not returned before: an
+// element may be referred to many times but is stated only once.
+func (parser *rdfParser2_2) newTriples(node *gordfParser.Node) (triples []*gordfParser.Triple) {
+	if parser.processed == nil {
+		parser.processed = map[*gordfParser.Triple]bool{}
+	}
+	for _, triple := range parser.nodeToTriples(node) {
+		if !parser.processed[triple] {
+			parser.processed[triple] = true
+			triples = append(triples, triple)
+		}
+	}
+	return triples
+}
+
 // returns which boolean was given as an input
 // string(bool) is the only possible input for which it will not raise any error.
 func boolFromString(boolString string) (bool, error) {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index 714bec8..9c34a2a 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -45,9 +45,10 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 
 	if existingFile := parser.files[file.FileSPDXIdentifier]; existingFile != nil {
 		file = existingFile
+		parser.cache[fileNode.ID].object = file
 	}
 
-	for _, subTriple := range parser.nodeToTriples(fileNode) {
+	for _, subTriple := range parser.newTriples(fileNode) {
 		switch subTriple.Predicate.ID {
 		case SPDX_FILE_NAME: // 4.1
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 47e0959..918cf94 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -51,12 +51,13 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 		if existingPkg != nil && existingPkg.PackageSPDXIdentifier == eId {
 			existingPackageIndex = ii
 			pkg = existingPkg
+			parser.cache[packageNode.ID].object = pkg
 			break
 		}
 	}
 
 	// iterate over all the triples associated with the provided package packageNode.
-	for _, subTriple := range parser.nodeToTriples(packageNode) {
+	for _, subTriple := range parser.newTriples(packageNode) {
 		switch subTriple.Predicate.ID {
 		case RDF_TYPE:
 			// cardinality: exactly 1
diff --git a/spdx/v2/v2_3/rdf/reader/types.go b/spdx/v2/v2_3/rdf/reader/types.go
index 1b0cd1b..50cd0cd 100644
--- a/spdx/v2/v2_3/rdf/reader/types.go
+++ b/spdx/v2/v2_3/rdf/reader/types.go
@@ -23,6 +23,9 @@ type rdfParser2_3 struct {
 
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
+
+	// statements about packages and files that are already in the document.
+	processed map[*gordfParser.Triple]bool
 }
 
 type Color int
diff --git a/spdx/v2/v2_3/rdf/reader/utils.go b/spdx/v2/v2_3/rdf/reader/utils.go
index a242589..e458530 100644
--- a/spdx/v2/v2_3/rdf/reader/utils.go
+++ b/spdx/v2/v2_3/rdf/reader/utils.go
@@ -51,6 +51,21 @@ func (parser *rdfParser2_3) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	return parser.nodeStringToTriples[node.String()]
 }
 
+// newTriples returns the triples of a node which were not returned before: an
+// element may be referred to many times but is stated only once.
+func (parser *rdfParser2_3) newTriples(node *gordfParser.Node) (triples []*gordfParser.Triple) {
+	if parser.processed == nil {
+		parser.processed = map[*gordfParser.Triple]bool{}
+	}
+	for _, triple := range parser.nodeToTriples(node) {
+		if !parser.processed[triple] {
+			parser.processed[triple] = true
+			triples = append(triples, triple)
+		}
+	}
+	return triples
+}
+
 // returns which boolean was given as an input
 // string(bool) is the only possible input for which it will not raise any error.
 func boolFromString(boolString string) (bool, error) {
-- 
2.43.0


From 91e9043b7727d4ef3f089ada034451cb52a882a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 36/65] fix: RDF elements referred to by name were read without
 their values

---
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 7 +++++++
 spdx/v2/v2_2/rdf/reader/utils.go              | 4 ++++
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 7 +++++++
 spdx/v2/v2_3/rdf/reader/utils.go              | 4 ++++
 4 files changed, 22 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index adb5b9f..25869a6 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -112,6 +112,13 @@ func (parser *rdfParser2_2) parseRelatedElementFromTriple(reln *v2_2.Relationshi
 			ElementRefID:  pkg.PackageSPDXIdentifier,
 		}
 
+	case SPDX_SPDX_DOCUMENT_CAPITALIZED, SPDX_SNIPPET:
+		// the document and the snippets are parsed on their own.
+		reln.RefB, err = ExtractDocElementID(getLastPartOfURI(triple.Subject.ID))
+		if err != nil {
+			return err
+		}
+
 	case SPDX_SPDX_ELEMENT:
 		// it shouldn't be associated with any other triple.
 		// it must be a uri reference.
diff --git a/spdx/v2/v2_2/rdf/reader/utils.go b/spdx/v2/v2_2/rdf/reader/utils.go
index c076096..40ee340 100644
--- a/spdx/v2/v2_2/rdf/reader/utils.go
+++ b/spdx/v2/v2_2/rdf/reader/utils.go
@@ -48,6 +48,10 @@ func (parser *rdfParser2_2) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	if node == nil {
 		return []*gordfParser.Triple{}
 	}
+	if node.NodeType == gordfParser.RESOURCELITERAL {
+		// a reference to a node that is stated elsewhere
+		return parser.nodeStringToTriples[(&gordfParser.Node{NodeType: gordfParser.IRI, ID: node.ID}).String()]
+	}
 	return parser.nodeStringToTriples[node.String()]
 }
 
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index e97f6ed..3ae5697 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -112,6 +112,13 @@ func (parser *rdfParser2_3) parseRelatedElementFromTriple(reln *spdx.Relationshi
 			ElementRefID:  pkg.PackageSPDXIdentifier,
 		}
 
+	case SPDX_SPDX_DOCUMENT_CAPITALIZED, SPDX_SNIPPET:
+		// the document and the snippets are parsed on their own.
+		reln.RefB, err = ExtractDocElementID(getLastPartOfURI(triple.Subject.ID))
+		if err != nil {
+			return err
+		}
+
 	case SPDX_SPDX_ELEMENT:
 		// it shouldn't be associated with any other triple.
 		// it must be a uri reference.
diff --git a/spdx/v2/v2_3/rdf/reader/utils.go b/spdx/v2/v2_3/rdf/reader/utils.go
index e458530..b1fb248 100644
--- a/spdx/v2/v2_3/rdf/reader/utils.go
+++ b/spdx/v2/v2_3/rdf/reader/utils.go
@@ -48,6 +48,10 @@ func (parser *rdfParser2_3) nodeToTriples(node *gordfParser.Node) []*gordfParser
 	if node == nil {
 		return []*gordfParser.Triple{}
 	}
+	if node.NodeType == gordfParser.RESOURCELITERAL {
+		// a reference to a node that is stated elsewhere
+		return parser.nodeStringToTriples[(&gordfParser.Node{NodeType: gordfParser.IRI, ID: node.ID}).String()]
+	}
 	return parser.nodeStringToTriples[node.String()]
 }
 
-- 
2.43.0


From 4c93236324de44f41a5b3d03ce415961d23d5475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 37/65] fix: RDF relationships to NONE, NOASSERTION and
 elements of other documents were read as ones to elements of this document

---
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 29 +++++++++++++++++--
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 29 +++++++++++++++++--
 2 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index 25869a6..47c2847 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -56,7 +56,7 @@ func (parser *rdfParser2_2) parseRelationship(triple *gordfParser.Triple) (err e
 		case SPDX_RELATED_SPDX_ELEMENT:
 			// cardinality: exactly 1
 			// assumes: spdx-element is a uri
-			reln.RefB, err = getReferenceFromURI(subTriple.Object.ID)
+			reln.RefB, err = parser.getRelatedElementFromURI(subTriple.Object.ID)
 			if err != nil {
 				return err
 			}
@@ -122,7 +122,7 @@ func (parser *rdfParser2_2) parseRelatedElementFromTriple(reln *v2_2.Relationshi
 	case SPDX_SPDX_ELEMENT:
 		// it shouldn't be associated with any other triple.
 		// it must be a uri reference.
-		reln.RefB, err = ExtractDocElementID(getLastPartOfURI(triple.Subject.ID))
+		reln.RefB, err = parser.getRelatedElementFromURI(triple.Subject.ID)
 		if err != nil {
 			return err
 		}
@@ -132,6 +132,31 @@ func (parser *rdfParser2_2) parseRelatedElementFromTriple(reln *v2_2.Relationshi
 	return nil
 }
 
+// the element a relationship relates to may also be none at all or one of
+// another document, which is named by its uri.
+func (parser *rdfParser2_2) getRelatedElementFromURI(uri string) (common.DocElementID, error) {
+	switch special := strings.ToUpper(strings.TrimSpace(getLastPartOfURI(uri))); special {
+	case "NONE", "NOASSERTION":
+		return common.DocElementID{SpecialID: special}, nil
+	}
+	ref, err := getReferenceFromURI(uri)
+	if err != nil {
+		return ref, err
+	}
+	documentURI, _, _ := strings.Cut(uri, "#")
+	for _, triple := range parser.gordfParserObj.Triples {
+		if triple.Predicate.ID != SPDX_SPDX_DOCUMENT || triple.Object.ID != documentURI {
+			continue
+		}
+		edr, err := parser.getExternalDocumentRefFromNode(triple.Subject)
+		if err != nil {
+			return ref, err
+		}
+		ref.DocumentRefID = edr.DocumentRefID
+	}
+	return ref, nil
+}
+
 // references like RefA and RefB of any relationship
 func getReferenceFromURI(uri string) (common.DocElementID, error) {
 	fragment := getLastPartOfURI(uri)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index 3ae5697..f49b8f1 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -56,7 +56,7 @@ func (parser *rdfParser2_3) parseRelationship(triple *gordfParser.Triple) (err e
 		case SPDX_RELATED_SPDX_ELEMENT:
 			// cardinality: exactly 1
 			// assumes: spdx-element is a uri
-			reln.RefB, err = getReferenceFromURI(subTriple.Object.ID)
+			reln.RefB, err = parser.getRelatedElementFromURI(subTriple.Object.ID)
 			if err != nil {
 				return err
 			}
@@ -122,7 +122,7 @@ func (parser *rdfParser2_3) parseRelatedElementFromTriple(reln *spdx.Relationshi
 	case SPDX_SPDX_ELEMENT:
 		// it shouldn't be associated with any other triple.
 		// it must be a uri reference.
-		reln.RefB, err = ExtractDocElementID(getLastPartOfURI(triple.Subject.ID))
+		reln.RefB, err = parser.getRelatedElementFromURI(triple.Subject.ID)
 		if err != nil {
 			return err
 		}
@@ -132,6 +132,31 @@ func (parser *rdfParser2_3) parseRelatedElementFromTriple(reln *spdx.Relationshi
 	return nil
 }
 
+// the element a relationship relates to may also be none at all or one of
+// another document, which is named by its uri.
+func (parser *rdfParser2_3) getRelatedElementFromURI(uri string) (common.DocElementID, error) {
+	switch special := strings.ToUpper(strings.TrimSpace(getLastPartOfURI(uri))); special {
+	case "NONE", "NOASSERTION":
+		return common.DocElementID{SpecialID: special}, nil
+	}
+	ref, err := getReferenceFromURI(uri)
+	if err != nil {
+		return ref, err
+	}
+	documentURI, _, _ := strings.Cut(uri, "#")
+	for _, triple := range parser.gordfParserObj.Triples {
+		if triple.Predicate.ID != SPDX_SPDX_DOCUMENT || triple.Object.ID != documentURI {
+			continue
+		}
+		edr, err := parser.getExternalDocumentRefFromNode(triple.Subject)
+		if err != nil {
+			return ref, err
+		}
+		ref.DocumentRefID = edr.DocumentRefID
+	}
+	return ref, nil
+}
+
 // references like RefA and RefB of any relationship
 func getReferenceFromURI(uri string) (common.DocElementID, error) {
 	fragment := getLastPartOfURI(uri)
-- 
2.43.0


From 260abf1bac368bbecf0d152b6764f2cf55a4ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 38/65] fix: RDF reader panicked on a root node without a type

---
 spdx/v2/v2_2/rdf/reader/parser.go | 4 ++++
 spdx/v2/v2_3/rdf/reader/parser.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index c8231e3..ebd5ce4 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -125,6 +125,10 @@ func (parser *rdfParser2_2) getSpdxDocNode() (node *gordfParser.Node, err error)
 			nil,                            // Object
 		)
 
+		if len(typeTriples) == 0 {
+			continue
+		}
+
 		if typeTriples[0].Object.ID == SPDX_SPDX_DOCUMENT_CAPITALIZED {
 			// we found a SpdxDocument Node
 
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 1028060..10f0310 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -125,6 +125,10 @@ func (parser *rdfParser2_3) getSpdxDocNode() (node *gordfParser.Node, err error)
 			nil,                            // Object
 		)
 
+		if len(typeTriples) == 0 {
+			continue
+		}
+
 		if typeTriples[0].Object.ID == SPDX_SPDX_DOCUMENT_CAPITALIZED {
 			// we found a SpdxDocument Node
 
-- 
2.43.0


From 7877abe63aef710c715dbeb50972bc93ec282ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 39/65] fix: RDF documents that an element relates to were not
 found

---
 spdx/v2/v2_2/rdf/reader/parser.go | 10 ++++++++++
 spdx/v2/v2_3/rdf/reader/parser.go | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index ebd5ce4..0add707 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -145,6 +145,16 @@ func (parser *rdfParser2_2) getSpdxDocNode() (node *gordfParser.Node, err error)
 			spdxDocNode = typeTriples[0].Subject
 		}
 	}
+	if spdxDocNode == nil {
+		// an element of the document may relate to the document, which is no
+		// root node then. It is the one that states the version of the specification.
+		for _, triple := range gordfWriter.FilterTriples(parser.gordfParserObj.Triples, nil, &SPDX_SPEC_VERSION, nil) {
+			if spdxDocNode != nil && spdxDocNode.ID != triple.Subject.ID {
+				return nil, fmt.Errorf("found more than one SpdxDocument Node (%v and %v)", spdxDocNode, triple.Subject)
+			}
+			spdxDocNode = triple.Subject
+		}
+	}
 	if spdxDocNode == nil {
 		return nil, errors.New("RDF files must be associated with a SpdxDocument tag. No tag found")
 	}
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index 10f0310..b90d59f 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -145,6 +145,16 @@ func (parser *rdfParser2_3) getSpdxDocNode() (node *gordfParser.Node, err error)
 			spdxDocNode = typeTriples[0].Subject
 		}
 	}
+	if spdxDocNode == nil {
+		// an element of the document may relate to the document, which is no
+		// root node then. It is the one that states the version of the specification.
+		for _, triple := range gordfWriter.FilterTriples(parser.gordfParserObj.Triples, nil, &SPDX_SPEC_VERSION, nil) {
+			if spdxDocNode != nil && spdxDocNode.ID != triple.Subject.ID {
+				return nil, fmt.Errorf("found more than one SpdxDocument Node (%v and %v)", spdxDocNode, triple.Subject)
+			}
+			spdxDocNode = triple.Subject
+		}
+	}
 	if spdxDocNode == nil {
 		return nil, errors.New("RDF files must be associated with a SpdxDocument tag. No tag found")
 	}
-- 
2.43.0


From e63a2bd5822b2e75bb834bb522911fd4871a9103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 40/65] fix: RDF elements that nothing refers to, and snippets
 that something refers to, were left out

---
 spdx/v2/v2_2/rdf/reader/parser.go | 33 ++++++++++++++++++++++---------
 spdx/v2/v2_3/rdf/reader/parser.go | 33 ++++++++++++++++++++++---------
 2 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parser.go b/spdx/v2/v2_2/rdf/reader/parser.go
index 0add707..ae121bb 100644
--- a/spdx/v2/v2_2/rdf/reader/parser.go
+++ b/spdx/v2/v2_2/rdf/reader/parser.go
@@ -60,11 +60,28 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 		if len(typeTriples) != 1 {
 			return nil, fmt.Errorf("every node must be associated with exactly 1 type Triple. found %d type triples", len(typeTriples))
 		}
-		switch typeTriples[0].Object.ID {
-		case SPDX_SPDX_DOCUMENT_CAPITALIZED:
-			continue // it is already parsed.
+	}
+
+	// parsing the elements that were not come across so far
+	snippets := map[string]bool{}
+	for _, triple := range gordfWriter.FilterTriples(gordfParserObj.Triples, nil, &RDF_TYPE, nil) {
+		node := triple.Subject
+		isOwn := strings.HasPrefix(node.ID, parser.doc.DocumentNamespace+"#")
+		switch triple.Object.ID {
+		case SPDX_PACKAGE:
+			if isOwn {
+				_, err = parser.getPackageFromNode(node)
+			}
+		case SPDX_FILE:
+			if isOwn {
+				_, err = parser.getFileFromNode(node)
+			}
 		case SPDX_SNIPPET:
-			snippet, err := parser.getSnippetInformationFromNode2_2(typeTriples[0].Subject)
+			if snippets[node.ID] {
+				continue
+			}
+			snippets[node.ID] = true
+			snippet, err := parser.getSnippetInformationFromNode2_2(node)
 			if err != nil {
 				return nil, fmt.Errorf("error parsing a snippet: %v", err)
 			}
@@ -72,11 +89,9 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*v2_2.Document, er
 			if err != nil {
 				return nil, err
 			}
-		// todo: check other root node attributes.
-		default:
-			continue
-			// because in rdf it is quite possible that the root node is an
-			// element that has been used in the some other element as a child
+		}
+		if err != nil {
+			return nil, err
 		}
 	}
 
diff --git a/spdx/v2/v2_3/rdf/reader/parser.go b/spdx/v2/v2_3/rdf/reader/parser.go
index b90d59f..f754cd2 100644
--- a/spdx/v2/v2_3/rdf/reader/parser.go
+++ b/spdx/v2/v2_3/rdf/reader/parser.go
@@ -60,11 +60,28 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 		if len(typeTriples) != 1 {
 			return nil, fmt.Errorf("every node must be associated with exactly 1 type Triple. found %d type triples", len(typeTriples))
 		}
-		switch typeTriples[0].Object.ID {
-		case SPDX_SPDX_DOCUMENT_CAPITALIZED:
-			continue // it is already parsed.
+	}
+
+	// parsing the elements that were not come across so far
+	snippets := map[string]bool{}
+	for _, triple := range gordfWriter.FilterTriples(gordfParserObj.Triples, nil, &RDF_TYPE, nil) {
+		node := triple.Subject
+		isOwn := strings.HasPrefix(node.ID, parser.doc.DocumentNamespace+"#")
+		switch triple.Object.ID {
+		case SPDX_PACKAGE:
+			if isOwn {
+				_, err = parser.getPackageFromNode(node)
+			}
+		case SPDX_FILE:
+			if isOwn {
+				_, err = parser.getFileFromNode(node)
+			}
 		case SPDX_SNIPPET:
-			snippet, err := parser.getSnippetInformationFromNode2_3(typeTriples[0].Subject)
+			if snippets[node.ID] {
+				continue
+			}
+			snippets[node.ID] = true
+			snippet, err := parser.getSnippetInformationFromNode2_3(node)
 			if err != nil {
 				return nil, fmt.Errorf("error parsing a snippet: %v", err)
 			}
@@ -72,11 +89,9 @@ func LoadFromGoRDFParser(gordfParserObj *gordfParser.Parser) (*spdx.Document, er
 			if err != nil {
 				return nil, err
 			}
-		// todo: check other root node attributes.
-		default:
-			continue
-			// because in rdf it is quite possible that the root node is an
-			// element that has been used in the some other element as a child
+		}
+		if err != nil {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From 0ff3735b9b8be6bc2d00aff9259d7c7498cb0291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 41/65] fix: RDF annotations did not tell what they are about

---
 spdx/v2/v2_2/rdf/reader/parse_annotation.go    | 12 ++++++++++++
 spdx/v2/v2_2/rdf/reader/parse_file.go          |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_package.go       |  2 +-
 spdx/v2/v2_2/rdf/reader/parse_spdx_document.go |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_annotation.go    | 12 ++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_file.go          |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_package.go       |  2 +-
 spdx/v2/v2_3/rdf/reader/parse_spdx_document.go |  2 +-
 8 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_annotation.go b/spdx/v2/v2_2/rdf/reader/parse_annotation.go
index bbbfc62..66c8b59 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_annotation.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_annotation.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
+	"github.com/spdx/tools-golang/spdx/v2/common"
 	"github.com/spdx/tools-golang/spdx/v2/v2_2"
 )
 
@@ -42,6 +43,17 @@ func (parser *rdfParser2_2) parseAnnotationFromNode(node *gordfParser.Node) (err
 	return setAnnotationToParser(parser, ann)
 }
 
+// the annotation of an element names the element it is about.
+func (parser *rdfParser2_2) parseAnnotationOf(id common.ElementID, node *gordfParser.Node) error {
+	err := parser.parseAnnotationFromNode(node)
+	if err != nil {
+		return err
+	}
+	ann := parser.doc.Annotations[len(parser.doc.Annotations)-1]
+	ann.AnnotationSPDXIdentifier = common.DocElementID{ElementRefID: id}
+	return nil
+}
+
 func setAnnotationToParser(parser *rdfParser2_2, annotation *v2_2.Annotation) error {
 	if parser.doc == nil {
 		return errors.New("uninitialized spdx document")
diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index 14a76c8..ffc8d7b 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -116,7 +116,7 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 			file.FileAttributionTexts = append(file.FileAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOf(file.FileSPDXIdentifier, subTriple.Object)
 		case SPDX_RELATIONSHIP:
 			// cardinality: min 0
 			err = parser.parseRelationship(subTriple)
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index bd6563a..9b2c3b8 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -153,7 +153,7 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageAttributionTexts = append(pkg.PackageAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOf(pkg.PackageSPDXIdentifier, subTriple.Object)
 		default:
 			return nil, fmt.Errorf("unknown predicate id %s while parsing a package", subTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
index 18151a2..ce0f29c 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_spdx_document.go
@@ -77,7 +77,7 @@ func (parser *rdfParser2_2) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.parseRelationship(subTriple)
 		case SPDX_ANNOTATION: // annotations
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOf(parser.doc.SPDXIdentifier, subTriple.Object)
 		default:
 			return fmt.Errorf("invalid predicate while parsing SpdxDocument: %v", subTriple.Predicate)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_annotation.go b/spdx/v2/v2_3/rdf/reader/parse_annotation.go
index 012bcf5..e009d0e 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_annotation.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_annotation.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
+	"github.com/spdx/tools-golang/spdx/v2/common"
 	spdx "github.com/spdx/tools-golang/spdx/v2/v2_3"
 )
 
@@ -42,6 +43,17 @@ func (parser *rdfParser2_3) parseAnnotationFromNode(node *gordfParser.Node) (err
 	return setAnnotationToParser(parser, ann)
 }
 
+// the annotation of an element names the element it is about.
+func (parser *rdfParser2_3) parseAnnotationOf(id common.ElementID, node *gordfParser.Node) error {
+	err := parser.parseAnnotationFromNode(node)
+	if err != nil {
+		return err
+	}
+	ann := parser.doc.Annotations[len(parser.doc.Annotations)-1]
+	ann.AnnotationSPDXIdentifier = common.DocElementID{ElementRefID: id}
+	return nil
+}
+
 func setAnnotationToParser(parser *rdfParser2_3, annotation *spdx.Annotation) error {
 	if parser.doc == nil {
 		return errors.New("uninitialized spdx document")
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index 9c34a2a..e1d4482 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -116,7 +116,7 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 			file.FileAttributionTexts = append(file.FileAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOf(file.FileSPDXIdentifier, subTriple.Object)
 		case SPDX_RELATIONSHIP:
 			// cardinality: min 0
 			err = parser.parseRelationship(subTriple)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 918cf94..654aded 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -165,7 +165,7 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageAttributionTexts = append(pkg.PackageAttributionTexts, subTriple.Object.ID)
 		case SPDX_ANNOTATION:
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOf(pkg.PackageSPDXIdentifier, subTriple.Object)
 		default:
 			return nil, fmt.Errorf("unknown predicate id %s while parsing a package", subTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
index 543ead2..f3af175 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_spdx_document.go
@@ -77,7 +77,7 @@ func (parser *rdfParser2_3) parseSpdxDocumentNode(spdxDocNode *gordfParser.Node)
 			err = parser.parseRelationship(subTriple)
 		case SPDX_ANNOTATION: // annotations
 			// cardinality: min 0
-			err = parser.parseAnnotationFromNode(subTriple.Object)
+			err = parser.parseAnnotationOf(parser.doc.SPDXIdentifier, subTriple.Object)
 		default:
 			return fmt.Errorf("invalid predicate while parsing SpdxDocument: %v", subTriple.Predicate)
 		}
-- 
2.43.0


From ec0495bee92e5ed642177561433c64428e576212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 42/65] fix: RDF snippets kept the last of their ranges only,
 and ranges lost their files

---
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go | 40 +++++++++++++----
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go | 43 +++++++++++++++----
 2 files changed, 67 insertions(+), 16 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index bafb4dd..db3d738 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -73,6 +73,14 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
 	}
+	// the file of the snippet may be stated after its ranges
+	for i := range si.Ranges {
+		for _, pointer := range []*common.SnippetRangePointer{&si.Ranges[i].StartPointer, &si.Ranges[i].EndPointer} {
+			if pointer.FileSPDXIdentifier == "" {
+				pointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+			}
+		}
+	}
 	return si, nil
 }
 
@@ -137,21 +145,37 @@ func (parser *rdfParser2_2) setSnippetRangeFromNode(node *gordfParser.Node, si *
 		return fmt.Errorf("start and end range type doesn't match")
 	}
 
-	si.Ranges = []common.SnippetRange{{
-		StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-		EndPointer:   common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-	}}
+	snippetRange := common.SnippetRange{}
+	snippetRange.StartPointer.FileSPDXIdentifier, err = parser.getFileOfPointer(startPointerTriples[0].Object, si)
+	if err != nil {
+		return err
+	}
+	snippetRange.EndPointer.FileSPDXIdentifier, err = parser.getFileOfPointer(endPointerTriples[0].Object, si)
+	if err != nil {
+		return err
+	}
 
 	if startRangeType == LINE_RANGE {
-		si.Ranges[0].StartPointer.LineNumber = start
-		si.Ranges[0].EndPointer.LineNumber = end
+		snippetRange.StartPointer.LineNumber = start
+		snippetRange.EndPointer.LineNumber = end
 	} else {
-		si.Ranges[0].StartPointer.Offset = start
-		si.Ranges[0].EndPointer.Offset = end
+		snippetRange.StartPointer.Offset = start
+		snippetRange.EndPointer.Offset = end
 	}
+	si.Ranges = append(si.Ranges, snippetRange)
 	return nil
 }
 
+// the file a pointer points into: the one it refers to, or the file of the snippet.
+func (parser *rdfParser2_2) getFileOfPointer(node *gordfParser.Node, si *v2_2.Snippet) (common.ElementID, error) {
+	for _, triple := range parser.nodeToTriples(node) {
+		if triple.Predicate.ID == PTR_REFERENCE {
+			return ExtractElementID(getLastPartOfURI(triple.Object.ID))
+		}
+	}
+	return si.SnippetFromFileSPDXIdentifier, nil
+}
+
 func (parser *rdfParser2_2) getPointerFromNode(node *gordfParser.Node, si *v2_2.Snippet) (rt RangeType, number int, err error) {
 	for _, triple := range parser.nodeToTriples(node) {
 		switch triple.Predicate.ID {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index 10f9be7..7e1d8e9 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -34,6 +34,9 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 				return nil, err
 			}
 			docElemID, err := ExtractDocElementID(getLastPartOfURI(siTriple.Object.ID))
+			if err != nil {
+				return nil, err
+			}
 			si.SnippetFromFileSPDXIdentifier = docElemID.ElementRefID
 		case SPDX_RANGE:
 			// cardinality: min 1
@@ -70,6 +73,14 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
 	}
+	// the file of the snippet may be stated after its ranges
+	for i := range si.Ranges {
+		for _, pointer := range []*common.SnippetRangePointer{&si.Ranges[i].StartPointer, &si.Ranges[i].EndPointer} {
+			if pointer.FileSPDXIdentifier == "" {
+				pointer.FileSPDXIdentifier = si.SnippetFromFileSPDXIdentifier
+			}
+		}
+	}
 	return si, nil
 }
 
@@ -134,21 +145,37 @@ func (parser *rdfParser2_3) setSnippetRangeFromNode(node *gordfParser.Node, si *
 		return fmt.Errorf("start and end range type doesn't match")
 	}
 
-	si.Ranges = []common.SnippetRange{{
-		StartPointer: common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-		EndPointer:   common.SnippetRangePointer{FileSPDXIdentifier: si.SnippetFromFileSPDXIdentifier},
-	}}
+	snippetRange := common.SnippetRange{}
+	snippetRange.StartPointer.FileSPDXIdentifier, err = parser.getFileOfPointer(startPointerTriples[0].Object, si)
+	if err != nil {
+		return err
+	}
+	snippetRange.EndPointer.FileSPDXIdentifier, err = parser.getFileOfPointer(endPointerTriples[0].Object, si)
+	if err != nil {
+		return err
+	}
 
 	if startRangeType == LINE_RANGE {
-		si.Ranges[0].StartPointer.LineNumber = start
-		si.Ranges[0].EndPointer.LineNumber = end
+		snippetRange.StartPointer.LineNumber = start
+		snippetRange.EndPointer.LineNumber = end
 	} else {
-		si.Ranges[0].StartPointer.Offset = start
-		si.Ranges[0].EndPointer.Offset = end
+		snippetRange.StartPointer.Offset = start
+		snippetRange.EndPointer.Offset = end
 	}
+	si.Ranges = append(si.Ranges, snippetRange)
 	return nil
 }
 
+// the file a pointer points into: the one it refers to, or the file of the snippet.
+func (parser *rdfParser2_3) getFileOfPointer(node *gordfParser.Node, si *spdx.Snippet) (common.ElementID, error) {
+	for _, triple := range parser.nodeToTriples(node) {
+		if triple.Predicate.ID == PTR_REFERENCE {
+			return ExtractElementID(getLastPartOfURI(triple.Object.ID))
+		}
+	}
+	return si.SnippetFromFileSPDXIdentifier, nil
+}
+
 func (parser *rdfParser2_3) getPointerFromNode(node *gordfParser.Node, si *spdx.Snippet) (rt RangeType, number int, err error) {
 	for _, triple := range parser.nodeToTriples(node) {
 		switch triple.Predicate.ID {
-- 
2.43.0


From 3c327e3acc3876aadea9da0110be6ccd8a03f51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 43/65] fix: RDF snippets with attribution texts, annotations
 or relationships were rejected

---
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go | 15 +++++++++++++++
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index db3d738..c29bbd6 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -69,6 +69,21 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 				return nil, fmt.Errorf("error parsing license info in snippet: %v", err)
 			}
 			si.SnippetLicenseConcluded = anyLicense.ToLicenseString()
+		case SPDX_ATTRIBUTION_TEXT:
+			// cardinality: min 0
+			si.SnippetAttributionTexts = append(si.SnippetAttributionTexts, siTriple.Object.ID)
+		case SPDX_ANNOTATION:
+			// cardinality: min 0
+			err = parser.parseAnnotationOf(si.SnippetSPDXIdentifier, siTriple.Object)
+			if err != nil {
+				return nil, err
+			}
+		case SPDX_RELATIONSHIP:
+			// cardinality: min 0
+			err = parser.parseRelationship(siTriple)
+			if err != nil {
+				return nil, err
+			}
 		default:
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index 7e1d8e9..33429e2 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -69,6 +69,21 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 				return nil, fmt.Errorf("error parsing license info in snippet: %v", err)
 			}
 			si.SnippetLicenseConcluded = anyLicense.ToLicenseString()
+		case SPDX_ATTRIBUTION_TEXT:
+			// cardinality: min 0
+			si.SnippetAttributionTexts = append(si.SnippetAttributionTexts, siTriple.Object.ID)
+		case SPDX_ANNOTATION:
+			// cardinality: min 0
+			err = parser.parseAnnotationOf(si.SnippetSPDXIdentifier, siTriple.Object)
+			if err != nil {
+				return nil, err
+			}
+		case SPDX_RELATIONSHIP:
+			// cardinality: min 0
+			err = parser.parseRelationship(siTriple)
+			if err != nil {
+				return nil, err
+			}
 		default:
 			return nil, fmt.Errorf("unknown predicate %v", siTriple.Predicate.ID)
 		}
-- 
2.43.0


From 24f89077c6516cba5e1166189e4c507c208b9b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 44/65] fix: RDF license sets lost their nesting

---
 spdx/v2/v2_2/rdf/reader/license_utils.go | 24 +++++++++++++++++++++---
 spdx/v2/v2_3/rdf/reader/license_utils.go | 24 +++++++++++++++++++++---
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/license_utils.go b/spdx/v2/v2_2/rdf/reader/license_utils.go
index 87633a0..79e96cd 100644
--- a/spdx/v2/v2_2/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_2/rdf/reader/license_utils.go
@@ -80,12 +80,30 @@ func mapLicensesToStrings(licences []AnyLicenseInfo) []string {
 
 /****** Type Functions ******/
 
-// TODO: should probably add brackets while linearizing a nested license.
+// AND binds stronger than OR.
 func (lic ConjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " AND ")
+	members := mapLicensesToStrings(lic.members)
+	if len(members) > 1 {
+		for i, member := range lic.members {
+			if isChoice(member) {
+				members[i] = "(" + members[i] + ")"
+			}
+		}
+	}
+	return strings.Join(members, " AND ")
+}
+
+// tells whether the string of a license is a choice of several.
+func isChoice(lic AnyLicenseInfo) bool {
+	switch set := lic.(type) {
+	case DisjunctiveLicenseSet:
+		return len(set.members) > 1 || len(set.members) == 1 && isChoice(set.members[0])
+	case ConjunctiveLicenseSet:
+		return len(set.members) == 1 && isChoice(set.members[0])
+	}
+	return false
 }
 
-// TODO: should probably add brackets while linearizing a nested license.
 func (lic DisjunctiveLicenseSet) ToLicenseString() string {
 	return strings.Join(mapLicensesToStrings(lic.members), " OR ")
 }
diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index 0faa740..1abb33d 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -80,12 +80,30 @@ func mapLicensesToStrings(licences []AnyLicenseInfo) []string {
 
 /****** Type Functions ******/
 
-// TODO: should probably add brackets while linearizing a nested license.
+// AND binds stronger than OR.
 func (lic ConjunctiveLicenseSet) ToLicenseString() string {
-	return strings.Join(mapLicensesToStrings(lic.members), " AND ")
+	members := mapLicensesToStrings(lic.members)
+	if len(members) > 1 {
+		for i, member := range lic.members {
+			if isChoice(member) {
+				members[i] = "(" + members[i] + ")"
+			}
+		}
+	}
+	return strings.Join(members, " AND ")
+}
+
+// tells whether the string of a license is a choice of several.
+func isChoice(lic AnyLicenseInfo) bool {
+	switch set := lic.(type) {
+	case DisjunctiveLicenseSet:
+		return len(set.members) > 1 || len(set.members) == 1 && isChoice(set.members[0])
+	case ConjunctiveLicenseSet:
+		return len(set.members) == 1 && isChoice(set.members[0])
+	}
+	return false
 }
 
-// TODO: should probably add brackets while linearizing a nested license.
 func (lic DisjunctiveLicenseSet) ToLicenseString() string {
 	return strings.Join(mapLicensesToStrings(lic.members), " OR ")
 }
-- 
2.43.0


From 4612ccc99a02948eb7c82676c270b4ec2db58937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 45/65] fix: RDF license exceptions were dropped

---
 spdx/v2/v2_2/rdf/reader/license_utils.go | 3 +++
 spdx/v2/v2_2/rdf/reader/parse_license.go | 4 ++++
 spdx/v2/v2_3/rdf/reader/license_utils.go | 3 +++
 spdx/v2/v2_3/rdf/reader/parse_license.go | 4 ++++
 4 files changed, 14 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/license_utils.go b/spdx/v2/v2_2/rdf/reader/license_utils.go
index 79e96cd..a345923 100644
--- a/spdx/v2/v2_2/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_2/rdf/reader/license_utils.go
@@ -125,6 +125,9 @@ func (lic ListedLicense) ToLicenseString() string {
 }
 
 func (lic WithExceptionOperator) ToLicenseString() string {
+	if lic.licenseException.licenseExceptionId != "" {
+		return lic.member.ToLicenseString() + " WITH " + lic.licenseException.licenseExceptionId
+	}
 	return lic.member.ToLicenseString()
 }
 
diff --git a/spdx/v2/v2_2/rdf/reader/parse_license.go b/spdx/v2/v2_2/rdf/reader/parse_license.go
index 0f80ed2..aa24a23 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_license.go
@@ -127,6 +127,10 @@ func (parser *rdfParser2_2) getWithExceptionOperatorFromNode(node *gordfParser.N
 			if err != nil {
 				return operator, fmt.Errorf("error parsing licenseException of WithExceptionOperator: %v", err)
 			}
+			if operator.licenseException.licenseExceptionId == "" && triple.Object.NodeType == gordfParser.RESOURCELITERAL {
+				// just the uri of a listed exception was found.
+				operator.licenseException.licenseExceptionId = getLastPartOfURI(triple.Object.ID)
+			}
 		default:
 			return operator, fmt.Errorf("unknown predicate (%s) for a WithExceptionOperator", triple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index 1abb33d..1b2fc54 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -125,6 +125,9 @@ func (lic ListedLicense) ToLicenseString() string {
 }
 
 func (lic WithExceptionOperator) ToLicenseString() string {
+	if lic.licenseException.licenseExceptionId != "" {
+		return lic.member.ToLicenseString() + " WITH " + lic.licenseException.licenseExceptionId
+	}
 	return lic.member.ToLicenseString()
 }
 
diff --git a/spdx/v2/v2_3/rdf/reader/parse_license.go b/spdx/v2/v2_3/rdf/reader/parse_license.go
index ae50105..0897941 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_license.go
@@ -127,6 +127,10 @@ func (parser *rdfParser2_3) getWithExceptionOperatorFromNode(node *gordfParser.N
 			if err != nil {
 				return operator, fmt.Errorf("error parsing licenseException of WithExceptionOperator: %v", err)
 			}
+			if operator.licenseException.licenseExceptionId == "" && triple.Object.NodeType == gordfParser.RESOURCELITERAL {
+				// just the uri of a listed exception was found.
+				operator.licenseException.licenseExceptionId = getLastPartOfURI(triple.Object.ID)
+			}
 		default:
 			return operator, fmt.Errorf("unknown predicate (%s) for a WithExceptionOperator", triple.Predicate.ID)
 		}
-- 
2.43.0


From 3d9ca1471f1f398bdaff672677e79efc15d25be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 46/65] fix: RDF license operators rejected members that are
 licenses or names of licenses

---
 spdx/v2/v2_2/rdf/reader/parse_license.go | 30 ++++++++++++++++++++++--
 spdx/v2/v2_3/rdf/reader/parse_license.go | 30 ++++++++++++++++++++++--
 2 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_license.go b/spdx/v2/v2_2/rdf/reader/parse_license.go
index aa24a23..b9103d8 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_license.go
@@ -117,7 +117,7 @@ func (parser *rdfParser2_2) getWithExceptionOperatorFromNode(node *gordfParser.N
 					fmt.Errorf("more than one member found in the WithExceptionOperator (expected only 1)")
 			}
 			memberFound = true
-			member, err := parser.getSimpleLicensingInfoFromNode(triple.Object)
+			member, err := parser.getMemberOfOperator(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing member of a WithExceptionOperator: %v", err)
 			}
@@ -138,6 +138,32 @@ func (parser *rdfParser2_2) getWithExceptionOperatorFromNode(node *gordfParser.N
 	return operator, nil
 }
 
+// the license an operator applies to can be given in all the ways a license can.
+func (parser *rdfParser2_2) getMemberOfOperator(node *gordfParser.Node) (SimpleLicensingInfo, error) {
+	triples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(triples) == 0 && node.NodeType == gordfParser.RESOURCELITERAL {
+		lic, err := parser.getSpecialLicenseFromNode(node)
+		return SimpleLicensingInfo{licenseID: lic.ToLicenseString()}, err
+	}
+	if nodeType, err := getNodeTypeFromTriples(triples, node); err == nil {
+		switch nodeType {
+		case SPDX_LISTED_LICENSE, SPDX_LICENSE:
+			lic, err := parser.getLicenseFromNode(node)
+			return lic.SimpleLicensingInfo, err
+		case SPDX_EXTRACTED_LICENSING_INFO:
+			lic, err := parser.getExtractedLicensingInfoFromNode(node)
+			return lic.SimpleLicensingInfo, err
+		case SPDX_OR_LATER_OPERATOR:
+			lic, err := parser.getAnyLicenseFromNode(node) // finds cycles
+			if err != nil {
+				return SimpleLicensingInfo{}, err
+			}
+			return lic.(OrLaterOperator).member, nil
+		}
+	}
+	return parser.getSimpleLicensingInfoFromTriples(triples)
+}
+
 func (parser *rdfParser2_2) getOrLaterOperatorFromNode(node *gordfParser.Node) (operator OrLaterOperator, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
 	n := len(associatedTriples)
@@ -149,7 +175,7 @@ func (parser *rdfParser2_2) getOrLaterOperatorFromNode(node *gordfParser.Node) (
 		case RDF_TYPE:
 			continue
 		case SPDX_MEMBER:
-			operator.member, err = parser.getSimpleLicensingInfoFromNode(triple.Object)
+			operator.member, err = parser.getMemberOfOperator(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing simpleLicensingInfo of OrLaterOperator: %v", err)
 			}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_license.go b/spdx/v2/v2_3/rdf/reader/parse_license.go
index 0897941..fbf8fb0 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_license.go
@@ -117,7 +117,7 @@ func (parser *rdfParser2_3) getWithExceptionOperatorFromNode(node *gordfParser.N
 					fmt.Errorf("more than one member found in the WithExceptionOperator (expected only 1)")
 			}
 			memberFound = true
-			member, err := parser.getSimpleLicensingInfoFromNode(triple.Object)
+			member, err := parser.getMemberOfOperator(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing member of a WithExceptionOperator: %v", err)
 			}
@@ -138,6 +138,32 @@ func (parser *rdfParser2_3) getWithExceptionOperatorFromNode(node *gordfParser.N
 	return operator, nil
 }
 
+// the license an operator applies to can be given in all the ways a license can.
+func (parser *rdfParser2_3) getMemberOfOperator(node *gordfParser.Node) (SimpleLicensingInfo, error) {
+	triples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
+	if len(triples) == 0 && node.NodeType == gordfParser.RESOURCELITERAL {
+		lic, err := parser.getSpecialLicenseFromNode(node)
+		return SimpleLicensingInfo{licenseID: lic.ToLicenseString()}, err
+	}
+	if nodeType, err := getNodeTypeFromTriples(triples, node); err == nil {
+		switch nodeType {
+		case SPDX_LISTED_LICENSE, SPDX_LICENSE:
+			lic, err := parser.getLicenseFromNode(node)
+			return lic.SimpleLicensingInfo, err
+		case SPDX_EXTRACTED_LICENSING_INFO:
+			lic, err := parser.getExtractedLicensingInfoFromNode(node)
+			return lic.SimpleLicensingInfo, err
+		case SPDX_OR_LATER_OPERATOR:
+			lic, err := parser.getAnyLicenseFromNode(node) // finds cycles
+			if err != nil {
+				return SimpleLicensingInfo{}, err
+			}
+			return lic.(OrLaterOperator).member, nil
+		}
+	}
+	return parser.getSimpleLicensingInfoFromTriples(triples)
+}
+
 func (parser *rdfParser2_3) getOrLaterOperatorFromNode(node *gordfParser.Node) (operator OrLaterOperator, err error) {
 	associatedTriples := rdfwriter.FilterTriples(parser.gordfParserObj.Triples, &node.ID, nil, nil)
 	n := len(associatedTriples)
@@ -149,7 +175,7 @@ func (parser *rdfParser2_3) getOrLaterOperatorFromNode(node *gordfParser.Node) (
 		case RDF_TYPE:
 			continue
 		case SPDX_MEMBER:
-			operator.member, err = parser.getSimpleLicensingInfoFromNode(triple.Object)
+			operator.member, err = parser.getMemberOfOperator(triple.Object)
 			if err != nil {
 				return operator, fmt.Errorf("error parsing simpleLicensingInfo of OrLaterOperator: %v", err)
 			}
-- 
2.43.0


From cd22a49058a17cd2b57c4836ebdc916ea8b58ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 47/65] fix: RDF or-later operators were dropped

---
 spdx/v2/v2_2/rdf/reader/parse_license.go | 2 ++
 spdx/v2/v2_3/rdf/reader/parse_license.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_license.go b/spdx/v2/v2_2/rdf/reader/parse_license.go
index b9103d8..75e5732 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_license.go
@@ -179,6 +179,8 @@ func (parser *rdfParser2_2) getOrLaterOperatorFromNode(node *gordfParser.Node) (
 			if err != nil {
 				return operator, fmt.Errorf("error parsing simpleLicensingInfo of OrLaterOperator: %v", err)
 			}
+			// the license of the operator is the member or any later version of it.
+			operator.member.licenseID += "+"
 		default:
 			return operator, fmt.Errorf("unknown predicate %s", triple.Predicate.ID)
 		}
diff --git a/spdx/v2/v2_3/rdf/reader/parse_license.go b/spdx/v2/v2_3/rdf/reader/parse_license.go
index fbf8fb0..0b07fd2 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_license.go
@@ -179,6 +179,8 @@ func (parser *rdfParser2_3) getOrLaterOperatorFromNode(node *gordfParser.Node) (
 			if err != nil {
 				return operator, fmt.Errorf("error parsing simpleLicensingInfo of OrLaterOperator: %v", err)
 			}
+			// the license of the operator is the member or any later version of it.
+			operator.member.licenseID += "+"
 		default:
 			return operator, fmt.Errorf("unknown predicate %s", triple.Predicate.ID)
 		}
-- 
2.43.0


From 164cb28c540a023b4cbba6c105fa9094a16d81cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 48/65] fix: RDF licenses from files given as nodes were read
 as the names of the nodes

---
 spdx/v2/v2_2/rdf/reader/parse_package.go | 11 ++++++++++-
 spdx/v2/v2_3/rdf/reader/parse_package.go | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 9b2c3b8..0e49b11 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -108,7 +108,16 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseConcluded = anyLicenseInfo.ToLicenseString()
 		case SPDX_LICENSE_INFO_FROM_FILES: // 3.14
 			// cardinality: min 0
-			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, getLicenseStringFromURI(subTriple.Object.ID))
+			if len(parser.nodeToTriples(subTriple.Object)) == 0 {
+				// just a license uri was found.
+				pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, getLicenseStringFromURI(subTriple.Object.ID))
+				continue
+			}
+			anyLicenseInfo, err := parser.getAnyLicenseFromNode(subTriple.Object)
+			if err != nil {
+				return nil, err
+			}
+			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, anyLicenseInfo.ToLicenseString())
 		case SPDX_LICENSE_DECLARED: // 3.15
 			// cardinality: exactly 1
 			anyLicenseInfo, err := parser.getAnyLicenseFromNode(subTriple.Object)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 654aded..71f0f2f 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -108,7 +108,16 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseConcluded = anyLicenseInfo.ToLicenseString()
 		case SPDX_LICENSE_INFO_FROM_FILES: // 7.14
 			// cardinality: min 0
-			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, getLicenseStringFromURI(subTriple.Object.ID))
+			if len(parser.nodeToTriples(subTriple.Object)) == 0 {
+				// just a license uri was found.
+				pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, getLicenseStringFromURI(subTriple.Object.ID))
+				continue
+			}
+			anyLicenseInfo, err := parser.getAnyLicenseFromNode(subTriple.Object)
+			if err != nil {
+				return nil, err
+			}
+			pkg.PackageLicenseInfoFromFiles = append(pkg.PackageLicenseInfoFromFiles, anyLicenseInfo.ToLicenseString())
 		case SPDX_LICENSE_DECLARED: // 7.15
 			// cardinality: exactly 1
 			anyLicenseInfo, err := parser.getAnyLicenseFromNode(subTriple.Object)
-- 
2.43.0


From c52f9bf15dc4fe98a8655ca0f8d1d21291d8bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 49/65] fix: RDF external references of category persistentId
 were rejected

---
 spdx/v2/v2_2/rdf/reader/constants.go     | 1 +
 spdx/v2/v2_2/rdf/reader/parse_package.go | 2 ++
 spdx/v2/v2_3/rdf/reader/constants.go     | 1 +
 spdx/v2/v2_3/rdf/reader/parse_package.go | 2 ++
 4 files changed, 6 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/constants.go b/spdx/v2/v2_2/rdf/reader/constants.go
index f68fdd9..15a1978 100644
--- a/spdx/v2/v2_2/rdf/reader/constants.go
+++ b/spdx/v2/v2_2/rdf/reader/constants.go
@@ -83,6 +83,7 @@ var (
 	SPDX_REFERENCE_CATEGORY                      = NS_SPDX + "referenceCategory"
 	SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER      = NS_SPDX + "referenceCategory_packageManager"
 	SPDX_REFERENCE_CATEGORY_SECURITY             = NS_SPDX + "referenceCategory_security"
+	SPDX_REFERENCE_CATEGORY_PERSISTENT_ID        = NS_SPDX + "referenceCategory_persistentId"
 	SPDX_REFERENCE_CATEGORY_OTHER                = NS_SPDX + "referenceCategory_other"
 
 	SPDX_REFERENCE_TYPE                   = NS_SPDX + "referenceType"
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 0e49b11..a033463 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -192,6 +192,8 @@ func (parser *rdfParser2_2) getPackageExternalRef(node *gordfParser.Node) (exter
 				externalDocRef.Category = "SECURITY"
 			case SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER:
 				externalDocRef.Category = "PACKAGE-MANAGER"
+			case SPDX_REFERENCE_CATEGORY_PERSISTENT_ID:
+				externalDocRef.Category = "PERSISTENT-ID"
 			case SPDX_REFERENCE_CATEGORY_OTHER:
 				externalDocRef.Category = "OTHER"
 			default:
diff --git a/spdx/v2/v2_3/rdf/reader/constants.go b/spdx/v2/v2_3/rdf/reader/constants.go
index a50c196..da77078 100644
--- a/spdx/v2/v2_3/rdf/reader/constants.go
+++ b/spdx/v2/v2_3/rdf/reader/constants.go
@@ -87,6 +87,7 @@ var (
 	SPDX_REFERENCE_CATEGORY                      = NS_SPDX + "referenceCategory"
 	SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER      = NS_SPDX + "referenceCategory_packageManager"
 	SPDX_REFERENCE_CATEGORY_SECURITY             = NS_SPDX + "referenceCategory_security"
+	SPDX_REFERENCE_CATEGORY_PERSISTENT_ID        = NS_SPDX + "referenceCategory_persistentId"
 	SPDX_REFERENCE_CATEGORY_OTHER                = NS_SPDX + "referenceCategory_other"
 
 	SPDX_REFERENCE_TYPE                   = NS_SPDX + "referenceType"
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 71f0f2f..682f722 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -204,6 +204,8 @@ func (parser *rdfParser2_3) getPackageExternalRef(node *gordfParser.Node) (exter
 				externalDocRef.Category = "SECURITY"
 			case SPDX_REFERENCE_CATEGORY_PACKAGE_MANAGER:
 				externalDocRef.Category = "PACKAGE-MANAGER"
+			case SPDX_REFERENCE_CATEGORY_PERSISTENT_ID:
+				externalDocRef.Category = "PERSISTENT-ID"
 			case SPDX_REFERENCE_CATEGORY_OTHER:
 				externalDocRef.Category = "OTHER"
 			default:
-- 
2.43.0


From a9f25be4957784013fcd827aa81e2daace49f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:50 +0000
Subject: [PATCH 50/65] fix: RDF checksums of the algorithms new in 2.3 were
 rejected

---
 spdx/v2/v2_3/rdf/reader/license_utils.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/spdx/v2/v2_3/rdf/reader/license_utils.go b/spdx/v2/v2_3/rdf/reader/license_utils.go
index 1b2fc54..79f67ae 100644
--- a/spdx/v2/v2_3/rdf/reader/license_utils.go
+++ b/spdx/v2/v2_3/rdf/reader/license_utils.go
@@ -62,6 +62,20 @@ func getAlgorithmFromURI(algorithmURI string) (checksumAlgorithm string, err err
 		checksumAlgorithm = strings.ToUpper(algorithm)
 	case "sha1", "sha224", "sha256", "sha384", "sha512":
 		checksumAlgorithm = strings.ToUpper(algorithm)
+	case "sha3_256":
+		checksumAlgorithm = string(common.SHA3_256)
+	case "sha3_384":
+		checksumAlgorithm = string(common.SHA3_384)
+	case "sha3_512":
+		checksumAlgorithm = string(common.SHA3_512)
+	case "blake2b256":
+		checksumAlgorithm = string(common.BLAKE2b_256)
+	case "blake2b384":
+		checksumAlgorithm = string(common.BLAKE2b_384)
+	case "blake2b512":
+		checksumAlgorithm = string(common.BLAKE2b_512)
+	case "blake3", "adler32":
+		checksumAlgorithm = strings.ToUpper(algorithm)
 	default:
 		return "", fmt.Errorf("unknown checksum algorithm %s", algorithm)
 	}
-- 
2.43.0


From 500a7c1729708ebb8c01c5176ecc41eb843dee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 51/65] fix: purposes of RDF packages were dropped

---
 spdx/v2/v2_3/rdf/reader/parse_package.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 682f722..ec3b85c 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -235,10 +235,14 @@ func (parser *rdfParser2_3) getPackageExternalRef(node *gordfParser.Node) (exter
 }
 
 func getPrimaryPackagePurpose(purpose string) string {
-	value := strings.ReplaceAll(purpose, "packagePurpose_", "")
+	// purpose is the uri of one of the purposes
+	value := strings.TrimPrefix(getLastPartOfURI(purpose), "packagePurpose_")
+	value = strings.TrimPrefix(value, "purpose_")
 	value = strings.ReplaceAll(value, "_", "-")
 	value = strings.ToUpper(value)
 	switch value {
+	case "OPERATINGSYSTEM":
+		return "OPERATING-SYSTEM"
 	case "APPLICATION", "FRAMEWORK", "LIBRARY", "CONTAINER", "OPERATING-SYSTEM", "DEVICE", "FIRMWARE", "SOURCE", "ARCHIVE", "FILE", "INSTALL", "OTHER":
 		return value
 	}
-- 
2.43.0


From 3162a2069782c5ca3037277095031209f7dec7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 52/65] fix: NONE and NOASSERTION given by name as RDF
 supplier, originator and copyright text were rejected or read as the name

---
 spdx/v2/v2_2/rdf/reader/parse_file.go         |  3 +--
 spdx/v2/v2_2/rdf/reader/parse_package.go      |  6 +++---
 spdx/v2/v2_2/rdf/reader/parse_snippet_info.go |  2 +-
 spdx/v2/v2_2/rdf/reader/utils.go              | 11 +++++++++++
 spdx/v2/v2_3/rdf/reader/parse_file.go         |  3 +--
 spdx/v2/v2_3/rdf/reader/parse_package.go      |  6 +++---
 spdx/v2/v2_3/rdf/reader/parse_snippet_info.go |  2 +-
 spdx/v2/v2_3/rdf/reader/utils.go              | 11 +++++++++++
 8 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index ffc8d7b..a50aed3 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -83,10 +83,9 @@ func (parser *rdfParser2_2) getFileFromNode(fileNode *gordfParser.Node) (file *v
 		case SPDX_LICENSE_COMMENTS: // 4.7
 			// cardinality: max 1
 			file.LicenseComments = subTriple.Object.ID
-		// TODO: allow copyright text to be of type NOASSERTION
 		case SPDX_COPYRIGHT_TEXT: // 4.8
 			// cardinality: exactly 1
-			file.FileCopyrightText = subTriple.Object.ID
+			file.FileCopyrightText = getTextFromNode(subTriple.Object)
 		case SPDX_LICENSE_INFO_FROM_FILES:
 			// TODO: implement it. It is not defined in the tools-golang model.
 		// deprecated artifactOf (see sections 4.9, 4.10, 4.11)
diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index a033463..4bd1fdb 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -73,10 +73,10 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageFileName = subTriple.Object.ID
 		case SPDX_SUPPLIER: // 3.5
 			// cardinality: max 1
-			err = setPackageSupplier(pkg, subTriple.Object.ID)
+			err = setPackageSupplier(pkg, getTextFromNode(subTriple.Object))
 		case SPDX_ORIGINATOR: // 3.6
 			// cardinality: max 1
-			err = setPackageOriginator(pkg, subTriple.Object.ID)
+			err = setPackageOriginator(pkg, getTextFromNode(subTriple.Object))
 		case SPDX_DOWNLOAD_LOCATION: // 3.7
 			// cardinality: exactly 1
 			err = setDocumentLocationFromURI(pkg, subTriple.Object.ID)
@@ -130,7 +130,7 @@ func (parser *rdfParser2_2) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseComments = subTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT: // 3.17
 			// cardinality: exactly 1
-			pkg.PackageCopyrightText = subTriple.Object.ID
+			pkg.PackageCopyrightText = getTextFromNode(subTriple.Object)
 		case SPDX_SUMMARY: // 3.18
 			// cardinality: max 1
 			pkg.PackageSummary = subTriple.Object.ID
diff --git a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
index c29bbd6..62371bf 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_snippet_info.go
@@ -57,7 +57,7 @@ func (parser *rdfParser2_2) getSnippetInformationFromNode2_2(node *gordfParser.N
 		case SPDX_NAME:
 			si.SnippetName = siTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT:
-			si.SnippetCopyrightText = siTriple.Object.ID
+			si.SnippetCopyrightText = getTextFromNode(siTriple.Object)
 		case SPDX_LICENSE_COMMENTS:
 			si.SnippetLicenseComments = siTriple.Object.ID
 		case RDFS_COMMENT:
diff --git a/spdx/v2/v2_2/rdf/reader/utils.go b/spdx/v2/v2_2/rdf/reader/utils.go
index 40ee340..1cc37c6 100644
--- a/spdx/v2/v2_2/rdf/reader/utils.go
+++ b/spdx/v2/v2_2/rdf/reader/utils.go
@@ -70,6 +70,17 @@ func (parser *rdfParser2_2) newTriples(node *gordfParser.Node) (triples []*gordf
 	return triples
 }
 
+// getTextFromNode returns the text of a node that can also be the name of NONE or NOASSERTION.
+func getTextFromNode(node *gordfParser.Node) string {
+	switch node.ID {
+	case SPDX_NONE_CAPS, SPDX_NONE_SMALL:
+		return "NONE"
+	case SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL:
+		return "NOASSERTION"
+	}
+	return node.ID
+}
+
 // returns which boolean was given as an input
 // string(bool) is the only possible input for which it will not raise any error.
 func boolFromString(boolString string) (bool, error) {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index e1d4482..8c483b7 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -83,10 +83,9 @@ func (parser *rdfParser2_3) getFileFromNode(fileNode *gordfParser.Node) (file *s
 		case SPDX_LICENSE_COMMENTS: // 4.7
 			// cardinality: max 1
 			file.LicenseComments = subTriple.Object.ID
-		// TODO: allow copyright text to be of type NOASSERTION
 		case SPDX_COPYRIGHT_TEXT: // 4.8
 			// cardinality: exactly 1
-			file.FileCopyrightText = subTriple.Object.ID
+			file.FileCopyrightText = getTextFromNode(subTriple.Object)
 		case SPDX_LICENSE_INFO_FROM_FILES:
 			// TODO: implement it. It is not defined in the tools-golang model.
 		// deprecated artifactOf (see sections 4.9, 4.10, 4.11)
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index ec3b85c..7c586db 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -73,10 +73,10 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageFileName = subTriple.Object.ID
 		case SPDX_SUPPLIER: // 7.5
 			// cardinality: max 1
-			err = setPackageSupplier(pkg, subTriple.Object.ID)
+			err = setPackageSupplier(pkg, getTextFromNode(subTriple.Object))
 		case SPDX_ORIGINATOR: // 7.6
 			// cardinality: max 1
-			err = setPackageOriginator(pkg, subTriple.Object.ID)
+			err = setPackageOriginator(pkg, getTextFromNode(subTriple.Object))
 		case SPDX_DOWNLOAD_LOCATION: // 7.7
 			// cardinality: exactly 1
 			err = setDocumentLocationFromURI(pkg, subTriple.Object.ID)
@@ -130,7 +130,7 @@ func (parser *rdfParser2_3) getPackageFromNode(packageNode *gordfParser.Node) (p
 			pkg.PackageLicenseComments = subTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT: // 7.17
 			// cardinality: exactly 1
-			pkg.PackageCopyrightText = subTriple.Object.ID
+			pkg.PackageCopyrightText = getTextFromNode(subTriple.Object)
 		case SPDX_SUMMARY: // 7.18
 			// cardinality: max 1
 			pkg.PackageSummary = subTriple.Object.ID
diff --git a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
index 33429e2..b880765 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_snippet_info.go
@@ -57,7 +57,7 @@ func (parser *rdfParser2_3) getSnippetInformationFromNode2_3(node *gordfParser.N
 		case SPDX_NAME:
 			si.SnippetName = siTriple.Object.ID
 		case SPDX_COPYRIGHT_TEXT:
-			si.SnippetCopyrightText = siTriple.Object.ID
+			si.SnippetCopyrightText = getTextFromNode(siTriple.Object)
 		case SPDX_LICENSE_COMMENTS:
 			si.SnippetLicenseComments = siTriple.Object.ID
 		case RDFS_COMMENT:
diff --git a/spdx/v2/v2_3/rdf/reader/utils.go b/spdx/v2/v2_3/rdf/reader/utils.go
index b1fb248..852e493 100644
--- a/spdx/v2/v2_3/rdf/reader/utils.go
+++ b/spdx/v2/v2_3/rdf/reader/utils.go
@@ -70,6 +70,17 @@ func (parser *rdfParser2_3) newTriples(node *gordfParser.Node) (triples []*gordf
 	return triples
 }
 
+// getTextFromNode returns the text of a node that can also be the name of NONE or NOASSERTION.
+func getTextFromNode(node *gordfParser.Node) string {
+	switch node.ID {
+	case SPDX_NONE_CAPS, SPDX_NONE_SMALL:
+		return "NONE"
+	case SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL:
+		return "NOASSERTION"
+	}
+	return node.ID
+}
+
 // returns which boolean was given as an input
 // string(bool) is the only possible input for which it will not raise any error.
 func boolFromString(boolString string) (bool, error) {
-- 
2.43.0


From be1e2f8c768350fb89b2b1e00146ae5760e8c70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 53/65] fix: RDF files outside of packages came in another
 order each time

---
 spdx/v2/v2_2/rdf/reader/parse_file.go | 8 +++++++-
 spdx/v2/v2_3/rdf/reader/parse_file.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index a50aed3..aa1b86b 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -192,11 +193,16 @@ func (parser *rdfParser2_2) getFileTypeFromUri(uri string) (string, error) {
 // associated with a package by the hasFile attribute
 // assumes: all the packages are already parsed.
 func (parser *rdfParser2_2) setUnpackagedFiles() {
+	var fileIDs []common.ElementID
 	for fileID := range parser.files {
 		if !parser.assocWithPackage[fileID] {
-			parser.doc.Files = append(parser.doc.Files, parser.files[fileID])
+			fileIDs = append(fileIDs, fileID)
 		}
 	}
+	sort.Slice(fileIDs, func(i, j int) bool { return fileIDs[i] < fileIDs[j] })
+	for _, fileID := range fileIDs {
+		parser.doc.Files = append(parser.doc.Files, parser.files[fileID])
+	}
 }
 
 func setFileIdentifier(idURI string, file *v2_2.File) (err error) {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index 8c483b7..0347fdc 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -4,6 +4,7 @@ package reader
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -200,11 +201,16 @@ func (parser *rdfParser2_3) getFileTypeFromUri(uri string) (string, error) {
 // associated with a package by the hasFile attribute
 // assumes: all the packages are already parsed.
 func (parser *rdfParser2_3) setUnpackagedFiles() {
+	var fileIDs []common.ElementID
 	for fileID := range parser.files {
 		if !parser.assocWithPackage[fileID] {
-			parser.doc.Files = append(parser.doc.Files, parser.files[fileID])
+			fileIDs = append(fileIDs, fileID)
 		}
 	}
+	sort.Slice(fileIDs, func(i, j int) bool { return fileIDs[i] < fileIDs[j] })
+	for _, fileID := range fileIDs {
+		parser.doc.Files = append(parser.doc.Files, parser.files[fileID])
+	}
 }
 
 func setFileIdentifier(idURI string, file *spdx.File) (err error) {
-- 
2.43.0


From 25c04182abe58dda416091a734d2b15a372da5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 54/65] fix: RDF texts kept the references to characters of
 XML, CDATA marks and broken letters outside of ASCII

---
 rdf/reader.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/rdf/reader.go b/rdf/reader.go
index 8f416d4..ee4ded5 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -6,7 +6,11 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"html"
 	"io"
+	"regexp"
+	"strings"
+	"unicode/utf8"
 
 	"github.com/spdx/gordf/rdfloader"
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
@@ -43,6 +47,8 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		return err
 	}
 
+	decodeNodes(rdfParserObj)
+
 	version, err := getSpdxVersion(rdfParserObj)
 	if err != nil {
 		return err
@@ -65,6 +71,42 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 	return convert.Document(data.(common.AnyDocument), doc)
 }
 
+// decodeNodes gives the nodes of the graph the text that is written in the
+// XML file, which the loader leaves encoded.
+func decodeNodes(parser *gordfParser.Parser) {
+	decoded := map[*gordfParser.Node]bool{}
+	for _, triple := range parser.Triples {
+		for _, node := range []*gordfParser.Node{triple.Subject, triple.Predicate, triple.Object} {
+			if node != nil && !decoded[node] {
+				decoded[node] = true
+				node.ID = decodeText(node.ID)
+			}
+		}
+	}
+}
+
+var reference = regexp.MustCompile(`&(amp|lt|gt|quot|apos|#[0-9]+|#x[0-9A-Fa-f]+);`)
+
+// decodeText resolves the references to characters in a text and its CDATA section,
+// and the bytes of UTF-8, which the loader takes for a character each.
+func decodeText(text string) string {
+	bytes := make([]byte, 0, len(text))
+	for _, r := range text {
+		if r > 0xFF {
+			bytes = nil
+			break
+		}
+		bytes = append(bytes, byte(r))
+	}
+	if utf8.Valid(bytes) && len(bytes) > 0 {
+		text = string(bytes)
+	}
+	if strings.HasPrefix(text, "<![CDATA[") && strings.HasSuffix(text, "]]>") {
+		return text[len("<![CDATA[") : len(text)-len("]]>")]
+	}
+	return reference.ReplaceAllStringFunc(text, html.UnescapeString)
+}
+
 func getSpdxVersion(parser *gordfParser.Parser) (string, error) {
 	version := ""
 	for _, node := range parser.Triples {
-- 
2.43.0


From 8f27163c7cb2f1598e1eb66d3f5adbc57ecda4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 55/65] fix: NONE and NOASSERTION were rejected as download
 locations of RDF packages

---
 spdx/v2/v2_2/rdf/reader/parse_package.go | 4 ++--
 spdx/v2/v2_3/rdf/reader/parse_package.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_package.go b/spdx/v2/v2_2/rdf/reader/parse_package.go
index 4bd1fdb..010e777 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_package.go
@@ -314,9 +314,9 @@ func setPackageOriginator(pkg *v2_2.Package, value string) error {
 // validates the uri and sets the location if it is valid
 func setDocumentLocationFromURI(pkg *v2_2.Package, locationURI string) error {
 	switch locationURI {
-	case SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL:
+	case SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL, "NOASSERTION":
 		pkg.PackageDownloadLocation = "NOASSERTION"
-	case SPDX_NONE_CAPS, SPDX_NONE_SMALL:
+	case SPDX_NONE_CAPS, SPDX_NONE_SMALL, "NONE":
 		pkg.PackageDownloadLocation = "NONE"
 	default:
 		if !isUriValid(locationURI) {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_package.go b/spdx/v2/v2_3/rdf/reader/parse_package.go
index 7c586db..1855fa2 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_package.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_package.go
@@ -345,9 +345,9 @@ func setPackageOriginator(pkg *spdx.Package, value string) error {
 // validates the uri and sets the location if it is valid
 func setDocumentLocationFromURI(pkg *spdx.Package, locationURI string) error {
 	switch locationURI {
-	case SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL:
+	case SPDX_NOASSERTION_CAPS, SPDX_NOASSERTION_SMALL, "NOASSERTION":
 		pkg.PackageDownloadLocation = "NOASSERTION"
-	case SPDX_NONE_CAPS, SPDX_NONE_SMALL:
+	case SPDX_NONE_CAPS, SPDX_NONE_SMALL, "NONE":
 		pkg.PackageDownloadLocation = "NONE"
 	default:
 		if !isUriValid(locationURI) {
-- 
2.43.0


From fcc6ccebc4c34bce84496b82d3b60b6a651f02cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:32 +0000
Subject: [PATCH 56/65] fix: RDF projects that a file is an artifact of lost
 their URI when referred to by name

---
 spdx/v2/v2_2/rdf/reader/parse_file.go | 2 +-
 spdx/v2/v2_3/rdf/reader/parse_file.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_file.go b/spdx/v2/v2_2/rdf/reader/parse_file.go
index aa1b86b..7764d38 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_file.go
@@ -161,7 +161,7 @@ func (parser *rdfParser2_2) setFileChecksumFromNode(file *v2_2.File, checksumNod
 func (parser *rdfParser2_2) getArtifactFromNode(node *gordfParser.Node) (*v2_2.ArtifactOfProject, error) {
 	artifactOf := &v2_2.ArtifactOfProject{}
 	// setting artifactOfProjectURI attribute (which is optional)
-	if node.NodeType == gordfParser.IRI {
+	if node.NodeType == gordfParser.IRI || node.NodeType == gordfParser.RESOURCELITERAL {
 		artifactOf.URI = node.ID
 	}
 	// parsing rest triples and attributes of the artifact.
diff --git a/spdx/v2/v2_3/rdf/reader/parse_file.go b/spdx/v2/v2_3/rdf/reader/parse_file.go
index 0347fdc..b5f3c2c 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_file.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_file.go
@@ -169,7 +169,7 @@ func (parser *rdfParser2_3) setFileChecksumFromNode(file *spdx.File, checksumNod
 func (parser *rdfParser2_3) getArtifactFromNode(node *gordfParser.Node) (*spdx.ArtifactOfProject, error) {
 	artifactOf := &spdx.ArtifactOfProject{}
 	// setting artifactOfProjectURI attribute (which is optional)
-	if node.NodeType == gordfParser.IRI {
+	if node.NodeType == gordfParser.IRI || node.NodeType == gordfParser.RESOURCELITERAL {
 		artifactOf.URI = node.ID
 	}
 	// parsing rest triples and attributes of the artifact.
-- 
2.43.0


From 2212a3d24c695b5fe527df1824246cad2f994340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:54 +0000
Subject: [PATCH 57/65] fix: RDF readers raced, merging blank nodes and losing
 errors, overflowed the stack on deep nesting, and rejected comments and
 attributes with spaces

---
 internal/rdfgraph/load.go  | 362 +++++++++++++++++++++++++++++++++++++
 rdf/reader.go              |  52 +-----
 spdx/v2/v2_2/rdf/reader.go |   4 +-
 spdx/v2/v2_3/rdf/reader.go |   4 +-
 4 files changed, 368 insertions(+), 54 deletions(-)
 create mode 100644 internal/rdfgraph/load.go

diff --git a/internal/rdfgraph/load.go b/internal/rdfgraph/load.go
new file mode 100644
index 0000000..5d13793
--- /dev/null
+++ b/internal/rdfgraph/load.go
@@ -0,0 +1,362 @@
+// SPDX-License-Identifier: Apache-2.0 OR GPL-2.0-or-later
+
+// Package rdfgraph reads the graph of an RDF/XML document for the RDF readers.
+package rdfgraph
+
+import (
+	"bytes"
+	"encoding/xml"
+	"errors"
+	"fmt"
+	"io"
+	"strings"
+	"unicode/utf8"
+
+	gordfParser "github.com/spdx/gordf/rdfloader/parser"
+	"github.com/spdx/gordf/uri"
+)
+
+const (
+	xmlNS = "http://www.w3.org/XML/1998/namespace"
+
+	// maxDepth is how deep elements may be nested, as in the readers of JSON and YAML
+	maxDepth = 10000
+)
+
+// Load reads the statements of an RDF/XML document, in the order in which they stand in it.
+//
+// It takes the place of the loader of gordf, which reads the elements in concurrent goroutines
+// that share the names of blank nodes and the error without waiting for each other, and which
+// knows no comments, references to characters, nor encodings.
+func Load(content io.Reader) (*gordfParser.Parser, error) {
+	text, err := io.ReadAll(content)
+	if err != nil {
+		return nil, err
+	}
+	text = bytes.TrimPrefix(text, []byte("\xef\xbb\xbf")) // a byte order mark
+	l := &loader{
+		text:       text,
+		decoder:    xml.NewDecoder(bytes.NewReader(text)),
+		parser:     gordfParser.New(),
+		statements: map[string]bool{},
+		nodes:      map[string]*gordfParser.Node{},
+		namespaces: map[string]uri.URIRef{},
+	}
+	l.decoder.CharsetReader = l.charset
+
+	var root *xml.StartElement
+	for {
+		token, err := l.decoder.Token()
+		if err == io.EOF && root != nil {
+			return l.parser, nil
+		}
+		if err != nil {
+			return nil, err
+		}
+		switch token := token.(type) {
+		case xml.StartElement:
+			if root != nil {
+				return nil, fmt.Errorf("unexpected element %s after the root element", token.Name.Local)
+			}
+			root = &token
+			if err = l.root(token); err != nil {
+				return nil, err
+			}
+		case xml.CharData:
+			if len(bytes.TrimSpace(token)) > 0 {
+				return nil, errors.New("unexpected text outside of the root element")
+			}
+		}
+	}
+}
+
+type loader struct {
+	text       []byte
+	decoder    *xml.Decoder
+	parser     *gordfParser.Parser
+	statements map[string]bool
+	nodes      map[string]*gordfParser.Node
+	namespaces map[string]uri.URIRef
+	blankNodes int
+	depth      int
+}
+
+// charset decodes the encodings other than UTF-8 that every character of can be told from its byte.
+func (l *loader) charset(name string, input io.Reader) (io.Reader, error) {
+	switch strings.ToLower(name) {
+	case "us-ascii", "ascii", "iso-8859-1", "latin1":
+	default:
+		return nil, fmt.Errorf("unsupported encoding %q", name)
+	}
+	rest, err := io.ReadAll(input)
+	if err != nil {
+		return nil, err
+	}
+	var decoded []byte
+	for _, b := range rest {
+		decoded = utf8.AppendRune(decoded, rune(b))
+	}
+	// what follows is read as the decoder counts it
+	l.text = append(l.text[:len(l.text)-len(rest):len(l.text)-len(rest)], decoded...)
+	return bytes.NewReader(decoded), nil
+}
+
+// root reads the element that wraps the elements of the document.
+func (l *loader) root(start xml.StartElement) error {
+	return l.children(func(child xml.StartElement) error {
+		base := baseOf(child, baseOf(start, ""))
+		node, err := l.node(child, base)
+		if err != nil {
+			return err
+		}
+		return l.nodeElement(node, child, base)
+	})
+}
+
+// children calls f for each element inside of the current one, up to the end of that.
+func (l *loader) children(f func(xml.StartElement) error) error {
+	if l.depth++; l.depth > maxDepth {
+		return fmt.Errorf("elements are nested deeper than %d", maxDepth)
+	}
+	defer func() { l.depth-- }()
+	for {
+		token, err := l.decoder.Token()
+		if err != nil {
+			return err
+		}
+		switch token := token.(type) {
+		case xml.StartElement:
+			if err = f(token); err != nil {
+				return err
+			}
+		case xml.EndElement:
+			return nil
+		case xml.CharData:
+			if text := bytes.TrimSpace(token); len(text) > 0 {
+				return fmt.Errorf("unexpected text %q between elements", text)
+			}
+		}
+	}
+}
+
+// nodeElement reads the element that states the type and the properties of a node.
+func (l *loader) nodeElement(node *gordfParser.Node, start xml.StartElement, base string) error {
+	name, err := l.uri(start.Name)
+	if err != nil {
+		return err
+	}
+	if name != gordfParser.RDFNS+"Description" {
+		l.state(node, gordfParser.RDFNS+"type", &gordfParser.Node{NodeType: gordfParser.IRI, ID: name})
+	}
+	for _, attr := range start.Attr {
+		// properties can be stated in attributes
+		if space := attr.Name.Space; space == "" || space == "xmlns" || space == "xml" || space == xmlNS || isRDF(space) {
+			continue
+		}
+		predicate, err := l.uri(attr.Name)
+		if err != nil {
+			return err
+		}
+		l.state(node, predicate, &gordfParser.Node{NodeType: gordfParser.LITERAL, ID: attr.Value})
+	}
+	return l.children(func(child xml.StartElement) error { return l.property(node, child, baseOf(child, base)) })
+}
+
+// property reads the element that states a property of a node.
+func (l *loader) property(subject *gordfParser.Node, start xml.StartElement, base string) error {
+	predicate, err := l.uri(start.Name)
+	if err != nil {
+		return err
+	}
+	if kind, ok := attribute(start, "parseType"); ok && kind == "Resource" {
+		object := l.blank()
+		l.state(subject, predicate, object)
+		return l.children(func(child xml.StartElement) error { return l.property(object, child, baseOf(child, base)) })
+	}
+	if l.depth++; l.depth > maxDepth {
+		return fmt.Errorf("elements are nested deeper than %d", maxDepth)
+	}
+	defer func() { l.depth-- }()
+	nodes := 0
+	var text strings.Builder
+	for {
+		offset := l.decoder.InputOffset()
+		token, err := l.decoder.Token()
+		if err != nil {
+			return err
+		}
+		switch token := token.(type) {
+		case xml.StartElement:
+			nodes++
+			childBase := baseOf(token, base)
+			object, err := l.node(token, childBase)
+			if err != nil {
+				return err
+			}
+			l.state(subject, predicate, object)
+			if err = l.nodeElement(object, token, childBase); err != nil {
+				return err
+			}
+		case xml.CharData:
+			if text.Len() == 0 {
+				token = token[min(len(token), l.indentation(offset)):]
+			}
+			text.Write(token)
+		case xml.EndElement:
+			if nodes > 0 {
+				if strings.TrimSpace(text.String()) != "" {
+					return fmt.Errorf("unexpected text %q beside an element", strings.TrimSpace(text.String()))
+				}
+				return nil
+			}
+			object := &gordfParser.Node{NodeType: gordfParser.LITERAL, ID: text.String()}
+			if id, ok := attribute(start, "resource"); ok {
+				object = &gordfParser.Node{NodeType: gordfParser.RESOURCELITERAL, ID: id}
+				if predicate == gordfParser.RDFNS+"type" {
+					object.NodeType = gordfParser.IRI
+				}
+				if strings.HasPrefix(id, "#") && base != "" {
+					if object.ID, err = resolve(base, id); err != nil {
+						return err
+					}
+				}
+			} else if id, ok := attribute(start, "nodeID"); ok {
+				object = nodeWithID(id)
+			}
+			l.state(subject, predicate, object)
+			return nil
+		}
+	}
+}
+
+// indentation counts the white space that a text at the offset begins with as written,
+// which is no part of what it says.
+func (l *loader) indentation(offset int64) int {
+	if offset > int64(len(l.text)) {
+		return 0
+	}
+	text, n := l.text[offset:], 0
+	for i, b := range text {
+		switch b {
+		case '\r':
+			if i+1 < len(text) && text[i+1] == '\n' {
+				continue // they are read as one
+			}
+			n++
+		case ' ', '\t', '\n':
+			n++
+		default:
+			return n
+		}
+	}
+	return n
+}
+
+// state adds a statement, unless it has been made before.
+func (l *loader) state(subject *gordfParser.Node, predicate string, object *gordfParser.Node) {
+	triple := &gordfParser.Triple{
+		Subject:   subject,
+		Predicate: &gordfParser.Node{NodeType: gordfParser.IRI, ID: predicate},
+		Object:    object,
+	}
+	if hash := triple.Hash(); !l.statements[hash] {
+		l.statements[hash] = true
+		l.parser.Triples = append(l.parser.Triples, triple)
+	}
+}
+
+// node gives the node that an element is about.
+func (l *loader) node(start xml.StartElement, base string) (*gordfParser.Node, error) {
+	about, ok := attribute(start, "about")
+	if id, isID := attribute(start, "ID"); isID && !ok {
+		about, ok = "#"+id, true
+	}
+	node := &gordfParser.Node{NodeType: gordfParser.IRI, ID: about}
+	if ok && strings.HasPrefix(about, "#") {
+		var err error
+		if node.ID, err = resolve(base, about); err != nil {
+			return nil, err
+		}
+	}
+	if !ok {
+		id, ok := attribute(start, "nodeID")
+		if !ok {
+			return l.blank(), nil
+		}
+		node = nodeWithID(id)
+	}
+	if known := l.nodes[node.String()]; known != nil {
+		return known, nil
+	}
+	l.nodes[node.String()] = node
+	return node, nil
+}
+
+// blank gives a new node without a name.
+func (l *loader) blank() *gordfParser.Node {
+	l.blankNodes++
+	return &gordfParser.Node{NodeType: gordfParser.BLANK, ID: fmt.Sprintf("B%d", l.blankNodes)}
+}
+
+func nodeWithID(id string) *gordfParser.Node {
+	node := (&gordfParser.BlankNodeGetter{}).GetFromId(id)
+	return &node
+}
+
+// uri gives the URI that the name of an element or attribute stands for.
+func (l *loader) uri(name xml.Name) (string, error) {
+	if isRDF(name.Space) {
+		return gordfParser.RDFNS + name.Local, nil
+	}
+	namespace, ok := l.namespaces[name.Space]
+	if !ok {
+		var err error
+		namespace, err = uri.NewURIRef(name.Space)
+		if err != nil {
+			return "", fmt.Errorf("%s has the undefined or invalid namespace %q", name.Local, name.Space)
+		}
+		l.namespaces[name.Space] = namespace
+	}
+	full := namespace.AddFragment(name.Local)
+	return full.String(), nil
+}
+
+// isRDF tells whether a namespace is the one of RDF, whose usual prefix need not be declared.
+func isRDF(space string) bool {
+	return space == "rdf" || strings.TrimSuffix(space, "#")+"#" == gordfParser.RDFNS
+}
+
+// attribute gives the value of the attribute of RDF with a name.
+func attribute(start xml.StartElement, name string) (string, bool) {
+	for _, attr := range start.Attr {
+		if attr.Name.Local == name && (attr.Name.Space == "" || isRDF(attr.Name.Space)) {
+			return attr.Value, true
+		}
+	}
+	return "", false
+}
+
+// baseOf gives the URI that references in an element are relative to.
+func baseOf(start xml.StartElement, base string) string {
+	for _, attr := range start.Attr {
+		if attr.Name.Local == "base" && (attr.Name.Space == "xml" || attr.Name.Space == xmlNS) {
+			return attr.Value
+		}
+	}
+	for _, attr := range start.Attr {
+		if attr.Name.Space == "" && attr.Name.Local == "xmlns" && attr.Value != "" {
+			return attr.Value
+		}
+	}
+	return base
+}
+
+// resolve gives the URI of a reference that begins with #.
+func resolve(base, reference string) (string, error) {
+	namespace, err := uri.NewURIRef(base)
+	if err != nil {
+		return "", fmt.Errorf("%s is relative to nothing: %v", reference, err)
+	}
+	full := namespace.AddFragment(reference)
+	return full.String(), nil
+}
diff --git a/rdf/reader.go b/rdf/reader.go
index ee4ded5..01d107f 100644
--- a/rdf/reader.go
+++ b/rdf/reader.go
@@ -3,18 +3,13 @@
 package rdf
 
 import (
-	"bytes"
 	"errors"
 	"fmt"
-	"html"
 	"io"
-	"regexp"
-	"strings"
-	"unicode/utf8"
 
-	"github.com/spdx/gordf/rdfloader"
 	gordfParser "github.com/spdx/gordf/rdfloader/parser"
 	"github.com/spdx/tools-golang/convert"
+	"github.com/spdx/tools-golang/internal/rdfgraph"
 	"github.com/spdx/tools-golang/spdx"
 	"github.com/spdx/tools-golang/spdx/common"
 	"github.com/spdx/tools-golang/spdx/v2/v2_2"
@@ -37,17 +32,10 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 	if !convert.IsPtr(doc) {
 		return fmt.Errorf("doc to read into must be a pointer")
 	}
-	// the loader takes a failure after the last element for the end
-	buf, err := io.ReadAll(content)
+	rdfParserObj, err := rdfgraph.Load(content)
 	if err != nil {
 		return err
 	}
-	rdfParserObj, err := rdfloader.LoadFromReaderObject(bytes.NewReader(buf))
-	if err != nil {
-		return err
-	}
-
-	decodeNodes(rdfParserObj)
 
 	version, err := getSpdxVersion(rdfParserObj)
 	if err != nil {
@@ -71,42 +59,6 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 	return convert.Document(data.(common.AnyDocument), doc)
 }
 
-// decodeNodes gives the nodes of the graph the text that is written in the
-// XML file, which the loader leaves encoded.
-func decodeNodes(parser *gordfParser.Parser) {
-	decoded := map[*gordfParser.Node]bool{}
-	for _, triple := range parser.Triples {
-		for _, node := range []*gordfParser.Node{triple.Subject, triple.Predicate, triple.Object} {
-			if node != nil && !decoded[node] {
-				decoded[node] = true
-				node.ID = decodeText(node.ID)
-			}
-		}
-	}
-}
-
-var reference = regexp.MustCompile(`&(amp|lt|gt|quot|apos|#[0-9]+|#x[0-9A-Fa-f]+);`)
-
-// decodeText resolves the references to characters in a text and its CDATA section,
-// and the bytes of UTF-8, which the loader takes for a character each.
-func decodeText(text string) string {
-	bytes := make([]byte, 0, len(text))
-	for _, r := range text {
-		if r > 0xFF {
-			bytes = nil
-			break
-		}
-		bytes = append(bytes, byte(r))
-	}
-	if utf8.Valid(bytes) && len(bytes) > 0 {
-		text = string(bytes)
-	}
-	if strings.HasPrefix(text, "<![CDATA[") && strings.HasSuffix(text, "]]>") {
-		return text[len("<![CDATA[") : len(text)-len("]]>")]
-	}
-	return reference.ReplaceAllStringFunc(text, html.UnescapeString)
-}
-
 func getSpdxVersion(parser *gordfParser.Parser) (string, error) {
 	version := ""
 	for _, node := range parser.Triples {
diff --git a/spdx/v2/v2_2/rdf/reader.go b/spdx/v2/v2_2/rdf/reader.go
index 747e5b2..9a6e87b 100644
--- a/spdx/v2/v2_2/rdf/reader.go
+++ b/spdx/v2/v2_2/rdf/reader.go
@@ -3,7 +3,7 @@ package rdf
 import (
 	"io"
 
-	"github.com/spdx/gordf/rdfloader"
+	"github.com/spdx/tools-golang/internal/rdfgraph"
 	"github.com/spdx/tools-golang/spdx/v2/v2_2"
 	"github.com/spdx/tools-golang/spdx/v2/v2_2/rdf/reader"
 )
@@ -11,7 +11,7 @@ import (
 // Takes in a file Reader and returns the pertaining spdx document
 // or the error if any is encountered while setting the doc.
 func Read(content io.Reader) (*v2_2.Document, error) {
-	var rdfParserObj, err = rdfloader.LoadFromReaderObject(content)
+	var rdfParserObj, err = rdfgraph.Load(content)
 	if err != nil {
 		return nil, err
 	}
diff --git a/spdx/v2/v2_3/rdf/reader.go b/spdx/v2/v2_3/rdf/reader.go
index 8bd5e66..8129ea4 100644
--- a/spdx/v2/v2_3/rdf/reader.go
+++ b/spdx/v2/v2_3/rdf/reader.go
@@ -3,7 +3,7 @@ package rdf
 import (
 	"io"
 
-	"github.com/spdx/gordf/rdfloader"
+	"github.com/spdx/tools-golang/internal/rdfgraph"
 	spdx "github.com/spdx/tools-golang/spdx/v2/v2_3"
 	"github.com/spdx/tools-golang/spdx/v2/v2_3/rdf/reader"
 )
@@ -11,7 +11,7 @@ import (
 // Takes in a file Reader and returns the pertaining spdx document
 // or the error if any is encountered while setting the doc.
 func Read(content io.Reader) (*spdx.Document, error) {
-	var rdfParserObj, err = rdfloader.LoadFromReaderObject(content)
+	var rdfParserObj, err = rdfgraph.Load(content)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5ae1db69b9d9c53c3582e4a9134791bab61729a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 58/65] fix: RDF licenses whose sets share members made the
 reader run forever

---
 spdx/v2/v2_2/rdf/reader/parse_license.go | 12 ++++++++++++
 spdx/v2/v2_2/rdf/reader/types.go         |  4 ++++
 spdx/v2/v2_3/rdf/reader/parse_license.go | 12 ++++++++++++
 spdx/v2/v2_3/rdf/reader/types.go         |  4 ++++
 4 files changed, 32 insertions(+)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_license.go b/spdx/v2/v2_2/rdf/reader/parse_license.go
index 75e5732..6721403 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_license.go
@@ -11,6 +11,10 @@ import (
 	"github.com/spdx/gordf/rdfwriter"
 )
 
+// maxLicenses is how many licenses an expression can be made of. Sets that
+// share their members can stand for expressions too large for any memory.
+const maxLicenses = 10000
+
 // AnyLicense is a baseClass for all the licenses
 // All the types of licenses is a sub-type of AnyLicense,
 // either directly or indirectly.
@@ -18,6 +22,14 @@ import (
 // decides which type of license it is and passes control to that type of
 // license parser to parse the given input.
 func (parser *rdfParser2_2) getAnyLicenseFromNode(node *gordfParser.Node) (AnyLicenseInfo, error) {
+	if parser.licenseDepth == 0 {
+		parser.licenseCount = 0
+	}
+	if parser.licenseCount++; parser.licenseCount > maxLicenses {
+		return nil, fmt.Errorf("license is made of more than %d licenses", maxLicenses)
+	}
+	parser.licenseDepth++
+	defer func() { parser.licenseDepth-- }()
 
 	currState := parser.cache[node.ID]
 	if currState == nil {
diff --git a/spdx/v2/v2_2/rdf/reader/types.go b/spdx/v2/v2_2/rdf/reader/types.go
index f8471ff..0c06c63 100644
--- a/spdx/v2/v2_2/rdf/reader/types.go
+++ b/spdx/v2/v2_2/rdf/reader/types.go
@@ -24,6 +24,10 @@ type rdfParser2_2 struct {
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
 
+	// how many licenses are being read within one another, and how many
+	// have been read of the outermost one.
+	licenseDepth, licenseCount int
+
 	// statements about packages and files that are already in the document.
 	processed map[*gordfParser.Triple]bool
 }
diff --git a/spdx/v2/v2_3/rdf/reader/parse_license.go b/spdx/v2/v2_3/rdf/reader/parse_license.go
index 0b07fd2..590a096 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_license.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_license.go
@@ -11,6 +11,10 @@ import (
 	"github.com/spdx/gordf/rdfwriter"
 )
 
+// maxLicenses is how many licenses an expression can be made of. Sets that
+// share their members can stand for expressions too large for any memory.
+const maxLicenses = 10000
+
 // AnyLicense is a baseClass for all the licenses
 // All the types of licenses is a sub-type of AnyLicense,
 // either directly or indirectly.
@@ -18,6 +22,14 @@ import (
 // decides which type of license it is and passes control to that type of
 // license parser to parse the given input.
 func (parser *rdfParser2_3) getAnyLicenseFromNode(node *gordfParser.Node) (AnyLicenseInfo, error) {
+	if parser.licenseDepth == 0 {
+		parser.licenseCount = 0
+	}
+	if parser.licenseCount++; parser.licenseCount > maxLicenses {
+		return nil, fmt.Errorf("license is made of more than %d licenses", maxLicenses)
+	}
+	parser.licenseDepth++
+	defer func() { parser.licenseDepth-- }()
 
 	currState := parser.cache[node.ID]
 	if currState == nil {
diff --git a/spdx/v2/v2_3/rdf/reader/types.go b/spdx/v2/v2_3/rdf/reader/types.go
index 50cd0cd..087e42b 100644
--- a/spdx/v2/v2_3/rdf/reader/types.go
+++ b/spdx/v2/v2_3/rdf/reader/types.go
@@ -24,6 +24,10 @@ type rdfParser2_3 struct {
 	// mapping of nodeStrings to parsed object to save double computation.
 	cache map[string]*nodeState
 
+	// how many licenses are being read within one another, and how many
+	// have been read of the outermost one.
+	licenseDepth, licenseCount int
+
 	// statements about packages and files that are already in the document.
 	processed map[*gordfParser.Triple]bool
 }
-- 
2.43.0


From a268dba51b73fc722e273337ac4b0c5f89b99c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 59/65] fix: RDF: a relationship node shared by elements that
 refer to each other is a relationship of each

---
 spdx/v2/v2_2/rdf/reader/parse_relationship.go | 10 ++++++----
 spdx/v2/v2_3/rdf/reader/parse_relationship.go | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/spdx/v2/v2_2/rdf/reader/parse_relationship.go b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
index 47c2847..172f2f1 100644
--- a/spdx/v2/v2_2/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_2/rdf/reader/parse_relationship.go
@@ -25,11 +25,13 @@ func (parser *rdfParser2_2) parseRelationship(triple *gordfParser.Triple) (err e
 		return err
 	}
 
-	currState := parser.cache[triple.Object.ID]
+	// several elements may share a relationship node, which then is a relationship of each of them.
+	stateID := triple.Subject.ID + " " + triple.Object.ID
+	currState := parser.cache[stateID]
 	if currState == nil {
 		// there is no entry about the state of current package node.
 		// this is the first time we're seeing this node.
-		parser.cache[triple.Object.ID] = &nodeState{
+		parser.cache[stateID] = &nodeState{
 			object: reln,
 			Color:  WHITE,
 		}
@@ -40,10 +42,10 @@ func (parser *rdfParser2_2) parseRelationship(triple *gordfParser.Triple) (err e
 
 	// setting color of the state to grey to indicate that we've started to
 	// parse this node once.
-	parser.cache[triple.Object.ID].Color = GREY
+	parser.cache[stateID].Color = GREY
 
 	// setting state color to black to indicate when we're done parsing this node.
-	defer func() { parser.cache[triple.Object.ID].Color = BLACK }()
+	defer func() { parser.cache[stateID].Color = BLACK }()
 
 	for _, subTriple := range parser.nodeToTriples(triple.Object) {
 		switch subTriple.Predicate.ID {
diff --git a/spdx/v2/v2_3/rdf/reader/parse_relationship.go b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
index f49b8f1..0e35ea9 100644
--- a/spdx/v2/v2_3/rdf/reader/parse_relationship.go
+++ b/spdx/v2/v2_3/rdf/reader/parse_relationship.go
@@ -25,11 +25,13 @@ func (parser *rdfParser2_3) parseRelationship(triple *gordfParser.Triple) (err e
 		return err
 	}
 
-	currState := parser.cache[triple.Object.ID]
+	// several elements may share a relationship node, which then is a relationship of each of them.
+	stateID := triple.Subject.ID + " " + triple.Object.ID
+	currState := parser.cache[stateID]
 	if currState == nil {
 		// there is no entry about the state of current package node.
 		// this is the first time we're seeing this node.
-		parser.cache[triple.Object.ID] = &nodeState{
+		parser.cache[stateID] = &nodeState{
 			object: reln,
 			Color:  WHITE,
 		}
@@ -40,10 +42,10 @@ func (parser *rdfParser2_3) parseRelationship(triple *gordfParser.Triple) (err e
 
 	// setting color of the state to grey to indicate that we've started to
 	// parse this node once.
-	parser.cache[triple.Object.ID].Color = GREY
+	parser.cache[stateID].Color = GREY
 
 	// setting state color to black to indicate when we're done parsing this node.
-	defer func() { parser.cache[triple.Object.ID].Color = BLACK }()
+	defer func() { parser.cache[stateID].Color = BLACK }()
 
 	for _, subTriple := range parser.nodeToTriples(triple.Object) {
 		switch subTriple.Predicate.ID {
-- 
2.43.0


From 75e0ae3c1c7bc48c6d82ad60dd99158c57ed256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:03 +0000
Subject: [PATCH 60/65] fix: conversion keeps list elements, map entries and
 objects that hold nothing

---
 convert/chain.go |  6 +++++-
 convert/empty.go | 50 ++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+), 1 deletion(-)
 create mode 100644 convert/empty.go

diff --git a/convert/chain.go b/convert/chain.go
index 136e4db..0e98523 100644
--- a/convert/chain.go
+++ b/convert/chain.go
@@ -42,5 +42,9 @@ func Document(from common.AnyDocument, to common.AnyDocument) error {
 		reflect.ValueOf(to).Elem().Set(reflect.ValueOf(from))
 		return nil
 	}
-	return DocumentChain().Convert(from, to)
+	if err := DocumentChain().Convert(from, to); err != nil {
+		return err
+	}
+	keepEmpty(reflect.ValueOf(from), reflect.ValueOf(to))
+	return nil
 }
diff --git a/convert/empty.go b/convert/empty.go
new file mode 100644
index 0000000..5de2123
--- /dev/null
+++ b/convert/empty.go
@@ -0,0 +1,50 @@
+// SPDX-License-Identifier: Apache-2.0 OR GPL-2.0-or-later
+
+package convert
+
+import "reflect"
+
+// keepEmpty sets what the conversion left out because it is a pointer to something with no content,
+// such as an element of a list which then would be nil. The values are the same part of the source
+// and of the converted document.
+func keepEmpty(from, to reflect.Value) {
+	if from.Kind() == reflect.Ptr {
+		if from.IsNil() {
+			return
+		}
+		if to.Kind() == reflect.Ptr && to.IsNil() && to.CanSet() && from.Elem().IsZero() {
+			to.Set(reflect.New(to.Type().Elem()))
+		}
+		from = from.Elem()
+	}
+	if to.Kind() == reflect.Ptr {
+		to = to.Elem()
+	}
+	if from.Kind() != to.Kind() {
+		return
+	}
+	switch from.Kind() {
+	case reflect.Struct:
+		for i := 0; i < from.NumField(); i++ {
+			if field := to.FieldByName(from.Type().Field(i).Name); field.IsValid() {
+				keepEmpty(from.Field(i), field)
+			}
+		}
+	case reflect.Slice:
+		if from.Len() == to.Len() {
+			for i := 0; i < from.Len(); i++ {
+				keepEmpty(from.Index(i), to.Index(i))
+			}
+		}
+	case reflect.Map:
+		for _, key := range from.MapKeys() {
+			value, elem := from.MapIndex(key), to.Type().Elem()
+			switch converted := to.MapIndex(key.Convert(to.Type().Key())); {
+			case converted.IsValid():
+				keepEmpty(value, converted)
+			case !to.IsNil() && elem.Kind() == reflect.Ptr && value.Kind() == reflect.Ptr && !value.IsNil() && value.Elem().IsZero():
+				to.SetMapIndex(key.Convert(to.Type().Key()), reflect.New(elem.Elem()))
+			}
+		}
+	}
+}
-- 
2.43.0


From 7da844500c26c3119cd16b5b45c967f649ef154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:07 +0000
Subject: [PATCH 61/65] fix: JSON and YAML readers leave out list elements that
 are null

---
 internal/nulls/nulls.go | 41 +++++++++++++++++++++++++++++++++++++++++
 json/reader.go          |  4 ++++
 yaml/reader.go          |  4 ++++
 3 files changed, 49 insertions(+)
 create mode 100644 internal/nulls/nulls.go

diff --git a/internal/nulls/nulls.go b/internal/nulls/nulls.go
new file mode 100644
index 0000000..10f81fb
--- /dev/null
+++ b/internal/nulls/nulls.go
@@ -0,0 +1,41 @@
+// SPDX-License-Identifier: Apache-2.0 OR GPL-2.0-or-later
+
+// Package nulls removes list elements which are null from a document that has been read.
+package nulls
+
+import "reflect"
+
+// Drop removes the elements which are nil, which is what a null in place of an object is read as,
+// from every list in the document that doc points to.
+func Drop(doc interface{}) {
+	drop(reflect.ValueOf(doc))
+}
+
+func drop(v reflect.Value) {
+	switch v.Kind() {
+	case reflect.Ptr:
+		if !v.IsNil() {
+			drop(v.Elem())
+		}
+	case reflect.Struct:
+		for i := 0; i < v.NumField(); i++ {
+			drop(v.Field(i))
+		}
+	case reflect.Slice:
+		n := 0
+		for i := 0; i < v.Len(); i++ {
+			elem := v.Index(i)
+			if elem.Kind() == reflect.Ptr && elem.IsNil() {
+				continue
+			}
+			drop(elem)
+			if n < i {
+				v.Index(n).Set(elem)
+			}
+			n++
+		}
+		if n < v.Len() {
+			v.Set(v.Slice(0, n))
+		}
+	}
+}
diff --git a/json/reader.go b/json/reader.go
index f1a0b98..b56a660 100644
--- a/json/reader.go
+++ b/json/reader.go
@@ -9,6 +9,7 @@ import (
 	"io"
 
 	"github.com/spdx/tools-golang/convert"
+	"github.com/spdx/tools-golang/internal/nulls"
 	"github.com/spdx/tools-golang/spdx"
 	"github.com/spdx/tools-golang/spdx/common"
 	"github.com/spdx/tools-golang/spdx/v2/v2_1"
@@ -60,6 +61,7 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		if err != nil {
 			return err
 		}
+		nulls.Drop(&doc)
 		data = doc
 	case v2_2.Version:
 		var doc v2_2.Document
@@ -67,6 +69,7 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		if err != nil {
 			return err
 		}
+		nulls.Drop(&doc)
 		data = doc
 	case v2_3.Version:
 		var doc v2_3.Document
@@ -74,6 +77,7 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		if err != nil {
 			return err
 		}
+		nulls.Drop(&doc)
 		data = doc
 	default:
 		return fmt.Errorf("unsupported SDPX version: %s", version)
diff --git a/yaml/reader.go b/yaml/reader.go
index c4b39d4..5924dba 100644
--- a/yaml/reader.go
+++ b/yaml/reader.go
@@ -10,6 +10,7 @@ import (
 	"sigs.k8s.io/yaml"
 
 	"github.com/spdx/tools-golang/convert"
+	"github.com/spdx/tools-golang/internal/nulls"
 	"github.com/spdx/tools-golang/spdx"
 	"github.com/spdx/tools-golang/spdx/common"
 	"github.com/spdx/tools-golang/spdx/v2/v2_1"
@@ -61,6 +62,7 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		if err != nil {
 			return err
 		}
+		nulls.Drop(&doc)
 		data = doc
 	case v2_2.Version:
 		var doc v2_2.Document
@@ -68,6 +70,7 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		if err != nil {
 			return err
 		}
+		nulls.Drop(&doc)
 		data = doc
 	case v2_3.Version:
 		var doc v2_3.Document
@@ -75,6 +78,7 @@ func ReadInto(content io.Reader, doc common.AnyDocument) error {
 		if err != nil {
 			return err
 		}
+		nulls.Drop(&doc)
 		data = doc
 	default:
 		return fmt.Errorf("unsupported SDPX version: %s", version)
-- 
2.43.0


From 71a78874edbee30aadd3a73758293b83a7b1470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:59 +0000
Subject: [PATCH 62/65] fix: external references are marshalled by value as by
 pointer

---
 spdx/v2/v2_2/package.go | 4 ++--
 spdx/v2/v2_3/package.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spdx/v2/v2_2/package.go b/spdx/v2/v2_2/package.go
index a41471e..4b4c300 100644
--- a/spdx/v2/v2_2/package.go
+++ b/spdx/v2/v2_2/package.go
@@ -220,11 +220,11 @@ var _ json.Marshaler = (*PackageExternalReference)(nil)
 
 // We output as the JSON type enums since in v2.2.0 the JSON schema
 // spec only had enums with _ (e.g. PACKAGE_MANAGER)
-func (r *PackageExternalReference) MarshalJSON() ([]byte, error) {
+func (r PackageExternalReference) MarshalJSON() ([]byte, error) {
 	type ref PackageExternalReference
 	var rr ref
 
-	rr = ref(*r)
+	rr = ref(r)
 	rr.Category = strings.ReplaceAll(rr.Category, "-", "_")
 
 	return marshal.JSON(&rr)
diff --git a/spdx/v2/v2_3/package.go b/spdx/v2/v2_3/package.go
index 6488a7e..304a91c 100644
--- a/spdx/v2/v2_3/package.go
+++ b/spdx/v2/v2_3/package.go
@@ -210,11 +210,11 @@ func (r *PackageExternalReference) UnmarshalJSON(b []byte) error {
 
 var _ json.Marshaler = (*PackageExternalReference)(nil)
 
-func (r *PackageExternalReference) MarshalJSON() ([]byte, error) {
+func (r PackageExternalReference) MarshalJSON() ([]byte, error) {
 	type ref PackageExternalReference
 	var rr ref
 
-	rr = ref(*r)
+	rr = ref(r)
 
 	rr.Category = strings.ReplaceAll(rr.Category, "_", "-")
 
-- 
2.43.0


From d83d9cc8ae1d0b3d53a8191a5c91058f15303826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:02 +0000
Subject: [PATCH 63/65] fix: suppliers, originators and element identifiers
 keep nothing of what they held when unmarshalled into

---
 spdx/v2/common/identifier.go | 9 ++++++---
 spdx/v2/common/package.go    | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/spdx/v2/common/identifier.go b/spdx/v2/common/identifier.go
index 2b8e090..e140eea 100644
--- a/spdx/v2/common/identifier.go
+++ b/spdx/v2/common/identifier.go
@@ -153,10 +153,11 @@ func (d *DocElementID) UnmarshalJSON(data []byte) error {
 
 	// handle special cases
 	if idStr == "NONE" || idStr == "NOASSERTION" {
-		d.SpecialID = idStr
+		*d = DocElementID{SpecialID: idStr}
 		return nil
 	}
 
+	var id DocElementID
 	var idFields []string
 	// handle DocumentRef- if present
 	if strings.HasPrefix(idStr, documentRefPrefix) {
@@ -167,10 +168,11 @@ func (d *DocElementID) UnmarshalJSON(data []byte) error {
 		if err != nil {
 			return err
 		}
-		d.DocumentRefID = documentRefID
+		id.DocumentRefID = documentRefID
 		if len(idFields) == 2 {
 			idStr = idFields[1]
 		} else {
+			*d = id
 			return nil
 		}
 	}
@@ -179,7 +181,8 @@ func (d *DocElementID) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return err
 	}
-	d.ElementRefID = elementRefID
+	id.ElementRefID = elementRefID
+	*d = id
 	return nil
 }
 
diff --git a/spdx/v2/common/package.go b/spdx/v2/common/package.go
index c40b921..ce2625d 100644
--- a/spdx/v2/common/package.go
+++ b/spdx/v2/common/package.go
@@ -27,7 +27,7 @@ func (s *Supplier) UnmarshalJSON(data []byte) error {
 	}
 
 	if supplierStr == "NOASSERTION" {
-		s.Supplier = supplierStr
+		*s = Supplier{Supplier: supplierStr}
 		return nil
 	}
 
@@ -72,7 +72,7 @@ func (o *Originator) UnmarshalJSON(data []byte) error {
 	}
 
 	if originatorStr == "NOASSERTION" {
-		o.Originator = originatorStr
+		*o = Originator{Originator: originatorStr}
 		return nil
 	}
 
-- 
2.43.0


From 8e30591e03a1cc9f37efe113e131c52eeb85e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:25 +0000
Subject: [PATCH 64/65] fix: tag-value reader refuses FilesAnalyzed that is
 neither true nor false

---
 spdx/v2/v2_1/tagvalue/reader/parse_package.go | 2 ++
 spdx/v2/v2_2/tagvalue/reader/parse_package.go | 2 ++
 spdx/v2/v2_3/tagvalue/reader/parse_package.go | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/spdx/v2/v2_1/tagvalue/reader/parse_package.go b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
index a47b8db..6835fe2 100644
--- a/spdx/v2/v2_1/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_1/tagvalue/reader/parse_package.go
@@ -98,6 +98,8 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 			parser.pkg.FilesAnalyzed = false
 		} else if value == "true" {
 			parser.pkg.FilesAnalyzed = true
+		} else {
+			return fmt.Errorf("FilesAnalyzed must be true or false, got %s", value)
 		}
 	case "PackageVerificationCode":
 		parser.pkg.PackageVerificationCode = extractCodeAndExcludes(value)
diff --git a/spdx/v2/v2_2/tagvalue/reader/parse_package.go b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
index e3ddf29..3d5b3d8 100644
--- a/spdx/v2/v2_2/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_2/tagvalue/reader/parse_package.go
@@ -102,6 +102,8 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 			parser.pkg.FilesAnalyzed = false
 		} else if value == "true" {
 			parser.pkg.FilesAnalyzed = true
+		} else {
+			return fmt.Errorf("FilesAnalyzed must be true or false, got %s", value)
 		}
 	case "PackageVerificationCode":
 		parser.pkg.PackageVerificationCode = extractCodeAndExcludes(value)
diff --git a/spdx/v2/v2_3/tagvalue/reader/parse_package.go b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
index 1bbddda..ed89cda 100644
--- a/spdx/v2/v2_3/tagvalue/reader/parse_package.go
+++ b/spdx/v2/v2_3/tagvalue/reader/parse_package.go
@@ -102,6 +102,8 @@ func (parser *tvParser) parsePairFromPackage(tag string, value string) error {
 			parser.pkg.FilesAnalyzed = false
 		} else if value == "true" {
 			parser.pkg.FilesAnalyzed = true
+		} else {
+			return fmt.Errorf("FilesAnalyzed must be true or false, got %s", value)
 		}
 	case "PackageVerificationCode":
 		parser.pkg.PackageVerificationCode = extractCodeAndExcludes(value)
-- 
2.43.0


From 5ab6ce761128adbba490b10d7b8eeca8baa25eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:17 +0000
Subject: [PATCH 65/65] fix: convert: keep list elements that state only what
 the target version lacks

---
 convert/empty.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/convert/empty.go b/convert/empty.go
index 5de2123..376049e 100644
--- a/convert/empty.go
+++ b/convert/empty.go
@@ -4,15 +4,15 @@ package convert
 
 import "reflect"
 
-// keepEmpty sets what the conversion left out because it is a pointer to something with no content,
-// such as an element of a list which then would be nil. The values are the same part of the source
+// keepEmpty sets what the conversion left out because it is a pointer to something with no content
+// in the target version, such as an element of a list which then would be nil. The values are the same part of the source
 // and of the converted document.
 func keepEmpty(from, to reflect.Value) {
 	if from.Kind() == reflect.Ptr {
 		if from.IsNil() {
 			return
 		}
-		if to.Kind() == reflect.Ptr && to.IsNil() && to.CanSet() && from.Elem().IsZero() {
+		if to.Kind() == reflect.Ptr && to.IsNil() && to.CanSet() {
 			to.Set(reflect.New(to.Type().Elem()))
 		}
 		from = from.Elem()
@@ -42,7 +42,7 @@ func keepEmpty(from, to reflect.Value) {
 			switch converted := to.MapIndex(key.Convert(to.Type().Key())); {
 			case converted.IsValid():
 				keepEmpty(value, converted)
-			case !to.IsNil() && elem.Kind() == reflect.Ptr && value.Kind() == reflect.Ptr && !value.IsNil() && value.Elem().IsZero():
+			case !to.IsNil() && elem.Kind() == reflect.Ptr && value.Kind() == reflect.Ptr && !value.IsNil():
 				to.SetMapIndex(key.Convert(to.Type().Key()), reflect.New(elem.Elem()))
 			}
 		}
-- 
2.43.0

