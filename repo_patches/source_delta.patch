From 336354b4d622768ee69a1fc15e1f6852100e4742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 01/15] fix: check, lint: report files that cannot be accessed
 instead of crashing

---
 internal/app/check/check.go | 1 +
 internal/app/lint/lint.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/app/check/check.go b/internal/app/check/check.go
index 507c040..8225fbd 100644
--- a/internal/app/check/check.go
+++ b/internal/app/check/check.go
@@ -24,6 +24,7 @@ func (f Check) Run(args []string) error {
 		stat, err := os.Stat(filename)
 		if err != nil {
 			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
 		}
 		if stat.IsDir() {
 			continue
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 37f83f8..744fa5c 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -31,6 +31,7 @@ func (l Lint) Run(args []string) error {
 		stat, err := os.Stat(filename)
 		if err != nil {
 			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
 		}
 		if stat.IsDir() {
 			continue
-- 
2.43.0


From 49d0b84b080410f5c29b5b6d43e5e7eb7b21368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 02/15] fix: print each plugin section with its own comments

---
 ast/ast.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 30ac8cb..e53dcf8 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -146,9 +146,7 @@ func pluginSectionString(pluginType string, ps []PluginSection) string {
 
 	var s bytes.Buffer
 	for i, p := range ps {
-		if len(ps) > 0 {
-			s.WriteString(ps[0].CommentBlock.String())
-		}
+		s.WriteString(p.CommentBlock.String())
 		s.WriteString(fmt.Sprint(pluginType + " {"))
 		s.WriteString(prefix(p.String(), false))
 		s.WriteString(prefix(p.FooterComment.String(), false))
-- 
2.43.0


From 3abb4830a8671ee883aff448c2a622170f9508c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 03/15] fix: keep the blank line after a section comment, so
 that formatting is stable

---
 logstash_config_helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index c60e9f1..74c4f98 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -74,7 +74,7 @@ func (c *current) configSection(ps1, psComment1 interface{}) (ast.PluginSection,
 		return ast.PluginSection{}, fmt.Errorf("Value is not a PluginSection: %#v", ps1)
 	}
 
-	psComments := c.commentBlock(psComment1, false, false)
+	psComments := c.commentBlock(psComment1, false, true)
 
 	ps.CommentBlock = psComments
 
-- 
2.43.0


From 813cdb8a2dc31b2d51dc3df76293b7f91912f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 04/15] fix: lines of blanks before the first comment are no
 space between comments

---
 logstash_config_helper.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 74c4f98..44fc8e6 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -147,10 +147,10 @@ func (c *current) comment() ([]ast.Comment, error) {
 
 	var commentLines []ast.Comment
 	var space bool
-	for i, line := range lines {
+	for _, line := range lines {
 		idx := strings.Index(line, "#")
 		if idx == -1 {
-			if i > 0 {
+			if len(commentLines) > 0 {
 				space = true
 			}
 			continue
-- 
2.43.0


From cd5638c6f6e33740f33f6db0dcf0032c6c69fab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 05/15] fix: reject a plugin as first array element instead of
 dropping it

---
 logstash_config_helper.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 44fc8e6..985b7ef 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -201,7 +201,10 @@ func (c *current) plugin(name1, attributes1, comment1, footerComment1 interface{
 }
 
 func (c *current) attributes(attribute1, attributes1, comment1 interface{}) ([]ast.Attribute, error) {
-	attribute, _ := c.attributeComment(attribute1, comment1, false)
+	attribute, err := c.attributeComment(attribute1, comment1, false)
+	if err != nil {
+		return nil, err
+	}
 	iattributes := toIfaceSlice(attribute)
 	iattributes = append(iattributes, toIfaceSlice(attributes1)...)
 
-- 
2.43.0


From 563e3f722a91528250b3d71342388ce2d04b1fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 06/15] fix: set the position of number, array and hash values

---
 logstash_config_helper.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 985b7ef..35ef95b 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -310,7 +310,9 @@ func (c *current) number() (ast.NumberAttribute, error) {
 		// TODO: is this possible to happen? are all values, which are valid floats in Logstash/Ruby also valid floats in Go?
 		return ast.NumberAttribute{}, err
 	}
-	return ast.NewNumberAttribute("", f), nil
+	na := ast.NewNumberAttribute("", f)
+	na.Start = c.astPos()
+	return na, nil
 }
 
 func (c *current) array(attributes1, footerComment1 interface{}) (ast.ArrayAttribute, error) {
@@ -320,6 +322,7 @@ func (c *current) array(attributes1, footerComment1 interface{}) (ast.ArrayAttri
 	}
 
 	a := ast.NewArrayAttribute("", attributes...)
+	a.Start = c.astPos()
 
 	a.FooterComment = c.commentBlock(footerComment1, false, false)
 
@@ -333,6 +336,7 @@ func (c *current) hash(attributes1, footerComment1 interface{}) (ast.HashAttribu
 	}
 
 	a := ast.NewHashAttribute("", hashentries...)
+	a.Start = c.astPos()
 
 	a.FooterComment = c.commentBlock(footerComment1, false, false)
 
-- 
2.43.0


From bcf4dd892c64f8de90913e670f2df643546f493a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 07/15] fix: print numbers without loss of precision

---
 ast/ast.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index e53dcf8..fdc8875 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 )
 
@@ -481,7 +482,11 @@ func (na NumberAttribute) ValueString() string {
 		if float64(int64(na.Value())+0) == na.Value() {
 			return fmt.Sprintf("%d", int64(na.Value()))
 		}
-		return strings.TrimRight(fmt.Sprintf("%.10f", na.Value()), "0")
+		value = strings.TrimRight(fmt.Sprintf("%.10f", na.Value()), "0")
+		if v, err := strconv.ParseFloat(value, 64); err == nil && v == na.Value() && !strings.HasSuffix(value, ".") {
+			return value
+		}
+		return strconv.FormatFloat(na.Value(), 'f', -1, 64)
 	}
 	return value
 }
-- 
2.43.0


From 65d2437fa5099a0fef87bbe2f26e5350f61a6283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 08/15] fix: keep regular expressions, selectors and quotes in
 them intact when indenting

---
 ast/ast_helper.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ast/ast_helper.go b/ast/ast_helper.go
index 20f165f..dc89b4f 100644
--- a/ast/ast_helper.go
+++ b/ast/ast_helper.go
@@ -10,9 +10,10 @@ import (
 // This regular expression splits the config into indentable chunks that are:
 // * empty line
 // * line of comment
-// * line without any quotes
-// * line(s) with quoted strings, which are kept together to form a single "line of configuration"
-var linesRe = regexp.MustCompile(`(\n|\s*#[^\n]*\n|[^'"\n]*\n|([^"'\n]*("(\\"|[^"])*"|'(\\'|[^'])*')[^"'\n]*)*\n)`)
+// * line(s) of configuration, where quoted strings, regular expressions and
+//   selectors are kept together with all their line breaks. An opening square
+//   bracket at the start of a line or after an arrow starts an array.
+var linesRe = regexp.MustCompile(`(\n| *#[^\n]*\n| *\[?(=> \[|"(\\"|[^"])*"|'(\\'|[^'])*'|/(\\/|[^/])*/|\[[^\]\[,]+\]|[^\n])*\n)`)
 
 func prefix(in string, emptyNewline bool) string {
 	if len(in) == 0 {
-- 
2.43.0


From c87b9d07dcb10e5a4138d8e9cffcdd3106983b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 09/15] fix: Quote, QuoteWithEscape: detect quotes at the start
 of the value and a backslash at its end

---
 ast/astutil/quote.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ast/astutil/quote.go b/ast/astutil/quote.go
index 206482d..087b469 100644
--- a/ast/astutil/quote.go
+++ b/ast/astutil/quote.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"regexp"
+	"strings"
 
 	"github.com/breml/logstash-config/ast"
 )
@@ -19,7 +20,7 @@ func Quote(value string, quoteType ast.StringAttributeType) (string, error) {
 		var hasQuote bool
 		quote := quoteType.String()[0]
 		for i := 0; i < len(value); i++ {
-			if value[i] == quote && i > 1 && value[i-1] != '\\' {
+			if value[i] == quote && (i == 0 || value[i-1] != '\\') {
 				hasQuote = true
 				break
 			}
@@ -28,6 +29,9 @@ func Quote(value string, quoteType ast.StringAttributeType) (string, error) {
 		if hasQuote {
 			return "", errors.New("value %q contains unescaped quotes and can not be quoted without escaping")
 		}
+		if strings.HasSuffix(value, `\`) {
+			return "", errors.New("value %q ends with a backslash, which would escape the closing quote")
+		}
 		return quoteType.String() + value + quoteType.String(), nil
 
 	case ast.Bareword:
@@ -67,7 +71,7 @@ func escapeQuotes(value string, quote byte) string {
 	b := []byte(value)
 
 	for i := 0; i < len(b); i++ {
-		if b[i] == quote && (i == 0 || i > 1 && b[i-1] != '\\') {
+		if b[i] == quote && (i == 0 || b[i-1] != '\\') {
 			b = append(b[:i], append([]byte{'\\'}, b[i:]...)...)
 		}
 	}
-- 
2.43.0


From 50cf55e46dbb191a50cb8d8e6b361f37edc936db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 10/15] fix: Cursor: stay on the current plugin after
 InsertBefore

---
 ast/astutil/apply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/astutil/apply.go b/ast/astutil/apply.go
index 24c9e57..479ed9a 100644
--- a/ast/astutil/apply.go
+++ b/ast/astutil/apply.go
@@ -123,7 +123,7 @@ func (c *Cursor) InsertBefore(p ast.BranchOrPlugin) {
 		panic("InsertBefore plugin not contained in slice")
 	}
 	c.parent = append(c.parent[:i], append([]ast.BranchOrPlugin{p}, c.parent[i:]...)...)
-	c.iter.step++
+	c.iter.index++
 }
 
 // InsertAfter inserts p after the current Plugin in its containing slice.
-- 
2.43.0


From e347464f82d4b61f728085b9368f9d3e81d247a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 11/15] fix: Plugin.ID: find the id, if the name of the
 attribute is quoted

---
 ast/ast.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index fdc8875..af29038 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -301,7 +301,12 @@ func (p Plugin) String() string {
 // the NotFounder interface.
 func (p Plugin) ID() (string, error) {
 	for _, attr := range p.Attributes {
-		if attr != nil && attr.Name() == "id" {
+		if attr == nil {
+			continue
+		}
+		// The name of an attribute may be quoted.
+		switch attr.Name() {
+		case "id", `"id"`, `'id'`:
 			switch stringAttr := attr.(type) {
 			case StringAttribute:
 				return stringAttr.value, nil
-- 
2.43.0


From 1e5f4b6ce7851f08d43a1e901efc39e3584f90fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 12/15] fix: lint: report an id that is no string instead of
 adding a second id

---
 internal/app/lint/lint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 744fa5c..f5d23ec 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -124,7 +124,7 @@ func (v *validator) walk(c *astutil.Cursor) {
 
 	id, err := c.Plugin().ID()
 	if err != nil {
-		if v.autoFixID {
+		if v.autoFixID && ast.IsNotFoundError(err) {
 			v.changed = true
 
 			plugin := c.Plugin()
-- 
2.43.0


From fc1596c5d4e34b214304f69f0a199cc5381d130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 13/15] fix: lint: generate valid and unique ids

---
 internal/app/lint/lint.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index f5d23ec..7fde152 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -55,6 +55,13 @@ func (l Lint) Run(args []string) error {
 		v := validator{
 			autoFixID: l.autoFixID,
 			allIDs:    map[string]struct{}{},
+			usedIDs:   map[string]struct{}{},
+		}
+
+		for _, sections := range [][]ast.PluginSection{conf.Input, conf.Filter, conf.Output} {
+			for i := range sections {
+				astutil.ApplyPlugins(sections[i].BranchOrPlugins, v.collect)
+			}
 		}
 
 		for i := range conf.Input {
@@ -117,6 +124,30 @@ type validator struct {
 	changed      bool
 	duplicateIDs []string
 	allIDs       map[string]struct{}
+	usedIDs      map[string]struct{}
+}
+
+// collect remembers the ID of the plugin as used.
+func (v *validator) collect(c *astutil.Cursor) {
+	id, err := c.Plugin().ID()
+	if err == nil {
+		v.usedIDs[id] = struct{}{}
+	}
+}
+
+// newID returns a new, not yet used ID for a plugin with the given name.
+func (v *validator) newID(name string) string {
+	if len(name) > 1 && (name[0] == '"' || name[0] == '\'') {
+		name = name[1 : len(name)-1]
+	}
+	for n := v.count; ; n++ {
+		id := astutil.QuoteWithEscape(fmt.Sprintf("%s-%d", name, n), ast.DoubleQuoted)
+		id = id[1 : len(id)-1]
+		if _, ok := v.usedIDs[id]; !ok {
+			v.usedIDs[id] = struct{}{}
+			return id
+		}
+	}
 }
 
 func (v *validator) walk(c *astutil.Cursor) {
@@ -128,7 +159,7 @@ func (v *validator) walk(c *astutil.Cursor) {
 			v.changed = true
 
 			plugin := c.Plugin()
-			plugin.Attributes = append(plugin.Attributes, ast.NewStringAttribute("id", fmt.Sprintf("%s-%d", c.Plugin().Name(), v.count), ast.DoubleQuoted))
+			plugin.Attributes = append(plugin.Attributes, ast.NewStringAttribute("id", v.newID(plugin.Name()), ast.DoubleQuoted))
 
 			c.Replace(plugin)
 		} else {
-- 
2.43.0


From 93ad46a81aaa661e90a8edb62f0ed940be4999f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 14/15] fix: keep the farthest failure per parser, parsers may
 run concurrently

---
 logstash_config_helper.go |  2 +-
 parse_error_helper.go     | 38 +++++++++++++++++++++++++++++++++-----
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 35ef95b..9b2b1a0 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -28,7 +28,7 @@ func (c *current) initState() error {
 }
 
 func (c *current) initParser() (bool, error) {
-	farthestFailure = []errPos{}
+	c.setFarthestFailure(nil)
 	return true, nil
 }
 
diff --git a/parse_error_helper.go b/parse_error_helper.go
index ac32c01..012e8ba 100644
--- a/parse_error_helper.go
+++ b/parse_error_helper.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+	"sync"
 )
 
 type errPos struct {
@@ -12,11 +13,37 @@ type errPos struct {
 	pos int
 }
 
-var farthestFailure []errPos
+const farthestFailureKey = "__farthestFailure"
+
+// lastFarthestFailure is the farthest failure of the last parser, that reported
+// one. The slices are never modified after they are published.
+var (
+	lastFarthestFailureMu sync.Mutex
+	lastFarthestFailure   []errPos
+)
+
+// farthestFailure returns the farthest failure of this parser.
+func (c *current) farthestFailure() []errPos {
+	farthestFailure, _ := c.globalStore[farthestFailureKey].([]errPos)
+	return farthestFailure
+}
+
+// setFarthestFailure sets and publishes the farthest failure of this parser.
+func (c *current) setFarthestFailure(farthestFailure []errPos) {
+	c.globalStore[farthestFailureKey] = farthestFailure
+
+	lastFarthestFailureMu.Lock()
+	defer lastFarthestFailureMu.Unlock()
+	lastFarthestFailure = farthestFailure
+}
 
 // GetFarthestFailure returns the farthest position where the parser had a parse error.
 // The farthest position is normally close to the real source for the error.
 func GetFarthestFailure() (string, bool) {
+	lastFarthestFailureMu.Lock()
+	farthestFailure := lastFarthestFailure
+	lastFarthestFailureMu.Unlock()
+
 	if len(farthestFailure) > 0 {
 		var bb bytes.Buffer
 		bb.WriteString(fmt.Sprintf("Parsing error at pos %s and [%d] (after: '%s'):\n", farthestFailure[0].c.pos, farthestFailure[0].pos, showNewline(string(farthestFailure[0].c.text))))
@@ -44,8 +71,9 @@ func pos(c *current) int {
 // The assumption is, that the longest successful parse tree is the most acurate.
 func (c *current) pushError(errorMsg string) (bool, error) {
 	pos := pos(c)
+	farthestFailure := c.farthestFailure()
 	if len(farthestFailure) == 0 || pos > farthestFailure[0].pos {
-		farthestFailure = []errPos{{msg: errorMsg, c: *c, pos: pos}}
+		c.setFarthestFailure([]errPos{{msg: errorMsg, c: *c, pos: pos}})
 	} else {
 		if pos == farthestFailure[0].pos {
 			for _, failure := range farthestFailure {
@@ -53,7 +81,7 @@ func (c *current) pushError(errorMsg string) (bool, error) {
 					return false, nil
 				}
 			}
-			farthestFailure = append(farthestFailure, errPos{msg: errorMsg, c: *c, pos: pos})
+			c.setFarthestFailure(append(farthestFailure, errPos{msg: errorMsg, c: *c, pos: pos}))
 		}
 	}
 	return false, nil
@@ -63,13 +91,13 @@ func (c *current) pushError(errorMsg string) (bool, error) {
 // In most cases this is a missing closing character of a pair, which was opened before.
 // Example: a missing closing square bracket or a missing closing double quote.
 func (c *current) fatalError(errorMsg string) (bool, error) {
-	farthestFailure = []errPos{
+	c.setFarthestFailure([]errPos{
 		{
 			msg: errorMsg,
 			c:   *c,
 			pos: pos(c),
 		},
-	}
+	})
 	var bb bytes.Buffer
 	bb.WriteString(fmt.Sprintf("Parsing error at pos %s and [%d] (after: '%s'):\n", c.pos, pos(c), showNewline(string(c.text))))
 	bb.WriteString(fmt.Sprintf("-> %s\n", errorMsg))
-- 
2.43.0


From 3d01abc8d68b6197ec1fdbb3f8f04f1d80a9f466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 15/15] fix: check, lint, format: no parse failure of another
 file in the report of an unreadable file

---
 internal/app/check/check.go   | 2 +-
 internal/app/format/format.go | 2 +-
 internal/app/lint/lint.go     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/app/check/check.go b/internal/app/check/check.go
index 8225fbd..9e01356 100644
--- a/internal/app/check/check.go
+++ b/internal/app/check/check.go
@@ -32,7 +32,7 @@ func (f Check) Run(args []string) error {
 
 		_, err = config.ParseFile(filename, config.IgnoreComments(true))
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !errors.As(err, new(*os.PathError)) {
 				if !strings.Contains(err.Error(), errMsg) {
 					err = errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index 33ef8f0..a1c1ddd 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -36,7 +36,7 @@ func (f Format) Run(args []string) error {
 
 		c, err := config.ParseFile(filename)
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !errors.As(err, new(*os.PathError)) {
 				if !strings.Contains(err.Error(), errMsg) {
 					return errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 7fde152..08f5a30 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -39,7 +39,7 @@ func (l Lint) Run(args []string) error {
 
 		c, err := config.ParseFile(filename, config.ExceptionalCommentsWarning(true))
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !errors.As(err, new(*os.PathError)) {
 				if !strings.Contains(err.Error(), errMsg) {
 					err = errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
-- 
2.43.0

