From e02d21325fddcc8d2ba36f09bfade9a3dff732b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:13 +0000
Subject: [PATCH 01/15] fix: do not write bytes twice when a body spills to its
 temp file

A write that crosses the memory limit filled the memory buffer with the
head of p, copied the memory buffer to the file and then wrote all of p
again, so the head was stored twice and the file no longer matched the
length. A failure to create or fill the file also left the head of p in
the memory buffer although the write reported 0 bytes.
---
 modsecurity/buffer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 27a982c..6ab3c38 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -44,16 +44,21 @@ func (b *buffer) Write(p []byte) (wn int, err error) {
 	case b.length+int64(len(p)) > b.fileLimit:
 		return 0, ErrOutOfFileLimit
 	case b.fileBuf == nil && b.length+int64(len(p)) > b.memLimit:
-		b.memBuf.Write(p[:b.memLimit-b.length])
-		b.fileBuf, err = ioutil.TempFile(b.dir, "modsecurity-buffer-*.data")
+		file, err := ioutil.TempFile(b.dir, "modsecurity-buffer-*.data")
 		if err != nil {
 			return 0, err
 		}
-		_, err = b.fileBuf.Write(b.memBuf.Bytes())
+		_, err = file.Write(b.memBuf.Bytes())
 		if err != nil {
+			file.Close()
+			os.Remove(file.Name())
 			return 0, err
 		}
+		b.fileBuf = file
+		b.memBuf.Write(p[:b.memLimit-b.length])
 		wn, err = b.fileBuf.Write(p)
+		b.length += int64(wn)
+		return wn, err
 	case b.fileBuf == nil:
 		wn, err = b.memBuf.Write(p)
 	default:
-- 
2.43.0


From cb51114de292758f04914ced40af9c546de3f8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 02/15] fix: rewind the body buffer only before its first read

initRead never set readed, so every Read and Seek started again at the
beginning: reading in a loop returned the same bytes for ever (a multipart
body larger than the reader's chunk, or without its closing boundary, never
reached EOF) and writes after a read were not refused.
---
 modsecurity/buffer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index 6ab3c38..c71bddb 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -88,6 +88,7 @@ func (b *buffer) Len() int64 {
 }
 func (b *buffer) initRead() {
 	if !b.readed {
+		b.readed = true
 		b.memReader = bytes.NewReader(b.memBuf.Bytes())
 		b.fileBuf.Seek(0, 0)
 	}
-- 
2.43.0


From 3cb83b026fa8b650b03d49d417a5877e8aff3dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 03/15] fix: closing a body buffer that is only in memory no
 longer panics

---
 modsecurity/buffer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modsecurity/buffer.go b/modsecurity/buffer.go
index c71bddb..1e48299 100644
--- a/modsecurity/buffer.go
+++ b/modsecurity/buffer.go
@@ -117,6 +117,9 @@ func (b *buffer) Seek(offset int64, whence int) (int64, error) {
 }
 
 func (b *buffer) Close() error {
+	if b.fileBuf == nil {
+		return nil
+	}
 	filename := b.fileBuf.Name()
 	err := b.fileBuf.Close()
 	err2 := os.Remove(filename)
-- 
2.43.0


From 2940eade34113105e7c396bfb9f7b57949b017b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 04/15] fix: a malformed multipart body no longer panics
 ARGS_POST_NAMES

The failed parse cached a nil *multipart.Form inside an interface, which
the next lookup took for a parsed form and dereferenced.
---
 modsecurity/variables/request_body_parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index 80c3986..da7c0bf 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -41,9 +41,11 @@ var parsers = map[int]*bodyParser{
 			form, err := mr.ReadForm(t.Engine.RequestBodyInMem)
 			if err == multipart.ErrMessageTooLarge {
 				t.AbortWithError(http.StatusRequestEntityTooLarge, err)
+			}
+			if err != nil {
 				return nil, err
 			}
-			return form, err
+			return form, nil
 		},
 	},
 }
-- 
2.43.0


From c51ce37bd267d47ab71b5cfb3f8e485f8154a8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:16 +0000
Subject: [PATCH 05/15] fix: the first look at a partly malformed form body
 sees its arguments

url.ParseQuery returns the pairs it could parse along with the error. The
lookup that parsed the body dropped them, later ones found them in the
cache, so a rule was evaded or not depending on which variable came first.
---
 modsecurity/variables/request_body_parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/modsecurity/variables/request_body_parser.go b/modsecurity/variables/request_body_parser.go
index da7c0bf..3434831 100644
--- a/modsecurity/variables/request_body_parser.go
+++ b/modsecurity/variables/request_body_parser.go
@@ -78,7 +78,6 @@ func requestBodyParse(t *modsecurity.Transaction, types ...int) (int, interface{
 			t.VariableCache[cacheKey] = res
 			if err != nil {
 				t.RequestBodyError = err
-				break
 			}
 		}
 		if res != nil {
-- 
2.43.0


From d951133e16d278277f76eb435e2c03b5570ffecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:58 +0000
Subject: [PATCH 06/15] fix: allow never jumps to the current or to an earlier
 phase

"allow" in the logging phase and "allow:request" in the response headers
phase jumped to the phase that was running, so its rules ran again for
ever; "allow:request" in a later phase moved the transaction back and the
response phases ran twice. They now end the current phase.
---
 modsecurity/actions/allow.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modsecurity/actions/allow.go b/modsecurity/actions/allow.go
index 7374b42..1abec9e 100644
--- a/modsecurity/actions/allow.go
+++ b/modsecurity/actions/allow.go
@@ -25,12 +25,12 @@ func (a *ActionAllow) Value() string {
 
 }
 func (a *ActionAllow) Do(t *modsecurity.Transaction) {
-	switch a.arg {
-	case "":
+	switch {
+	case a.arg == "" && t.CurrentPhase() < modsecurity.PhaseLogging:
 		t.JumpToPhase(modsecurity.PhaseLogging)
-	case "phase":
-		t.NextPhase()
-	case "request":
+	case a.arg == "request" && t.CurrentPhase() < modsecurity.PhaseResponseHeaders:
 		t.JumpToPhase(modsecurity.PhaseResponseHeaders)
+	case a.arg == "", a.arg == "phase", a.arg == "request":
+		t.NextPhase()
 	}
 }
-- 
2.43.0


From 7a0b65f42cfe12402e92a90a89b7f0aa8cd1457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:59 +0000
Subject: [PATCH 07/15] fix: run the phase that allow jumps to

allow:phase, allow:request and allow set the current phase to the one that
is to run next, and ProcessPhase took the current phase for one that had
run, so the phase after "allow:phase", the response headers phase after
"allow:request" and the logging phase after "allow" were skipped.
---
 modsecurity/transaction.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 8f9a256..7e1ec35 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -153,7 +153,7 @@ func (t *Transaction) NextPhase() int {
 }
 
 func (t *Transaction) ProcessPhase(phase int) {
-	if t.currentPhase >= phase {
+	if t.currentPhase > phase || (t.currentPhase == phase && t.currentRule != StatusNotStarted) {
 		return
 	}
 	t.JumpToPhase(phase)
@@ -164,8 +164,11 @@ func (t *Transaction) processPhase(phase int) {
 	if t.Abort {
 		return
 	}
-	next := t.Next()
-	for ; t.currentPhase == phase && next != StatusEndOfRules; next = t.Next() {
+	for t.currentPhase == phase {
+		next := t.Next()
+		if next == StatusEndOfRules {
+			break
+		}
 		t.RuleSet.Process(t, phase, next)
 		if t.Intervention().Disruptive {
 			logrus.Debug("skiping this phase, already intercepted")
-- 
2.43.0


From da9cd90199d8b47b1a685ae6409c5802aca18110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:00 +0000
Subject: [PATCH 08/15] fix: SecRuleEngine Off and DetectionOnly are not
 ignored

Off ran every rule and DetectionOnly intercepted. The engine flags are now
consulted: no rule runs when the engine is off, and disruptive actions are
not executed in detection only mode. A new engine is on, as before.
---
 modsecurity/engine.go      | 1 +
 modsecurity/sec_rule.go    | 5 ++++-
 modsecurity/transaction.go | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/modsecurity/engine.go b/modsecurity/engine.go
index 34f47d3..24b0459 100644
--- a/modsecurity/engine.go
+++ b/modsecurity/engine.go
@@ -35,6 +35,7 @@ func NewDefaultLimits() *Limits {
 
 func NewEngine() *Engine {
 	return &Engine{
+		Enabled: true,
 		RuleSet: NewSecRuleSet(),
 		Limits:  NewDefaultLimits(),
 		Config:  NewDefaultConfig(),
diff --git a/modsecurity/sec_rule.go b/modsecurity/sec_rule.go
index e157122..743a0f2 100644
--- a/modsecurity/sec_rule.go
+++ b/modsecurity/sec_rule.go
@@ -106,7 +106,10 @@ func ActionsExecute(t *Transaction, as []Action) {
 	for _, a := range as {
 		actionMap[a.ActionGroup()] = append(actionMap[a.ActionGroup()], a)
 	}
-	for _, actions := range actionMap {
+	for group, actions := range actionMap {
+		if group == ActionGroupDisruptive && t.Engine.DetectionOnly {
+			continue
+		}
 		for _, action := range actions {
 			action.Do(t)
 		}
diff --git a/modsecurity/transaction.go b/modsecurity/transaction.go
index 7e1ec35..d6fab83 100644
--- a/modsecurity/transaction.go
+++ b/modsecurity/transaction.go
@@ -161,7 +161,7 @@ func (t *Transaction) ProcessPhase(phase int) {
 }
 
 func (t *Transaction) processPhase(phase int) {
-	if t.Abort {
+	if t.Abort || !(t.Engine.Enabled || t.Engine.DetectionOnly) {
 		return
 	}
 	for t.currentPhase == phase {
-- 
2.43.0


From e716671a56e267bdc3ceb776106238d1dd049632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:00 +0000
Subject: [PATCH 09/15] fix: a backslash that does not continue the line no
 longer hangs the parser

SkipBlank made no progress on a backslash before anything but '\n', which
includes every continued line of a file with CRLF line endings.
---
 seclang/parser/scanner.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seclang/parser/scanner.go b/seclang/parser/scanner.go
index 7b8f4b2..d373c07 100644
--- a/seclang/parser/scanner.go
+++ b/seclang/parser/scanner.go
@@ -354,11 +354,11 @@ func (s *Scanner) SkipBlank() error {
 		case isBlank(s.current):
 			s.advance()
 		case s.current == '\\':
-			if s.next() == '\n' {
-				s.advance()             //skip '\\'
-				s.incrementLineNumber() // skip newlines
-
+			if !isNewLine(s.next()) {
+				return nil
 			}
+			s.advance()             //skip '\\'
+			s.incrementLineNumber() // skip newlines
 		default:
 			return nil
 
-- 
2.43.0


From c56702c3cf93631f2b7dabe3e93106b284ee81e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:01 +0000
Subject: [PATCH 10/15] fix: ARGS:name|ARGS:/regex/ selects what either of them
 selects

With both a name and a pattern an entry had to satisfy both, so adding a
target to a rule could make it inspect less.
---
 modsecurity/variables/filter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modsecurity/variables/filter.go b/modsecurity/variables/filter.go
index 0fe135c..e96ffe2 100644
--- a/modsecurity/variables/filter.go
+++ b/modsecurity/variables/filter.go
@@ -76,8 +76,8 @@ func (f *filter) Names(vs map[string][]string) []string {
 func (f *filter) FetchWithNames(vs map[string][]string) map[string][]string {
 	var res = make(map[string][]string)
 	for k, v := range vs {
-		if (f.include != nil && !utils.StringInSlice(k, f.include)) ||
-			(f.includeRegex != nil && !utils.StringInRegexSlice(k, f.includeRegex)) {
+		if (f.include != nil || f.includeRegex != nil) &&
+			!utils.StringInSlice(k, f.include) && !utils.StringInRegexSlice(k, f.includeRegex) {
 			continue
 		}
 		if (f.exclude != nil && utils.StringInSlice(k, f.exclude)) ||
-- 
2.43.0


From c1cbfeaa8f94c785025a45fc4867d3b706b97e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:02 +0000
Subject: [PATCH 11/15] fix: REQUEST_HEADERS_NAMES needs the headers, not the
 URL

---
 modsecurity/variables/request_headers_names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/variables/request_headers_names.go b/modsecurity/variables/request_headers_names.go
index b3a2568..7b615d6 100644
--- a/modsecurity/variables/request_headers_names.go
+++ b/modsecurity/variables/request_headers_names.go
@@ -16,7 +16,7 @@ func (*VariableRequestHeadersNames) Name() string {
 	return "REQUEST_HEADERS_NAMES"
 }
 func (v *VariableRequestHeadersNames) Fetch(t *modsecurity.Transaction) []string {
-	if t == nil || t.URL == nil {
+	if t == nil || t.Request.Header == nil {
 		return nil
 	}
 	return v.filter.Names(t.Request.Header)
-- 
2.43.0


From a69b8d8cf99859645cd81253aacc378ecb3810ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 12/15] fix: deny logs the status it sets

---
 modsecurity/actions/deny.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modsecurity/actions/deny.go b/modsecurity/actions/deny.go
index 94f35ce..80d8fb1 100644
--- a/modsecurity/actions/deny.go
+++ b/modsecurity/actions/deny.go
@@ -35,5 +35,5 @@ func (*ActionDeny) Do(t *modsecurity.Transaction) {
 
 	}
 	i.Disruptive = true
-	t.Logf("ModSecurity: Access denied with code 403")
+	t.Logf("ModSecurity: Access denied with code %d", i.Status)
 }
-- 
2.43.0


From 2330d69e379814e1d894121def8de5cdf4387206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 13/15] fix: whitespace and null transforms keep bytes that are
 not UTF-8

strings.Map replaces every byte that is not valid UTF-8 by U+FFFD, so
removeNulls and the others changed binary input they should leave alone.
---
 modsecurity/transforms/compress_whitespace.go |  4 +---
 modsecurity/transforms/map_rune.go            | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/modsecurity/transforms/compress_whitespace.go b/modsecurity/transforms/compress_whitespace.go
index e5ed722..16e05b0 100644
--- a/modsecurity/transforms/compress_whitespace.go
+++ b/modsecurity/transforms/compress_whitespace.go
@@ -1,8 +1,6 @@
 package transforms
 
 import (
-	"strings"
-
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
@@ -18,7 +16,7 @@ func (t *TransCompressWhitespace) Name() string {
 }
 func (t *TransCompressWhitespace) Trans(tr *modsecurity.Transaction, s string) string {
 	var previousIsSpace bool
-	return strings.Map(func(i rune) rune {
+	return mapBytes(func(i rune) rune {
 		if i == ' ' {
 			if previousIsSpace {
 				return -1
diff --git a/modsecurity/transforms/map_rune.go b/modsecurity/transforms/map_rune.go
index 73ea7ca..289c23c 100644
--- a/modsecurity/transforms/map_rune.go
+++ b/modsecurity/transforms/map_rune.go
@@ -1,8 +1,6 @@
 package transforms
 
 import (
-	"strings"
-
 	"github.com/senghoo/modsecurity-go/modsecurity"
 )
 
@@ -45,5 +43,16 @@ func (t *TransMapRune) Name() string {
 	return t.name
 }
 func (t *TransMapRune) Trans(tr *modsecurity.Transaction, s string) string {
-	return strings.Map(t.mapping, s)
+	return mapBytes(t.mapping, s)
+}
+
+// mapBytes is strings.Map for the single bytes of s: bytes that are not valid UTF-8 are kept as they are.
+func mapBytes(mapping func(rune) rune, s string) string {
+	res := make([]byte, 0, len(s))
+	for i := 0; i < len(s); i++ {
+		if c := mapping(rune(s[i])); c >= 0 {
+			res = append(res, byte(c))
+		}
+	}
+	return string(res)
 }
-- 
2.43.0


From 1c9e99c966f3f28bcb99f05aa9865703e9cddf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:04 +0000
Subject: [PATCH 14/15] fix: a SecRule without a phase is not dropped

Its phase stayed 0, which AddRules ignores, so the rule never ran. It now
gets phase 2, the default of SecRule.
---
 seclang/sec_rule.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seclang/sec_rule.go b/seclang/sec_rule.go
index e2a344d..735426e 100644
--- a/seclang/sec_rule.go
+++ b/seclang/sec_rule.go
@@ -59,6 +59,9 @@ func (r *DireRule) FromSecLang(d parser.Directive) (Dire, error) {
 }
 
 func (r *DireRule) Execute(e *modsecurity.Engine) error {
+	if r.rule.Phase == modsecurity.PhaseBegin {
+		r.rule.Phase = parser.PhaseRequestBody // the default of SecRule
+	}
 	e.AddSecRule(r.rule)
 	return nil
 }
-- 
2.43.0


From a8b6d8662d715dae281dfc84923e0421873ba1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 15/15] fix: accept the pass and severity actions

Both are parsed and documented, but every rule that used them was refused.
---
 seclang/actions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/seclang/actions.go b/seclang/actions.go
index 6765170..de5dfab 100644
--- a/seclang/actions.go
+++ b/seclang/actions.go
@@ -22,6 +22,9 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 	parser.TkActionBlock: &actionProcessor{
 		factory: actionWrapper(actions.NewActionBlock),
 	},
+	parser.TkActionPass: &actionProcessor{
+		factory: actionWrapper(actions.NewActionPass),
+	},
 	parser.TkActionStatus: &actionProcessor{
 		factory: actionNumArgWrapper(actions.NewActionStatus),
 	},
@@ -40,6 +43,9 @@ var actionFactorys map[int]*actionProcessor = map[int]*actionProcessor{
 	parser.TkActionVer: &actionProcessor{
 		meta: metaFactory("ver"),
 	},
+	parser.TkActionSeverity: &actionProcessor{
+		meta: metaFactory("severity"),
+	},
 }
 
 func isQuote(c rune) bool { return '\'' == c || '"' == c }
-- 
2.43.0

