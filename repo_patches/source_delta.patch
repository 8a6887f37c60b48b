From 78719c2b947cb40cdfdf9a245016b9aac0835438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:29 +0000
Subject: [PATCH 01/22] fix: Append keeps all of its arguments and never shares
 storage

---
 append.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/append.go b/append.go
index bfe65bf..62306fb 100644
--- a/append.go
+++ b/append.go
@@ -16,9 +16,10 @@ func Append(first Content, rest ...Content) Content {
 		case nil:
 			appended = content
 		case Sequence:
-			return Sequence(append(v, content))
+			// copy rather than append in place; the backing array may be shared
+			appended = append(v[:len(v):len(v)], content)
 		default:
-			return Sequence([]Content{appended, content})
+			appended = Sequence([]Content{appended, content})
 		}
 	}
 
-- 
2.43.0


From 07e0c2731cd7a9d46547b9b66a234b4339abb487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:31 +0000
Subject: [PATCH 02/22] fix: StripAux strips Aux anywhere and accepts absent
 content

---
 aux_.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/aux_.go b/aux_.go
index a480908..a9dd16f 100644
--- a/aux_.go
+++ b/aux_.go
@@ -10,9 +10,19 @@ type Aux struct {
 	Content
 }
 
-// StripAux recurses through Content and removes any Aux content from any
-// nested sequences.
+// StripAux recurses through Content and removes any Aux content. Aux content in
+// a sequence is dropped from it; anywhere else it is replaced by Empty.
+//
+// Nil content, e.g. the optional Content of a Reference, is left as it is.
 func StripAux(content Content) Content {
+	if content == nil {
+		return nil
+	}
+
+	if _, isAux := content.(Aux); isAux {
+		return Empty
+	}
+
 	visitor := &stripAuxVisitor{}
 
 	_ = content.Visit(visitor)
-- 
2.43.0


From 8da757605206a8ffc3efe3d71fdbb442c60c4ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:34 +0000
Subject: [PATCH 03/22] fix: record the location of the call itself, not of a
 call in its arguments

---
 stages/evaluate.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index ac0f986..d0599b1 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -136,8 +136,6 @@ var complainL = new(sync.Mutex)
 //
 // If a booklit.Content is returned, it will be appended to Result.
 func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
-	eval.Section.InvokeLocation = invoke.Location
-
 	methodName := invoke.Method()
 
 	var method reflect.Value
@@ -226,6 +224,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		}
 	}
 
+	// set after evaluating the arguments, as they may contain calls themselves
+	eval.Section.InvokeLocation = invoke.Location
+
 	result := method.Call(argv)
 
 	switch methodType.NumOut() {
-- 
2.43.0


From 8963783c58ab49ccc327b2939106fe57d80491e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 04/22] fix: accept arguments and results which hold no content

---
 stages/evaluate.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stages/evaluate.go b/stages/evaluate.go
index d0599b1..266b1b2 100644
--- a/stages/evaluate.go
+++ b/stages/evaluate.go
@@ -250,7 +250,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 				}
 			}
 		case *booklit.Content:
-			eval.Result = booklit.Append(eval.Result, val.(booklit.Content))
+			if val != nil {
+				eval.Result = booklit.Append(eval.Result, val.(booklit.Content))
+			}
 		default:
 			return fmt.Errorf("unknown return type: %s", valType)
 		}
@@ -278,7 +280,9 @@ func (eval *Evaluate) VisitInvoke(invoke ast.Invoke) error {
 		firstType := methodType.Out(0)
 		switch reflect.New(firstType).Interface().(type) {
 		case *booklit.Content:
-			eval.Result = booklit.Append(eval.Result, first.(booklit.Content))
+			if first != nil {
+				eval.Result = booklit.Append(eval.Result, first.(booklit.Content))
+			}
 		default:
 			return fmt.Errorf("unknown first return type: %s", firstType)
 		}
@@ -328,5 +332,10 @@ func (eval Evaluate) evalArg(node ast.Node) (booklit.Content, error) {
 		return nil, err
 	}
 
+	if subEval.Result == nil {
+		// e.g. a call which performed side effects and returned nothing
+		return booklit.Empty, nil
+	}
+
 	return subEval.Result, nil
 }
-- 
2.43.0


From 06a8e5ac5fd58c355fcef33ee380bdf41c23ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:39 +0000
Subject: [PATCH 05/22] fix: single-page overrules split-sections declared
 before it

---
 baselit/plugin.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/baselit/plugin.go b/baselit/plugin.go
index d78d873..d6314b1 100644
--- a/baselit/plugin.go
+++ b/baselit/plugin.go
@@ -94,6 +94,16 @@ func (plugin Plugin) IncludeSection(path string) error {
 
 func (plugin Plugin) SinglePage() {
 	plugin.section.PreventSplitSections = true
+	unsplit(plugin.section)
+}
+
+// unsplit undoes any \split-sections evaluated before \single-page.
+func unsplit(section *booklit.Section) {
+	section.SplitSections = false
+
+	for _, child := range section.Children {
+		unsplit(child)
+	}
 }
 
 func (plugin Plugin) SplitSections() {
-- 
2.43.0


From 215ed61123b625236984802485ecb63fce8befbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:41 +0000
Subject: [PATCH 06/22] fix: reject a second title after an empty one

---
 baselit/plugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baselit/plugin.go b/baselit/plugin.go
index d6314b1..2d62c87 100644
--- a/baselit/plugin.go
+++ b/baselit/plugin.go
@@ -41,7 +41,7 @@ func (plugin Plugin) Styled(name string) {
 }
 
 func (plugin Plugin) Title(title booklit.Content, tags ...string) error {
-	if plugin.section.Title != booklit.Empty {
+	if plugin.section.Title != booklit.Empty || plugin.section.PrimaryTag.Section != nil {
 		return booklit.TitleTwiceError{
 			TitleLocation: booklit.ErrorLocation{
 				FilePath:     plugin.section.FilePath(),
-- 
2.43.0


From ad14082daeed0147372efa9ab6598932775228ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 07/22] fix: fall back to the standard templates for styles
 without one

---
 render/html.go | 10 ++++++----
 render/text.go | 27 +++++++++++++++++++--------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/render/html.go b/render/html.go
index 8c83a19..ae4cb7f 100644
--- a/render/html.go
+++ b/render/html.go
@@ -208,13 +208,15 @@ func (engine *HTMLEngine) VisitReference(con *booklit.Reference) error {
 // If the section has Style set and a template named (Style).tmpl exists it
 // will be used instead.
 func (engine *HTMLEngine) VisitSection(con *booklit.Section) error {
-	tmpl := "section"
+	engine.data = con
+
 	if con.Style != "" {
-		tmpl = con.Style
+		if err := engine.setTmpl(con.Style); err == nil {
+			return nil
+		}
 	}
 
-	engine.data = con
-	return engine.setTmpl(tmpl)
+	return engine.setTmpl("section")
 }
 
 // VisitSequence renders con using sequence.tmpl.
diff --git a/render/text.go b/render/text.go
index 04a1f0c..d50eeb2 100644
--- a/render/text.go
+++ b/render/text.go
@@ -160,14 +160,23 @@ func (engine *TextEngine) URL(tag booklit.Tag) string {
 // If the section has Style set and a template named (Style)-page.tmpl exists
 // it will be used instead.
 func (engine *TextEngine) RenderSection(out io.Writer, con *booklit.Section) error {
-	tmpl := "page"
+	engine.data = con
+
+	try := []string{}
+
 	if con.Style != "" {
-		tmpl = con.Style + "-page"
+		try = append(try, con.Style+"-page")
 	}
 
-	engine.data = con
+	try = append(try, "page")
 
-	err := engine.setTmpl(tmpl)
+	var err error
+	for _, tmpl := range try {
+		err = engine.setTmpl(tmpl)
+		if err == nil {
+			break
+		}
+	}
 	if err != nil {
 		return err
 	}
@@ -192,13 +201,15 @@ func (engine *TextEngine) VisitReference(con *booklit.Reference) error {
 // If the section has Style set and a template named (Style).tmpl exists it
 // will be used instead.
 func (engine *TextEngine) VisitSection(con *booklit.Section) error {
-	tmpl := "section"
+	engine.data = con
+
 	if con.Style != "" {
-		tmpl = con.Style
+		if err := engine.setTmpl(con.Style); err == nil {
+			return nil
+		}
 	}
 
-	engine.data = con
-	return engine.setTmpl(tmpl)
+	return engine.setTmpl("section")
 }
 
 // VisitSequence renders con using sequence.tmpl.
-- 
2.43.0


From 52fc43cb69ceb4c46ade802fd50af22b14192b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:46 +0000
Subject: [PATCH 08/22] fix: reparse a file whose modification time went
 backwards

---
 load/processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/load/processor.go b/load/processor.go
index 315da94..4d1411e 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -76,7 +76,7 @@ func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, p
 	})
 
 	var node ast.Node
-	if found && !modTime.After(parsed.ModTime) {
+	if found && modTime.Equal(parsed.ModTime) {
 		log.Debug("already parsed section")
 		node = parsed.Node
 	} else {
-- 
2.43.0


From a686e80306fee2a1addc0047f6458f89848e66cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 09/22] fix: reload templates after a failure, a removal or an
 older replacement

---
 render/html.go | 12 +++++++++---
 render/text.go | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/render/html.go b/render/html.go
index ae4cb7f..f958f5c 100644
--- a/render/html.go
+++ b/render/html.go
@@ -112,7 +112,8 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		return err
 	}
 
-	var shouldReload bool
+	modTimes := map[string]time.Time{}
+	shouldReload := len(templates) != len(engine.tmplModTimes)
 	for _, path := range templates {
 		info, err := os.Stat(path)
 		if err != nil {
@@ -122,11 +123,11 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		modTime := info.ModTime()
 
 		lastModTime, found := engine.tmplModTimes[path]
-		if !found || modTime.After(lastModTime) {
+		if !found || !modTime.Equal(lastModTime) {
 			shouldReload = true
 		}
 
-		engine.tmplModTimes[path] = modTime
+		modTimes[path] = modTime
 	}
 
 	if !shouldReload {
@@ -135,6 +136,9 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 
 	engine.resetTmpl()
 
+	// only remember templates which load; until then, they have to be reloaded
+	engine.tmplModTimes = map[string]time.Time{}
+
 	for _, path := range templates {
 		content, err := ioutil.ReadFile(path)
 		if err != nil {
@@ -149,6 +153,8 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 		}
 	}
 
+	engine.tmplModTimes = modTimes
+
 	return nil
 }
 
diff --git a/render/text.go b/render/text.go
index d50eeb2..9cc0fdd 100644
--- a/render/text.go
+++ b/render/text.go
@@ -104,7 +104,8 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		return err
 	}
 
-	var shouldReload bool
+	modTimes := map[string]time.Time{}
+	shouldReload := len(templates) != len(engine.tmplModTimes)
 	for _, path := range templates {
 		info, err := os.Stat(path)
 		if err != nil {
@@ -114,11 +115,11 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		modTime := info.ModTime()
 
 		lastModTime, found := engine.tmplModTimes[path]
-		if !found || modTime.After(lastModTime) {
+		if !found || !modTime.Equal(lastModTime) {
 			shouldReload = true
 		}
 
-		engine.tmplModTimes[path] = modTime
+		modTimes[path] = modTime
 	}
 
 	if !shouldReload {
@@ -127,6 +128,9 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 
 	engine.resetTmpl()
 
+	// only remember templates which load; until then, they have to be reloaded
+	engine.tmplModTimes = map[string]time.Time{}
+
 	for _, path := range templates {
 		content, err := ioutil.ReadFile(path)
 		if err != nil {
@@ -141,6 +145,8 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 		}
 	}
 
+	engine.tmplModTimes = modTimes
+
 	return nil
 }
 
-- 
2.43.0


From 22944e11b71e3289249d8d7d72d05c822f04500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:23 +0000
Subject: [PATCH 10/22] fix: collect tags of partials in a fixed order

---
 stages/collect.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/stages/collect.go b/stages/collect.go
index 05708e2..bee660a 100644
--- a/stages/collect.go
+++ b/stages/collect.go
@@ -1,6 +1,10 @@
 package stages
 
-import "github.com/vito/booklit"
+import (
+	"sort"
+
+	"github.com/vito/booklit"
+)
 
 // Collect is a booklit.Visitor that collects all tag targets and sets them on
 // the section.
@@ -67,11 +71,9 @@ func (collect *Collect) VisitSection(con *booklit.Section) error {
 		return err
 	}
 
-	for _, p := range con.Partials {
-		err = p.Visit(collect)
-		if err != nil {
-			return err
-		}
+	err = collect.visitPartials(con.Partials)
+	if err != nil {
+		return err
 	}
 
 	for _, child := range con.Children {
@@ -100,7 +102,21 @@ func (collect *Collect) VisitStyled(con booklit.Styled) error {
 		return err
 	}
 
-	for _, v := range con.Partials {
+	return collect.visitPartials(con.Partials)
+}
+
+// visitPartials visits each partial, in order of name so that the order of
+// tags does not depend on the iteration order of the map.
+func (collect *Collect) visitPartials(partials booklit.Partials) error {
+	names := []string{}
+	for name := range partials {
+		names = append(names, name)
+	}
+
+	sort.Strings(names)
+
+	for _, name := range names {
+		v := partials[name]
 		if v == nil {
 			continue
 		}
-- 
2.43.0


From 54df78b4d6be94796ee112da8e70bfb312b63eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 11/22] fix: optional references without content do not crash

---
 reference.go   | 10 ++++++++++
 render/html.go |  5 +++++
 render/text.go |  5 +++++
 3 files changed, 20 insertions(+)

diff --git a/reference.go b/reference.go
index b026c3e..e70baa5 100644
--- a/reference.go
+++ b/reference.go
@@ -52,6 +52,11 @@ func (con *Reference) String() string {
 		return fmt.Sprintf("{broken reference: %s: %s}", con.TagName, err)
 	}
 
+	if tag == nil {
+		// optional reference to a nonexistant tag
+		return ""
+	}
+
 	return tag.Title.String()
 }
 
@@ -72,6 +77,11 @@ func (con *Reference) Display() (Content, error) {
 		return nil, err
 	}
 
+	if tag == nil {
+		// optional reference to a nonexistant tag
+		return Empty, nil
+	}
+
 	return tag.Title, nil
 }
 
diff --git a/render/html.go b/render/html.go
index f958f5c..a8f6449 100644
--- a/render/html.go
+++ b/render/html.go
@@ -322,6 +322,11 @@ func (engine *HTMLEngine) render(out io.Writer) error {
 }
 
 func (engine *HTMLEngine) subRender(content booklit.Content) (template.HTML, error) {
+	if content == nil {
+		// e.g. the content of an optional reference without any
+		return "", nil
+	}
+
 	buf := new(bytes.Buffer)
 
 	subEngine := NewHTMLEngine()
diff --git a/render/text.go b/render/text.go
index 9cc0fdd..ca11973 100644
--- a/render/text.go
+++ b/render/text.go
@@ -315,6 +315,11 @@ func (engine *TextEngine) render(out io.Writer) error {
 }
 
 func (engine *TextEngine) subRender(content booklit.Content) (string, error) {
+	if content == nil {
+		// e.g. the content of an optional reference without any
+		return "", nil
+	}
+
 	buf := new(bytes.Buffer)
 
 	subEngine := NewTextEngine(engine.fileExtension)
-- 
2.43.0


From 380e8e3854d7cbeca6210886dc231d176538c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 12/22] fix: find the line of an error in files with long lines

---
 errors.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/errors.go b/errors.go
index 1dd3bb0..b1c1403 100644
--- a/errors.go
+++ b/errors.go
@@ -403,13 +403,13 @@ func (loc ErrorLocation) lineInQuestion() (string, error) {
 	buf := bufio.NewReader(file)
 
 	for i := 0; i < loc.NodeLocation.Line-1; i++ {
-		_, _, err := buf.ReadLine()
+		_, err := readLine(buf)
 		if err != nil {
 			return "", err
 		}
 	}
 
-	lineInQuestion, _, err := buf.ReadLine()
+	lineInQuestion, err := readLine(buf)
 	if err != nil {
 		if err == io.EOF {
 			return "", nil
@@ -418,5 +418,22 @@ func (loc ErrorLocation) lineInQuestion() (string, error) {
 		return "", err
 	}
 
-	return string(lineInQuestion), nil
+	return lineInQuestion, nil
+}
+
+// readLine reads a whole line, however long it is.
+func readLine(buf *bufio.Reader) (string, error) {
+	line := ""
+	for {
+		part, isPrefix, err := buf.ReadLine()
+		if err != nil {
+			return "", err
+		}
+
+		line += string(part)
+
+		if !isPrefix {
+			return line, nil
+		}
+	}
 }
-- 
2.43.0


From 2f2213d0caea2b037a813dd7647235f08ac6a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:30 +0000
Subject: [PATCH 13/22] fix: annotate the right characters of the line in error
 pages

---
 errors.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/errors.go b/errors.go
index b1c1403..ec7a512 100644
--- a/errors.go
+++ b/errors.go
@@ -382,12 +382,23 @@ func (loc ErrorLocation) AnnotatedHTML(out io.Writer) error {
 		data.EOF = true
 	}
 
-	offset := loc.NodeLocation.Col - 1
-	if len(line) >= offset+loc.Length {
-		data.Prefix = line[0:offset]
-		data.Annotated = line[offset : offset+loc.Length]
-		data.Suffix = line[offset+loc.Length:]
+	// columns count characters, and are 0 for a linebreak
+	chars := []rune(line)
+	start := loc.NodeLocation.Col - 1
+	if start < 0 {
+		start = 0
 	}
+	if start > len(chars) {
+		start = len(chars)
+	}
+	end := start + loc.Length
+	if end > len(chars) {
+		end = len(chars)
+	}
+
+	data.Prefix = string(chars[:start])
+	data.Annotated = string(chars[start:end])
+	data.Suffix = string(chars[end:])
 
 	return errorTmpl.Lookup("annotated-line.tmpl").Execute(out, data)
 }
-- 
2.43.0


From c91bea9920b7cb81f2ef0a949168093d7da23fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:24 +0000
Subject: [PATCH 14/22] fix: skip the indentation of each preformatted block on
 its own

---
 ast/booklit.peg    |  21 +-----
 ast/booklit.peg.go | 181 +++++++++++++++++++++------------------------
 ast/indent.go      |  22 ++++++
 3 files changed, 108 insertions(+), 116 deletions(-)
 create mode 100644 ast/indent.go

diff --git a/ast/booklit.peg b/ast/booklit.peg
index dc0c4dc..7cf3be8 100644
--- a/ast/booklit.peg
+++ b/ast/booklit.peg
@@ -87,8 +87,7 @@ PreformattedBlockLine <- indent:Indent words:Word* LineBreak {
 }
 
 PreformattedBlock <- LineBreak lines:PreformattedBlockLine* [ \t]* {
-  delete(c.globalStore, "indent-skip")
-  return Preformatted(ifaceSequences(lines)), nil
+  return Preformatted(skipIndent(ifaceSequences(lines))), nil
 }
 
 VerbatimLine <- words:VerbatimString* {
@@ -102,8 +101,7 @@ VerbatimBlockLine <- indent:Indent words:VerbatimString* LineBreak {
 }
 
 VerbatimBlock <- LineBreak lines:VerbatimBlockLine* [ \t]* {
-  delete(c.globalStore, "indent-skip")
-  return Preformatted(ifaceSequences(lines)), nil
+  return Preformatted(skipIndent(ifaceSequences(lines))), nil
 }
 
 Invoke <- '\\' name:([a-z-]+) args:(Argument*) {
@@ -144,18 +142,5 @@ ParaArg <- paras:Paragraphs [ \t]* {
 Argument <- VerbatimArg / PreformattedArg / Arg
 
 Indent <- [ \t]* {
-  skip := len(c.text)
-
-  i, found := c.globalStore["indent-skip"]
-  if found {
-    skip = i.(int)
-  } else {
-    c.globalStore["indent-skip"] = skip
-  }
-
-  if skip <= len(c.text) {
-    return string(c.text[skip:]), nil
-  } else {
-    return "", nil
-  }
+  return string(c.text), nil
 }
diff --git a/ast/booklit.peg.go b/ast/booklit.peg.go
index d2bd5be..7bcc2ff 100644
--- a/ast/booklit.peg.go
+++ b/ast/booklit.peg.go
@@ -624,17 +624,17 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimLine",
-			pos:  position{line: 94, col: 1, offset: 2079},
+			pos:  position{line: 93, col: 1, offset: 2052},
 			expr: &actionExpr{
-				pos: position{line: 94, col: 17, offset: 2095},
+				pos: position{line: 93, col: 17, offset: 2068},
 				run: (*parser).callonVerbatimLine1,
 				expr: &labeledExpr{
-					pos:   position{line: 94, col: 17, offset: 2095},
+					pos:   position{line: 93, col: 17, offset: 2068},
 					label: "words",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 94, col: 23, offset: 2101},
+						pos: position{line: 93, col: 23, offset: 2074},
 						expr: &ruleRefExpr{
-							pos:  position{line: 94, col: 23, offset: 2101},
+							pos:  position{line: 93, col: 23, offset: 2074},
 							name: "VerbatimString",
 						},
 					},
@@ -643,34 +643,34 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlockLine",
-			pos:  position{line: 98, col: 1, offset: 2164},
+			pos:  position{line: 97, col: 1, offset: 2137},
 			expr: &actionExpr{
-				pos: position{line: 98, col: 22, offset: 2185},
+				pos: position{line: 97, col: 22, offset: 2158},
 				run: (*parser).callonVerbatimBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 98, col: 22, offset: 2185},
+					pos: position{line: 97, col: 22, offset: 2158},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 98, col: 22, offset: 2185},
+							pos:   position{line: 97, col: 22, offset: 2158},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 98, col: 29, offset: 2192},
+								pos:  position{line: 97, col: 29, offset: 2165},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 98, col: 36, offset: 2199},
+							pos:   position{line: 97, col: 36, offset: 2172},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 98, col: 42, offset: 2205},
+								pos: position{line: 97, col: 42, offset: 2178},
 								expr: &ruleRefExpr{
-									pos:  position{line: 98, col: 42, offset: 2205},
+									pos:  position{line: 97, col: 42, offset: 2178},
 									name: "VerbatimString",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 98, col: 58, offset: 2221},
+							pos:  position{line: 97, col: 58, offset: 2194},
 							name: "LineBreak",
 						},
 					},
@@ -679,32 +679,32 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlock",
-			pos:  position{line: 104, col: 1, offset: 2351},
+			pos:  position{line: 103, col: 1, offset: 2324},
 			expr: &actionExpr{
-				pos: position{line: 104, col: 18, offset: 2368},
+				pos: position{line: 103, col: 18, offset: 2341},
 				run: (*parser).callonVerbatimBlock1,
 				expr: &seqExpr{
-					pos: position{line: 104, col: 18, offset: 2368},
+					pos: position{line: 103, col: 18, offset: 2341},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 104, col: 18, offset: 2368},
+							pos:  position{line: 103, col: 18, offset: 2341},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 104, col: 28, offset: 2378},
+							pos:   position{line: 103, col: 28, offset: 2351},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 104, col: 34, offset: 2384},
+								pos: position{line: 103, col: 34, offset: 2357},
 								expr: &ruleRefExpr{
-									pos:  position{line: 104, col: 34, offset: 2384},
+									pos:  position{line: 103, col: 34, offset: 2357},
 									name: "VerbatimBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 104, col: 53, offset: 2403},
+							pos: position{line: 103, col: 53, offset: 2376},
 							expr: &charClassMatcher{
-								pos:        position{line: 104, col: 53, offset: 2403},
+								pos:        position{line: 103, col: 53, offset: 2376},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -717,26 +717,26 @@ var g = &grammar{
 		},
 		{
 			name: "Invoke",
-			pos:  position{line: 109, col: 1, offset: 2504},
+			pos:  position{line: 107, col: 1, offset: 2450},
 			expr: &actionExpr{
-				pos: position{line: 109, col: 11, offset: 2514},
+				pos: position{line: 107, col: 11, offset: 2460},
 				run: (*parser).callonInvoke1,
 				expr: &seqExpr{
-					pos: position{line: 109, col: 11, offset: 2514},
+					pos: position{line: 107, col: 11, offset: 2460},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 109, col: 11, offset: 2514},
+							pos:        position{line: 107, col: 11, offset: 2460},
 							val:        "\\",
 							ignoreCase: false,
 							want:       "\"\\\\\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 109, col: 16, offset: 2519},
+							pos:   position{line: 107, col: 16, offset: 2465},
 							label: "name",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 109, col: 22, offset: 2525},
+								pos: position{line: 107, col: 22, offset: 2471},
 								expr: &charClassMatcher{
-									pos:        position{line: 109, col: 22, offset: 2525},
+									pos:        position{line: 107, col: 22, offset: 2471},
 									val:        "[a-z-]",
 									chars:      []rune{'-'},
 									ranges:     []rune{'a', 'z'},
@@ -746,12 +746,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 109, col: 31, offset: 2534},
+							pos:   position{line: 107, col: 31, offset: 2480},
 							label: "args",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 109, col: 37, offset: 2540},
+								pos: position{line: 107, col: 37, offset: 2486},
 								expr: &ruleRefExpr{
-									pos:  position{line: 109, col: 37, offset: 2540},
+									pos:  position{line: 107, col: 37, offset: 2486},
 									name: "Argument",
 								},
 							},
@@ -762,38 +762,38 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimArg",
-			pos:  position{line: 122, col: 1, offset: 2756},
+			pos:  position{line: 120, col: 1, offset: 2702},
 			expr: &actionExpr{
-				pos: position{line: 122, col: 16, offset: 2771},
+				pos: position{line: 120, col: 16, offset: 2717},
 				run: (*parser).callonVerbatimArg1,
 				expr: &seqExpr{
-					pos: position{line: 122, col: 16, offset: 2771},
+					pos: position{line: 120, col: 16, offset: 2717},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 122, col: 16, offset: 2771},
+							pos:        position{line: 120, col: 16, offset: 2717},
 							val:        "{{{",
 							ignoreCase: false,
 							want:       "\"{{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 122, col: 22, offset: 2777},
+							pos:   position{line: 120, col: 22, offset: 2723},
 							label: "node",
 							expr: &choiceExpr{
-								pos: position{line: 122, col: 28, offset: 2783},
+								pos: position{line: 120, col: 28, offset: 2729},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 122, col: 28, offset: 2783},
+										pos:  position{line: 120, col: 28, offset: 2729},
 										name: "VerbatimBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 122, col: 44, offset: 2799},
+										pos:  position{line: 120, col: 44, offset: 2745},
 										name: "VerbatimLine",
 									},
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 122, col: 58, offset: 2813},
+							pos:        position{line: 120, col: 58, offset: 2759},
 							val:        "}}}",
 							ignoreCase: false,
 							want:       "\"}}}\"",
@@ -804,29 +804,29 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedArg",
-			pos:  position{line: 126, col: 1, offset: 2843},
+			pos:  position{line: 124, col: 1, offset: 2789},
 			expr: &actionExpr{
-				pos: position{line: 126, col: 20, offset: 2862},
+				pos: position{line: 124, col: 20, offset: 2808},
 				run: (*parser).callonPreformattedArg1,
 				expr: &seqExpr{
-					pos: position{line: 126, col: 20, offset: 2862},
+					pos: position{line: 124, col: 20, offset: 2808},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 126, col: 20, offset: 2862},
+							pos:        position{line: 124, col: 20, offset: 2808},
 							val:        "{{",
 							ignoreCase: false,
 							want:       "\"{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 126, col: 25, offset: 2867},
+							pos:   position{line: 124, col: 25, offset: 2813},
 							label: "node",
 							expr: &ruleRefExpr{
-								pos:  position{line: 126, col: 30, offset: 2872},
+								pos:  position{line: 124, col: 30, offset: 2818},
 								name: "PreformattedBlock",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 126, col: 48, offset: 2890},
+							pos:        position{line: 124, col: 48, offset: 2836},
 							val:        "}}",
 							ignoreCase: false,
 							want:       "\"}}\"",
@@ -837,14 +837,14 @@ var g = &grammar{
 		},
 		{
 			name: "EmptyArg",
-			pos:  position{line: 130, col: 1, offset: 2919},
+			pos:  position{line: 128, col: 1, offset: 2865},
 			expr: &actionExpr{
-				pos: position{line: 130, col: 13, offset: 2931},
+				pos: position{line: 128, col: 13, offset: 2877},
 				run: (*parser).callonEmptyArg1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 130, col: 13, offset: 2931},
+					pos: position{line: 128, col: 13, offset: 2877},
 					expr: &ruleRefExpr{
-						pos:  position{line: 130, col: 13, offset: 2931},
+						pos:  position{line: 128, col: 13, offset: 2877},
 						name: "CommentSpacing",
 					},
 				},
@@ -852,37 +852,37 @@ var g = &grammar{
 		},
 		{
 			name: "Arg",
-			pos:  position{line: 132, col: 1, offset: 2968},
+			pos:  position{line: 130, col: 1, offset: 2914},
 			expr: &actionExpr{
-				pos: position{line: 132, col: 8, offset: 2975},
+				pos: position{line: 130, col: 8, offset: 2921},
 				run: (*parser).callonArg1,
 				expr: &seqExpr{
-					pos: position{line: 132, col: 8, offset: 2975},
+					pos: position{line: 130, col: 8, offset: 2921},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 132, col: 8, offset: 2975},
+							pos:        position{line: 130, col: 8, offset: 2921},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 132, col: 12, offset: 2979},
+							pos:   position{line: 130, col: 12, offset: 2925},
 							label: "node",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 132, col: 17, offset: 2984},
+								pos: position{line: 130, col: 17, offset: 2930},
 								expr: &choiceExpr{
-									pos: position{line: 132, col: 18, offset: 2985},
+									pos: position{line: 130, col: 18, offset: 2931},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 18, offset: 2985},
+											pos:  position{line: 130, col: 18, offset: 2931},
 											name: "WrappedLine",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 32, offset: 2999},
+											pos:  position{line: 130, col: 32, offset: 2945},
 											name: "ParaArg",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 132, col: 42, offset: 3009},
+											pos:  position{line: 130, col: 42, offset: 2955},
 											name: "EmptyArg",
 										},
 									},
@@ -890,7 +890,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 132, col: 53, offset: 3020},
+							pos:        position{line: 130, col: 53, offset: 2966},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -901,25 +901,25 @@ var g = &grammar{
 		},
 		{
 			name: "ParaArg",
-			pos:  position{line: 140, col: 1, offset: 3111},
+			pos:  position{line: 138, col: 1, offset: 3057},
 			expr: &actionExpr{
-				pos: position{line: 140, col: 12, offset: 3122},
+				pos: position{line: 138, col: 12, offset: 3068},
 				run: (*parser).callonParaArg1,
 				expr: &seqExpr{
-					pos: position{line: 140, col: 12, offset: 3122},
+					pos: position{line: 138, col: 12, offset: 3068},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 140, col: 12, offset: 3122},
+							pos:   position{line: 138, col: 12, offset: 3068},
 							label: "paras",
 							expr: &ruleRefExpr{
-								pos:  position{line: 140, col: 18, offset: 3128},
+								pos:  position{line: 138, col: 18, offset: 3074},
 								name: "Paragraphs",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 140, col: 29, offset: 3139},
+							pos: position{line: 138, col: 29, offset: 3085},
 							expr: &charClassMatcher{
-								pos:        position{line: 140, col: 29, offset: 3139},
+								pos:        position{line: 138, col: 29, offset: 3085},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -932,20 +932,20 @@ var g = &grammar{
 		},
 		{
 			name: "Argument",
-			pos:  position{line: 144, col: 1, offset: 3171},
+			pos:  position{line: 142, col: 1, offset: 3117},
 			expr: &choiceExpr{
-				pos: position{line: 144, col: 13, offset: 3183},
+				pos: position{line: 142, col: 13, offset: 3129},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 13, offset: 3183},
+						pos:  position{line: 142, col: 13, offset: 3129},
 						name: "VerbatimArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 27, offset: 3197},
+						pos:  position{line: 142, col: 27, offset: 3143},
 						name: "PreformattedArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 144, col: 45, offset: 3215},
+						pos:  position{line: 142, col: 45, offset: 3161},
 						name: "Arg",
 					},
 				},
@@ -953,14 +953,14 @@ var g = &grammar{
 		},
 		{
 			name: "Indent",
-			pos:  position{line: 146, col: 1, offset: 3220},
+			pos:  position{line: 144, col: 1, offset: 3166},
 			expr: &actionExpr{
-				pos: position{line: 146, col: 11, offset: 3230},
+				pos: position{line: 144, col: 11, offset: 3176},
 				run: (*parser).callonIndent1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 146, col: 11, offset: 3230},
+					pos: position{line: 144, col: 11, offset: 3176},
 					expr: &charClassMatcher{
-						pos:        position{line: 146, col: 11, offset: 3230},
+						pos:        position{line: 144, col: 11, offset: 3176},
 						val:        "[ \\t]",
 						chars:      []rune{' ', '\t'},
 						ignoreCase: false,
@@ -1130,8 +1130,7 @@ func (p *parser) callonPreformattedBlockLine1() (interface{}, error) {
 }
 
 func (c *current) onPreformattedBlock1(lines interface{}) (interface{}, error) {
-	delete(c.globalStore, "indent-skip")
-	return Preformatted(ifaceSequences(lines)), nil
+	return Preformatted(skipIndent(ifaceSequences(lines))), nil
 }
 
 func (p *parser) callonPreformattedBlock1() (interface{}, error) {
@@ -1163,8 +1162,7 @@ func (p *parser) callonVerbatimBlockLine1() (interface{}, error) {
 }
 
 func (c *current) onVerbatimBlock1(lines interface{}) (interface{}, error) {
-	delete(c.globalStore, "indent-skip")
-	return Preformatted(ifaceSequences(lines)), nil
+	return Preformatted(skipIndent(ifaceSequences(lines))), nil
 }
 
 func (p *parser) callonVerbatimBlock1() (interface{}, error) {
@@ -1247,20 +1245,7 @@ func (p *parser) callonParaArg1() (interface{}, error) {
 }
 
 func (c *current) onIndent1() (interface{}, error) {
-	skip := len(c.text)
-
-	i, found := c.globalStore["indent-skip"]
-	if found {
-		skip = i.(int)
-	} else {
-		c.globalStore["indent-skip"] = skip
-	}
-
-	if skip <= len(c.text) {
-		return string(c.text[skip:]), nil
-	} else {
-		return "", nil
-	}
+	return string(c.text), nil
 }
 
 func (p *parser) callonIndent1() (interface{}, error) {
diff --git a/ast/indent.go b/ast/indent.go
new file mode 100644
index 0000000..2ea19d2
--- /dev/null
+++ b/ast/indent.go
@@ -0,0 +1,22 @@
+package ast
+
+// skipIndent removes the indentation of the first line from every line of a
+// block. Each line starts with its indentation; a line that is indented less
+// only loses its own.
+func skipIndent(lines []Sequence) []Sequence {
+	if len(lines) == 0 {
+		return lines
+	}
+
+	skip := len(lines[0][0].(String))
+	for _, line := range lines {
+		indent := line[0].(String)
+		if skip <= len(indent) {
+			line[0] = indent[skip:]
+		} else {
+			line[0] = String("")
+		}
+	}
+
+	return lines
+}
-- 
2.43.0


From 0645e42a99814ada12b7febb64bbfb2b8db9e613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:27 +0000
Subject: [PATCH 15/22] fix: treat lines of only whitespace as blank

---
 ast/booklit.peg    |   6 +-
 ast/booklit.peg.go | 468 ++++++++++++++++++++++++---------------------
 2 files changed, 257 insertions(+), 217 deletions(-)

diff --git a/ast/booklit.peg b/ast/booklit.peg
index 7cf3be8..d8e019c 100644
--- a/ast/booklit.peg
+++ b/ast/booklit.peg
@@ -31,7 +31,7 @@
   }
 }
 
-Booklit <- node:Paragraphs !. {
+Booklit <- node:Paragraphs [ \t]* !. {
   return node, nil
 }
 
@@ -41,7 +41,7 @@ Paragraphs <- CommentSpacing* paragraphs:(p:Paragraph CommentSpacing* { return p
 
 LineBreak <- "\n" / "\r\n"
 
-CommentSpacing <- LineBreak / Comment
+CommentSpacing <- [ \t]* LineBreak / Comment
 
 Paragraph <- lines:(l:Line LineBreak? { return l, nil })+ {
   return Paragraph(ifaceSequences(lines)), nil
@@ -125,7 +125,7 @@ PreformattedArg <- "{{" node:PreformattedBlock "}}" {
   return node, nil
 }
 
-EmptyArg <- CommentSpacing* { return nil, nil }
+EmptyArg <- CommentSpacing* [ \t]* { return nil, nil }
 
 Arg <- '{' node:(WrappedLine / ParaArg / EmptyArg)? '}' {
   if node == nil {
diff --git a/ast/booklit.peg.go b/ast/booklit.peg.go
index 7bcc2ff..6202161 100644
--- a/ast/booklit.peg.go
+++ b/ast/booklit.peg.go
@@ -64,10 +64,20 @@ var g = &grammar{
 								name: "Paragraphs",
 							},
 						},
-						&notExpr{
+						&zeroOrMoreExpr{
 							pos: position{line: 34, col: 28, offset: 608},
+							expr: &charClassMatcher{
+								pos:        position{line: 34, col: 28, offset: 608},
+								val:        "[ \\t]",
+								chars:      []rune{' ', '\t'},
+								ignoreCase: false,
+								inverted:   false,
+							},
+						},
+						&notExpr{
+							pos: position{line: 34, col: 35, offset: 615},
 							expr: &anyMatcher{
-								line: 34, col: 29, offset: 609,
+								line: 34, col: 36, offset: 616,
 							},
 						},
 					},
@@ -76,43 +86,43 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraphs",
-			pos:  position{line: 38, col: 1, offset: 635},
+			pos:  position{line: 38, col: 1, offset: 642},
 			expr: &actionExpr{
-				pos: position{line: 38, col: 15, offset: 649},
+				pos: position{line: 38, col: 15, offset: 656},
 				run: (*parser).callonParagraphs1,
 				expr: &seqExpr{
-					pos: position{line: 38, col: 15, offset: 649},
+					pos: position{line: 38, col: 15, offset: 656},
 					exprs: []interface{}{
 						&zeroOrMoreExpr{
-							pos: position{line: 38, col: 15, offset: 649},
+							pos: position{line: 38, col: 15, offset: 656},
 							expr: &ruleRefExpr{
-								pos:  position{line: 38, col: 15, offset: 649},
+								pos:  position{line: 38, col: 15, offset: 656},
 								name: "CommentSpacing",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 38, col: 31, offset: 665},
+							pos:   position{line: 38, col: 31, offset: 672},
 							label: "paragraphs",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 38, col: 42, offset: 676},
+								pos: position{line: 38, col: 42, offset: 683},
 								expr: &actionExpr{
-									pos: position{line: 38, col: 43, offset: 677},
+									pos: position{line: 38, col: 43, offset: 684},
 									run: (*parser).callonParagraphs7,
 									expr: &seqExpr{
-										pos: position{line: 38, col: 43, offset: 677},
+										pos: position{line: 38, col: 43, offset: 684},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 38, col: 43, offset: 677},
+												pos:   position{line: 38, col: 43, offset: 684},
 												label: "p",
 												expr: &ruleRefExpr{
-													pos:  position{line: 38, col: 45, offset: 679},
+													pos:  position{line: 38, col: 45, offset: 686},
 													name: "Paragraph",
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 38, col: 55, offset: 689},
+												pos: position{line: 38, col: 55, offset: 696},
 												expr: &ruleRefExpr{
-													pos:  position{line: 38, col: 55, offset: 689},
+													pos:  position{line: 38, col: 55, offset: 696},
 													name: "CommentSpacing",
 												},
 											},
@@ -127,18 +137,18 @@ var g = &grammar{
 		},
 		{
 			name: "LineBreak",
-			pos:  position{line: 42, col: 1, offset: 777},
+			pos:  position{line: 42, col: 1, offset: 784},
 			expr: &choiceExpr{
-				pos: position{line: 42, col: 14, offset: 790},
+				pos: position{line: 42, col: 14, offset: 797},
 				alternatives: []interface{}{
 					&litMatcher{
-						pos:        position{line: 42, col: 14, offset: 790},
+						pos:        position{line: 42, col: 14, offset: 797},
 						val:        "\n",
 						ignoreCase: false,
 						want:       "\"\\n\"",
 					},
 					&litMatcher{
-						pos:        position{line: 42, col: 21, offset: 797},
+						pos:        position{line: 42, col: 21, offset: 804},
 						val:        "\r\n",
 						ignoreCase: false,
 						want:       "\"\\r\\n\"",
@@ -148,16 +158,31 @@ var g = &grammar{
 		},
 		{
 			name: "CommentSpacing",
-			pos:  position{line: 44, col: 1, offset: 805},
+			pos:  position{line: 44, col: 1, offset: 812},
 			expr: &choiceExpr{
-				pos: position{line: 44, col: 19, offset: 823},
+				pos: position{line: 44, col: 19, offset: 830},
 				alternatives: []interface{}{
-					&ruleRefExpr{
-						pos:  position{line: 44, col: 19, offset: 823},
-						name: "LineBreak",
+					&seqExpr{
+						pos: position{line: 44, col: 19, offset: 830},
+						exprs: []interface{}{
+							&zeroOrMoreExpr{
+								pos: position{line: 44, col: 19, offset: 830},
+								expr: &charClassMatcher{
+									pos:        position{line: 44, col: 19, offset: 830},
+									val:        "[ \\t]",
+									chars:      []rune{' ', '\t'},
+									ignoreCase: false,
+									inverted:   false,
+								},
+							},
+							&ruleRefExpr{
+								pos:  position{line: 44, col: 26, offset: 837},
+								name: "LineBreak",
+							},
+						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 44, col: 31, offset: 835},
+						pos:  position{line: 44, col: 38, offset: 849},
 						name: "Comment",
 					},
 				},
@@ -165,33 +190,33 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 46, col: 1, offset: 844},
+			pos:  position{line: 46, col: 1, offset: 858},
 			expr: &actionExpr{
-				pos: position{line: 46, col: 14, offset: 857},
+				pos: position{line: 46, col: 14, offset: 871},
 				run: (*parser).callonParagraph1,
 				expr: &labeledExpr{
-					pos:   position{line: 46, col: 14, offset: 857},
+					pos:   position{line: 46, col: 14, offset: 871},
 					label: "lines",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 46, col: 20, offset: 863},
+						pos: position{line: 46, col: 20, offset: 877},
 						expr: &actionExpr{
-							pos: position{line: 46, col: 21, offset: 864},
+							pos: position{line: 46, col: 21, offset: 878},
 							run: (*parser).callonParagraph4,
 							expr: &seqExpr{
-								pos: position{line: 46, col: 21, offset: 864},
+								pos: position{line: 46, col: 21, offset: 878},
 								exprs: []interface{}{
 									&labeledExpr{
-										pos:   position{line: 46, col: 21, offset: 864},
+										pos:   position{line: 46, col: 21, offset: 878},
 										label: "l",
 										expr: &ruleRefExpr{
-											pos:  position{line: 46, col: 23, offset: 866},
+											pos:  position{line: 46, col: 23, offset: 880},
 											name: "Line",
 										},
 									},
 									&zeroOrOneExpr{
-										pos: position{line: 46, col: 28, offset: 871},
+										pos: position{line: 46, col: 28, offset: 885},
 										expr: &ruleRefExpr{
-											pos:  position{line: 46, col: 28, offset: 871},
+											pos:  position{line: 46, col: 28, offset: 885},
 											name: "LineBreak",
 										},
 									},
@@ -204,17 +229,17 @@ var g = &grammar{
 		},
 		{
 			name: "Line",
-			pos:  position{line: 50, col: 1, offset: 954},
+			pos:  position{line: 50, col: 1, offset: 968},
 			expr: &actionExpr{
-				pos: position{line: 50, col: 9, offset: 962},
+				pos: position{line: 50, col: 9, offset: 976},
 				run: (*parser).callonLine1,
 				expr: &seqExpr{
-					pos: position{line: 50, col: 9, offset: 962},
+					pos: position{line: 50, col: 9, offset: 976},
 					exprs: []interface{}{
 						&zeroOrMoreExpr{
-							pos: position{line: 50, col: 9, offset: 962},
+							pos: position{line: 50, col: 9, offset: 976},
 							expr: &charClassMatcher{
-								pos:        position{line: 50, col: 9, offset: 962},
+								pos:        position{line: 50, col: 9, offset: 976},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -222,12 +247,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 50, col: 16, offset: 969},
+							pos:   position{line: 50, col: 16, offset: 983},
 							label: "words",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 50, col: 22, offset: 975},
+								pos: position{line: 50, col: 22, offset: 989},
 								expr: &ruleRefExpr{
-									pos:  position{line: 50, col: 23, offset: 976},
+									pos:  position{line: 50, col: 23, offset: 990},
 									name: "Word",
 								},
 							},
@@ -238,45 +263,45 @@ var g = &grammar{
 		},
 		{
 			name: "Word",
-			pos:  position{line: 54, col: 1, offset: 1030},
+			pos:  position{line: 54, col: 1, offset: 1044},
 			expr: &actionExpr{
-				pos: position{line: 54, col: 9, offset: 1038},
+				pos: position{line: 54, col: 9, offset: 1052},
 				run: (*parser).callonWord1,
 				expr: &seqExpr{
-					pos: position{line: 54, col: 9, offset: 1038},
+					pos: position{line: 54, col: 9, offset: 1052},
 					exprs: []interface{}{
 						&zeroOrOneExpr{
-							pos: position{line: 54, col: 9, offset: 1038},
+							pos: position{line: 54, col: 9, offset: 1052},
 							expr: &ruleRefExpr{
-								pos:  position{line: 54, col: 9, offset: 1038},
+								pos:  position{line: 54, col: 9, offset: 1052},
 								name: "Comment",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 54, col: 18, offset: 1047},
+							pos:   position{line: 54, col: 18, offset: 1061},
 							label: "val",
 							expr: &choiceExpr{
-								pos: position{line: 54, col: 23, offset: 1052},
+								pos: position{line: 54, col: 23, offset: 1066},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 54, col: 23, offset: 1052},
+										pos:  position{line: 54, col: 23, offset: 1066},
 										name: "String",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 54, col: 32, offset: 1061},
+										pos:  position{line: 54, col: 32, offset: 1075},
 										name: "Invoke",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 54, col: 41, offset: 1070},
+										pos:  position{line: 54, col: 41, offset: 1084},
 										name: "Interpolated",
 									},
 								},
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 54, col: 55, offset: 1084},
+							pos: position{line: 54, col: 55, offset: 1098},
 							expr: &ruleRefExpr{
-								pos:  position{line: 54, col: 55, offset: 1084},
+								pos:  position{line: 54, col: 55, offset: 1098},
 								name: "Comment",
 							},
 						},
@@ -286,14 +311,14 @@ var g = &grammar{
 		},
 		{
 			name: "Comment",
-			pos:  position{line: 58, col: 1, offset: 1116},
+			pos:  position{line: 58, col: 1, offset: 1130},
 			expr: &seqExpr{
-				pos: position{line: 58, col: 12, offset: 1127},
+				pos: position{line: 58, col: 12, offset: 1141},
 				exprs: []interface{}{
 					&zeroOrMoreExpr{
-						pos: position{line: 58, col: 12, offset: 1127},
+						pos: position{line: 58, col: 12, offset: 1141},
 						expr: &charClassMatcher{
-							pos:        position{line: 58, col: 12, offset: 1127},
+							pos:        position{line: 58, col: 12, offset: 1141},
 							val:        "[ \\t]",
 							chars:      []rune{' ', '\t'},
 							ignoreCase: false,
@@ -301,34 +326,34 @@ var g = &grammar{
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 58, col: 19, offset: 1134},
+						pos:        position{line: 58, col: 19, offset: 1148},
 						val:        "{-",
 						ignoreCase: false,
 						want:       "\"{-\"",
 					},
 					&zeroOrMoreExpr{
-						pos: position{line: 58, col: 24, offset: 1139},
+						pos: position{line: 58, col: 24, offset: 1153},
 						expr: &choiceExpr{
-							pos: position{line: 58, col: 25, offset: 1140},
+							pos: position{line: 58, col: 25, offset: 1154},
 							alternatives: []interface{}{
 								&ruleRefExpr{
-									pos:  position{line: 58, col: 25, offset: 1140},
+									pos:  position{line: 58, col: 25, offset: 1154},
 									name: "Comment",
 								},
 								&seqExpr{
-									pos: position{line: 58, col: 35, offset: 1150},
+									pos: position{line: 58, col: 35, offset: 1164},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 58, col: 35, offset: 1150},
+											pos: position{line: 58, col: 35, offset: 1164},
 											expr: &litMatcher{
-												pos:        position{line: 58, col: 36, offset: 1151},
+												pos:        position{line: 58, col: 36, offset: 1165},
 												val:        "-}",
 												ignoreCase: false,
 												want:       "\"-}\"",
 											},
 										},
 										&anyMatcher{
-											line: 58, col: 41, offset: 1156,
+											line: 58, col: 41, offset: 1170,
 										},
 									},
 								},
@@ -336,7 +361,7 @@ var g = &grammar{
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 58, col: 45, offset: 1160},
+						pos:        position{line: 58, col: 45, offset: 1174},
 						val:        "-}",
 						ignoreCase: false,
 						want:       "\"-}\"",
@@ -346,32 +371,32 @@ var g = &grammar{
 		},
 		{
 			name: "Interpolated",
-			pos:  position{line: 60, col: 1, offset: 1166},
+			pos:  position{line: 60, col: 1, offset: 1180},
 			expr: &actionExpr{
-				pos: position{line: 60, col: 17, offset: 1182},
+				pos: position{line: 60, col: 17, offset: 1196},
 				run: (*parser).callonInterpolated1,
 				expr: &seqExpr{
-					pos: position{line: 60, col: 17, offset: 1182},
+					pos: position{line: 60, col: 17, offset: 1196},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 60, col: 17, offset: 1182},
+							pos:        position{line: 60, col: 17, offset: 1196},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 60, col: 21, offset: 1186},
+							pos:   position{line: 60, col: 21, offset: 1200},
 							label: "word",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 60, col: 26, offset: 1191},
+								pos: position{line: 60, col: 26, offset: 1205},
 								expr: &ruleRefExpr{
-									pos:  position{line: 60, col: 26, offset: 1191},
+									pos:  position{line: 60, col: 26, offset: 1205},
 									name: "Word",
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 60, col: 32, offset: 1197},
+							pos:        position{line: 60, col: 32, offset: 1211},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -382,35 +407,35 @@ var g = &grammar{
 		},
 		{
 			name: "WrappedLine",
-			pos:  position{line: 68, col: 1, offset: 1288},
+			pos:  position{line: 68, col: 1, offset: 1302},
 			expr: &actionExpr{
-				pos: position{line: 68, col: 16, offset: 1303},
+				pos: position{line: 68, col: 16, offset: 1317},
 				run: (*parser).callonWrappedLine1,
 				expr: &seqExpr{
-					pos: position{line: 68, col: 16, offset: 1303},
+					pos: position{line: 68, col: 16, offset: 1317},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 68, col: 16, offset: 1303},
+							pos:   position{line: 68, col: 16, offset: 1317},
 							label: "firstWord",
 							expr: &ruleRefExpr{
-								pos:  position{line: 68, col: 26, offset: 1313},
+								pos:  position{line: 68, col: 26, offset: 1327},
 								name: "Word",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 68, col: 31, offset: 1318},
+							pos:   position{line: 68, col: 31, offset: 1332},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 68, col: 37, offset: 1324},
+								pos: position{line: 68, col: 37, offset: 1338},
 								expr: &choiceExpr{
-									pos: position{line: 68, col: 38, offset: 1325},
+									pos: position{line: 68, col: 38, offset: 1339},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 68, col: 38, offset: 1325},
+											pos:  position{line: 68, col: 38, offset: 1339},
 											name: "Word",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 68, col: 45, offset: 1332},
+											pos:  position{line: 68, col: 45, offset: 1346},
 											name: "Split",
 										},
 									},
@@ -423,21 +448,21 @@ var g = &grammar{
 		},
 		{
 			name: "Split",
-			pos:  position{line: 73, col: 1, offset: 1463},
+			pos:  position{line: 73, col: 1, offset: 1477},
 			expr: &actionExpr{
-				pos: position{line: 73, col: 10, offset: 1472},
+				pos: position{line: 73, col: 10, offset: 1486},
 				run: (*parser).callonSplit1,
 				expr: &seqExpr{
-					pos: position{line: 73, col: 10, offset: 1472},
+					pos: position{line: 73, col: 10, offset: 1486},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 73, col: 10, offset: 1472},
+							pos:  position{line: 73, col: 10, offset: 1486},
 							name: "LineBreak",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 73, col: 20, offset: 1482},
+							pos: position{line: 73, col: 20, offset: 1496},
 							expr: &charClassMatcher{
-								pos:        position{line: 73, col: 20, offset: 1482},
+								pos:        position{line: 73, col: 20, offset: 1496},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -450,20 +475,20 @@ var g = &grammar{
 		},
 		{
 			name: "String",
-			pos:  position{line: 75, col: 1, offset: 1518},
+			pos:  position{line: 75, col: 1, offset: 1532},
 			expr: &choiceExpr{
-				pos: position{line: 75, col: 11, offset: 1528},
+				pos: position{line: 75, col: 11, offset: 1542},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 75, col: 11, offset: 1528},
+						pos: position{line: 75, col: 11, offset: 1542},
 						run: (*parser).callonString2,
 						expr: &labeledExpr{
-							pos:   position{line: 75, col: 11, offset: 1528},
+							pos:   position{line: 75, col: 11, offset: 1542},
 							label: "str",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 75, col: 15, offset: 1532},
+								pos: position{line: 75, col: 15, offset: 1546},
 								expr: &charClassMatcher{
-									pos:        position{line: 75, col: 15, offset: 1532},
+									pos:        position{line: 75, col: 15, offset: 1546},
 									val:        "[^\\\\{}\\r\\n]",
 									chars:      []rune{'\\', '{', '}', '\r', '\n'},
 									ignoreCase: false,
@@ -473,19 +498,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 75, col: 61, offset: 1578},
+						pos: position{line: 75, col: 61, offset: 1592},
 						run: (*parser).callonString6,
 						expr: &seqExpr{
-							pos: position{line: 75, col: 61, offset: 1578},
+							pos: position{line: 75, col: 61, offset: 1592},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 75, col: 61, offset: 1578},
+									pos:        position{line: 75, col: 61, offset: 1592},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&charClassMatcher{
-									pos:        position{line: 75, col: 66, offset: 1583},
+									pos:        position{line: 75, col: 66, offset: 1597},
 									val:        "[\\\\{}]",
 									chars:      []rune{'\\', '{', '}'},
 									ignoreCase: false,
@@ -499,20 +524,20 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimString",
-			pos:  position{line: 77, col: 1, offset: 1626},
+			pos:  position{line: 77, col: 1, offset: 1640},
 			expr: &choiceExpr{
-				pos: position{line: 77, col: 19, offset: 1644},
+				pos: position{line: 77, col: 19, offset: 1658},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 77, col: 19, offset: 1644},
+						pos: position{line: 77, col: 19, offset: 1658},
 						run: (*parser).callonVerbatimString2,
 						expr: &labeledExpr{
-							pos:   position{line: 77, col: 19, offset: 1644},
+							pos:   position{line: 77, col: 19, offset: 1658},
 							label: "str",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 77, col: 23, offset: 1648},
+								pos: position{line: 77, col: 23, offset: 1662},
 								expr: &charClassMatcher{
-									pos:        position{line: 77, col: 23, offset: 1648},
+									pos:        position{line: 77, col: 23, offset: 1662},
 									val:        "[^\\r\\n}]",
 									chars:      []rune{'\r', '\n', '}'},
 									ignoreCase: false,
@@ -522,21 +547,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 79, col: 5, offset: 1693},
+						pos: position{line: 79, col: 5, offset: 1707},
 						run: (*parser).callonVerbatimString6,
 						expr: &seqExpr{
-							pos: position{line: 79, col: 5, offset: 1693},
+							pos: position{line: 79, col: 5, offset: 1707},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 79, col: 5, offset: 1693},
+									pos:        position{line: 79, col: 5, offset: 1707},
 									val:        "}",
 									ignoreCase: false,
 									want:       "\"}\"",
 								},
 								&notExpr{
-									pos: position{line: 79, col: 9, offset: 1697},
+									pos: position{line: 79, col: 9, offset: 1711},
 									expr: &litMatcher{
-										pos:        position{line: 79, col: 10, offset: 1698},
+										pos:        position{line: 79, col: 10, offset: 1712},
 										val:        "}}",
 										ignoreCase: false,
 										want:       "\"}}\"",
@@ -550,34 +575,34 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlockLine",
-			pos:  position{line: 83, col: 1, offset: 1737},
+			pos:  position{line: 83, col: 1, offset: 1751},
 			expr: &actionExpr{
-				pos: position{line: 83, col: 26, offset: 1762},
+				pos: position{line: 83, col: 26, offset: 1776},
 				run: (*parser).callonPreformattedBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 83, col: 26, offset: 1762},
+					pos: position{line: 83, col: 26, offset: 1776},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 83, col: 26, offset: 1762},
+							pos:   position{line: 83, col: 26, offset: 1776},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 83, col: 33, offset: 1769},
+								pos:  position{line: 83, col: 33, offset: 1783},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 83, col: 40, offset: 1776},
+							pos:   position{line: 83, col: 40, offset: 1790},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 83, col: 46, offset: 1782},
+								pos: position{line: 83, col: 46, offset: 1796},
 								expr: &ruleRefExpr{
-									pos:  position{line: 83, col: 46, offset: 1782},
+									pos:  position{line: 83, col: 46, offset: 1796},
 									name: "Word",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 83, col: 52, offset: 1788},
+							pos:  position{line: 83, col: 52, offset: 1802},
 							name: "LineBreak",
 						},
 					},
@@ -586,32 +611,32 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedBlock",
-			pos:  position{line: 89, col: 1, offset: 1918},
+			pos:  position{line: 89, col: 1, offset: 1932},
 			expr: &actionExpr{
-				pos: position{line: 89, col: 22, offset: 1939},
+				pos: position{line: 89, col: 22, offset: 1953},
 				run: (*parser).callonPreformattedBlock1,
 				expr: &seqExpr{
-					pos: position{line: 89, col: 22, offset: 1939},
+					pos: position{line: 89, col: 22, offset: 1953},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 89, col: 22, offset: 1939},
+							pos:  position{line: 89, col: 22, offset: 1953},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 89, col: 32, offset: 1949},
+							pos:   position{line: 89, col: 32, offset: 1963},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 89, col: 38, offset: 1955},
+								pos: position{line: 89, col: 38, offset: 1969},
 								expr: &ruleRefExpr{
-									pos:  position{line: 89, col: 38, offset: 1955},
+									pos:  position{line: 89, col: 38, offset: 1969},
 									name: "PreformattedBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 89, col: 61, offset: 1978},
+							pos: position{line: 89, col: 61, offset: 1992},
 							expr: &charClassMatcher{
-								pos:        position{line: 89, col: 61, offset: 1978},
+								pos:        position{line: 89, col: 61, offset: 1992},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -624,17 +649,17 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimLine",
-			pos:  position{line: 93, col: 1, offset: 2052},
+			pos:  position{line: 93, col: 1, offset: 2066},
 			expr: &actionExpr{
-				pos: position{line: 93, col: 17, offset: 2068},
+				pos: position{line: 93, col: 17, offset: 2082},
 				run: (*parser).callonVerbatimLine1,
 				expr: &labeledExpr{
-					pos:   position{line: 93, col: 17, offset: 2068},
+					pos:   position{line: 93, col: 17, offset: 2082},
 					label: "words",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 93, col: 23, offset: 2074},
+						pos: position{line: 93, col: 23, offset: 2088},
 						expr: &ruleRefExpr{
-							pos:  position{line: 93, col: 23, offset: 2074},
+							pos:  position{line: 93, col: 23, offset: 2088},
 							name: "VerbatimString",
 						},
 					},
@@ -643,34 +668,34 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlockLine",
-			pos:  position{line: 97, col: 1, offset: 2137},
+			pos:  position{line: 97, col: 1, offset: 2151},
 			expr: &actionExpr{
-				pos: position{line: 97, col: 22, offset: 2158},
+				pos: position{line: 97, col: 22, offset: 2172},
 				run: (*parser).callonVerbatimBlockLine1,
 				expr: &seqExpr{
-					pos: position{line: 97, col: 22, offset: 2158},
+					pos: position{line: 97, col: 22, offset: 2172},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 97, col: 22, offset: 2158},
+							pos:   position{line: 97, col: 22, offset: 2172},
 							label: "indent",
 							expr: &ruleRefExpr{
-								pos:  position{line: 97, col: 29, offset: 2165},
+								pos:  position{line: 97, col: 29, offset: 2179},
 								name: "Indent",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 97, col: 36, offset: 2172},
+							pos:   position{line: 97, col: 36, offset: 2186},
 							label: "words",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 97, col: 42, offset: 2178},
+								pos: position{line: 97, col: 42, offset: 2192},
 								expr: &ruleRefExpr{
-									pos:  position{line: 97, col: 42, offset: 2178},
+									pos:  position{line: 97, col: 42, offset: 2192},
 									name: "VerbatimString",
 								},
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 97, col: 58, offset: 2194},
+							pos:  position{line: 97, col: 58, offset: 2208},
 							name: "LineBreak",
 						},
 					},
@@ -679,32 +704,32 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimBlock",
-			pos:  position{line: 103, col: 1, offset: 2324},
+			pos:  position{line: 103, col: 1, offset: 2338},
 			expr: &actionExpr{
-				pos: position{line: 103, col: 18, offset: 2341},
+				pos: position{line: 103, col: 18, offset: 2355},
 				run: (*parser).callonVerbatimBlock1,
 				expr: &seqExpr{
-					pos: position{line: 103, col: 18, offset: 2341},
+					pos: position{line: 103, col: 18, offset: 2355},
 					exprs: []interface{}{
 						&ruleRefExpr{
-							pos:  position{line: 103, col: 18, offset: 2341},
+							pos:  position{line: 103, col: 18, offset: 2355},
 							name: "LineBreak",
 						},
 						&labeledExpr{
-							pos:   position{line: 103, col: 28, offset: 2351},
+							pos:   position{line: 103, col: 28, offset: 2365},
 							label: "lines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 103, col: 34, offset: 2357},
+								pos: position{line: 103, col: 34, offset: 2371},
 								expr: &ruleRefExpr{
-									pos:  position{line: 103, col: 34, offset: 2357},
+									pos:  position{line: 103, col: 34, offset: 2371},
 									name: "VerbatimBlockLine",
 								},
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 103, col: 53, offset: 2376},
+							pos: position{line: 103, col: 53, offset: 2390},
 							expr: &charClassMatcher{
-								pos:        position{line: 103, col: 53, offset: 2376},
+								pos:        position{line: 103, col: 53, offset: 2390},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -717,26 +742,26 @@ var g = &grammar{
 		},
 		{
 			name: "Invoke",
-			pos:  position{line: 107, col: 1, offset: 2450},
+			pos:  position{line: 107, col: 1, offset: 2464},
 			expr: &actionExpr{
-				pos: position{line: 107, col: 11, offset: 2460},
+				pos: position{line: 107, col: 11, offset: 2474},
 				run: (*parser).callonInvoke1,
 				expr: &seqExpr{
-					pos: position{line: 107, col: 11, offset: 2460},
+					pos: position{line: 107, col: 11, offset: 2474},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 107, col: 11, offset: 2460},
+							pos:        position{line: 107, col: 11, offset: 2474},
 							val:        "\\",
 							ignoreCase: false,
 							want:       "\"\\\\\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 107, col: 16, offset: 2465},
+							pos:   position{line: 107, col: 16, offset: 2479},
 							label: "name",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 107, col: 22, offset: 2471},
+								pos: position{line: 107, col: 22, offset: 2485},
 								expr: &charClassMatcher{
-									pos:        position{line: 107, col: 22, offset: 2471},
+									pos:        position{line: 107, col: 22, offset: 2485},
 									val:        "[a-z-]",
 									chars:      []rune{'-'},
 									ranges:     []rune{'a', 'z'},
@@ -746,12 +771,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 107, col: 31, offset: 2480},
+							pos:   position{line: 107, col: 31, offset: 2494},
 							label: "args",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 107, col: 37, offset: 2486},
+								pos: position{line: 107, col: 37, offset: 2500},
 								expr: &ruleRefExpr{
-									pos:  position{line: 107, col: 37, offset: 2486},
+									pos:  position{line: 107, col: 37, offset: 2500},
 									name: "Argument",
 								},
 							},
@@ -762,38 +787,38 @@ var g = &grammar{
 		},
 		{
 			name: "VerbatimArg",
-			pos:  position{line: 120, col: 1, offset: 2702},
+			pos:  position{line: 120, col: 1, offset: 2716},
 			expr: &actionExpr{
-				pos: position{line: 120, col: 16, offset: 2717},
+				pos: position{line: 120, col: 16, offset: 2731},
 				run: (*parser).callonVerbatimArg1,
 				expr: &seqExpr{
-					pos: position{line: 120, col: 16, offset: 2717},
+					pos: position{line: 120, col: 16, offset: 2731},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 120, col: 16, offset: 2717},
+							pos:        position{line: 120, col: 16, offset: 2731},
 							val:        "{{{",
 							ignoreCase: false,
 							want:       "\"{{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 120, col: 22, offset: 2723},
+							pos:   position{line: 120, col: 22, offset: 2737},
 							label: "node",
 							expr: &choiceExpr{
-								pos: position{line: 120, col: 28, offset: 2729},
+								pos: position{line: 120, col: 28, offset: 2743},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 120, col: 28, offset: 2729},
+										pos:  position{line: 120, col: 28, offset: 2743},
 										name: "VerbatimBlock",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 120, col: 44, offset: 2745},
+										pos:  position{line: 120, col: 44, offset: 2759},
 										name: "VerbatimLine",
 									},
 								},
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 120, col: 58, offset: 2759},
+							pos:        position{line: 120, col: 58, offset: 2773},
 							val:        "}}}",
 							ignoreCase: false,
 							want:       "\"}}}\"",
@@ -804,29 +829,29 @@ var g = &grammar{
 		},
 		{
 			name: "PreformattedArg",
-			pos:  position{line: 124, col: 1, offset: 2789},
+			pos:  position{line: 124, col: 1, offset: 2803},
 			expr: &actionExpr{
-				pos: position{line: 124, col: 20, offset: 2808},
+				pos: position{line: 124, col: 20, offset: 2822},
 				run: (*parser).callonPreformattedArg1,
 				expr: &seqExpr{
-					pos: position{line: 124, col: 20, offset: 2808},
+					pos: position{line: 124, col: 20, offset: 2822},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 124, col: 20, offset: 2808},
+							pos:        position{line: 124, col: 20, offset: 2822},
 							val:        "{{",
 							ignoreCase: false,
 							want:       "\"{{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 124, col: 25, offset: 2813},
+							pos:   position{line: 124, col: 25, offset: 2827},
 							label: "node",
 							expr: &ruleRefExpr{
-								pos:  position{line: 124, col: 30, offset: 2818},
+								pos:  position{line: 124, col: 30, offset: 2832},
 								name: "PreformattedBlock",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 124, col: 48, offset: 2836},
+							pos:        position{line: 124, col: 48, offset: 2850},
 							val:        "}}",
 							ignoreCase: false,
 							want:       "\"}}\"",
@@ -837,52 +862,67 @@ var g = &grammar{
 		},
 		{
 			name: "EmptyArg",
-			pos:  position{line: 128, col: 1, offset: 2865},
+			pos:  position{line: 128, col: 1, offset: 2879},
 			expr: &actionExpr{
-				pos: position{line: 128, col: 13, offset: 2877},
+				pos: position{line: 128, col: 13, offset: 2891},
 				run: (*parser).callonEmptyArg1,
-				expr: &zeroOrMoreExpr{
-					pos: position{line: 128, col: 13, offset: 2877},
-					expr: &ruleRefExpr{
-						pos:  position{line: 128, col: 13, offset: 2877},
-						name: "CommentSpacing",
+				expr: &seqExpr{
+					pos: position{line: 128, col: 13, offset: 2891},
+					exprs: []interface{}{
+						&zeroOrMoreExpr{
+							pos: position{line: 128, col: 13, offset: 2891},
+							expr: &ruleRefExpr{
+								pos:  position{line: 128, col: 13, offset: 2891},
+								name: "CommentSpacing",
+							},
+						},
+						&zeroOrMoreExpr{
+							pos: position{line: 128, col: 29, offset: 2907},
+							expr: &charClassMatcher{
+								pos:        position{line: 128, col: 29, offset: 2907},
+								val:        "[ \\t]",
+								chars:      []rune{' ', '\t'},
+								ignoreCase: false,
+								inverted:   false,
+							},
+						},
 					},
 				},
 			},
 		},
 		{
 			name: "Arg",
-			pos:  position{line: 130, col: 1, offset: 2914},
+			pos:  position{line: 130, col: 1, offset: 2935},
 			expr: &actionExpr{
-				pos: position{line: 130, col: 8, offset: 2921},
+				pos: position{line: 130, col: 8, offset: 2942},
 				run: (*parser).callonArg1,
 				expr: &seqExpr{
-					pos: position{line: 130, col: 8, offset: 2921},
+					pos: position{line: 130, col: 8, offset: 2942},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 130, col: 8, offset: 2921},
+							pos:        position{line: 130, col: 8, offset: 2942},
 							val:        "{",
 							ignoreCase: false,
 							want:       "\"{\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 130, col: 12, offset: 2925},
+							pos:   position{line: 130, col: 12, offset: 2946},
 							label: "node",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 130, col: 17, offset: 2930},
+								pos: position{line: 130, col: 17, offset: 2951},
 								expr: &choiceExpr{
-									pos: position{line: 130, col: 18, offset: 2931},
+									pos: position{line: 130, col: 18, offset: 2952},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 130, col: 18, offset: 2931},
+											pos:  position{line: 130, col: 18, offset: 2952},
 											name: "WrappedLine",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 130, col: 32, offset: 2945},
+											pos:  position{line: 130, col: 32, offset: 2966},
 											name: "ParaArg",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 130, col: 42, offset: 2955},
+											pos:  position{line: 130, col: 42, offset: 2976},
 											name: "EmptyArg",
 										},
 									},
@@ -890,7 +930,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 130, col: 53, offset: 2966},
+							pos:        position{line: 130, col: 53, offset: 2987},
 							val:        "}",
 							ignoreCase: false,
 							want:       "\"}\"",
@@ -901,25 +941,25 @@ var g = &grammar{
 		},
 		{
 			name: "ParaArg",
-			pos:  position{line: 138, col: 1, offset: 3057},
+			pos:  position{line: 138, col: 1, offset: 3078},
 			expr: &actionExpr{
-				pos: position{line: 138, col: 12, offset: 3068},
+				pos: position{line: 138, col: 12, offset: 3089},
 				run: (*parser).callonParaArg1,
 				expr: &seqExpr{
-					pos: position{line: 138, col: 12, offset: 3068},
+					pos: position{line: 138, col: 12, offset: 3089},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 138, col: 12, offset: 3068},
+							pos:   position{line: 138, col: 12, offset: 3089},
 							label: "paras",
 							expr: &ruleRefExpr{
-								pos:  position{line: 138, col: 18, offset: 3074},
+								pos:  position{line: 138, col: 18, offset: 3095},
 								name: "Paragraphs",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 138, col: 29, offset: 3085},
+							pos: position{line: 138, col: 29, offset: 3106},
 							expr: &charClassMatcher{
-								pos:        position{line: 138, col: 29, offset: 3085},
+								pos:        position{line: 138, col: 29, offset: 3106},
 								val:        "[ \\t]",
 								chars:      []rune{' ', '\t'},
 								ignoreCase: false,
@@ -932,20 +972,20 @@ var g = &grammar{
 		},
 		{
 			name: "Argument",
-			pos:  position{line: 142, col: 1, offset: 3117},
+			pos:  position{line: 142, col: 1, offset: 3138},
 			expr: &choiceExpr{
-				pos: position{line: 142, col: 13, offset: 3129},
+				pos: position{line: 142, col: 13, offset: 3150},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 142, col: 13, offset: 3129},
+						pos:  position{line: 142, col: 13, offset: 3150},
 						name: "VerbatimArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 142, col: 27, offset: 3143},
+						pos:  position{line: 142, col: 27, offset: 3164},
 						name: "PreformattedArg",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 142, col: 45, offset: 3161},
+						pos:  position{line: 142, col: 45, offset: 3182},
 						name: "Arg",
 					},
 				},
@@ -953,14 +993,14 @@ var g = &grammar{
 		},
 		{
 			name: "Indent",
-			pos:  position{line: 144, col: 1, offset: 3166},
+			pos:  position{line: 144, col: 1, offset: 3187},
 			expr: &actionExpr{
-				pos: position{line: 144, col: 11, offset: 3176},
+				pos: position{line: 144, col: 11, offset: 3197},
 				run: (*parser).callonIndent1,
 				expr: &zeroOrMoreExpr{
-					pos: position{line: 144, col: 11, offset: 3176},
+					pos: position{line: 144, col: 11, offset: 3197},
 					expr: &charClassMatcher{
-						pos:        position{line: 144, col: 11, offset: 3176},
+						pos:        position{line: 144, col: 11, offset: 3197},
 						val:        "[ \\t]",
 						chars:      []rune{' ', '\t'},
 						ignoreCase: false,
-- 
2.43.0


From 7bbd30aa0ef8df5abe8fb878d876f448b9e73ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:30 +0000
Subject: [PATCH 16/22] fix: drop the remains of templates that failed to load

---
 render/html.go | 4 ++--
 render/text.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/render/html.go b/render/html.go
index a8f6449..8130056 100644
--- a/render/html.go
+++ b/render/html.go
@@ -113,7 +113,7 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 	}
 
 	modTimes := map[string]time.Time{}
-	shouldReload := len(templates) != len(engine.tmplModTimes)
+	shouldReload := engine.tmplModTimes == nil || len(templates) != len(engine.tmplModTimes)
 	for _, path := range templates {
 		info, err := os.Stat(path)
 		if err != nil {
@@ -137,7 +137,7 @@ func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
 	engine.resetTmpl()
 
 	// only remember templates which load; until then, they have to be reloaded
-	engine.tmplModTimes = map[string]time.Time{}
+	engine.tmplModTimes = nil
 
 	for _, path := range templates {
 		content, err := ioutil.ReadFile(path)
diff --git a/render/text.go b/render/text.go
index ca11973..0426219 100644
--- a/render/text.go
+++ b/render/text.go
@@ -105,7 +105,7 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 	}
 
 	modTimes := map[string]time.Time{}
-	shouldReload := len(templates) != len(engine.tmplModTimes)
+	shouldReload := engine.tmplModTimes == nil || len(templates) != len(engine.tmplModTimes)
 	for _, path := range templates {
 		info, err := os.Stat(path)
 		if err != nil {
@@ -129,7 +129,7 @@ func (engine *TextEngine) LoadTemplates(templatesDir string) error {
 	engine.resetTmpl()
 
 	// only remember templates which load; until then, they have to be reloaded
-	engine.tmplModTimes = map[string]time.Time{}
+	engine.tmplModTimes = nil
 
 	for _, path := range templates {
 		content, err := ioutil.ReadFile(path)
-- 
2.43.0


From c94ebeb25cb1a0c0cce914175848bd68139a8201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 17/22] fix: always write the page of the section given to
 WriteSection

---
 render/writer.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/render/writer.go b/render/writer.go
index db1b627..2beccd9 100644
--- a/render/writer.go
+++ b/render/writer.go
@@ -41,20 +41,27 @@ type SearchDocument struct {
 	SectionTag string `json:"section_tag"`
 }
 
-// WriteSection renders the given section to disk if it has no
-// parent or if its parent is configured with SplitSections.
-//
-// After rendering, WriteSection recurses to the section's Children.
+// WriteSection renders the given section to disk, along with each section
+// beneath it whose parent is configured with SplitSections.
 func (writer Writer) WriteSection(section *booklit.Section) error {
-	if section.Parent == nil || section.Parent.SplitSections {
-		err := writer.writeSingleSection(section)
-		if err != nil {
-			return err
-		}
+	err := writer.writeSingleSection(section)
+	if err != nil {
+		return err
 	}
 
+	return writer.writeChildren(section)
+}
+
+func (writer Writer) writeChildren(section *booklit.Section) error {
 	for _, child := range section.Children {
-		err := writer.WriteSection(child)
+		if section.SplitSections {
+			err := writer.writeSingleSection(child)
+			if err != nil {
+				return err
+			}
+		}
+
+		err := writer.writeChildren(child)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 914c6d96cc0f922c0e19a58eef7fe4315a165cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 18/22] fix: links to tags with characters that are special in
 URLs

---
 render/common.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/render/common.go b/render/common.go
index 4af1648..156935a 100644
--- a/render/common.go
+++ b/render/common.go
@@ -1,6 +1,11 @@
 package render
 
-import "github.com/vito/booklit"
+import (
+	"net/url"
+	"strings"
+
+	"github.com/vito/booklit"
+)
 
 // WalkContext is a utility type constructed via the walkContext template
 // function.
@@ -32,11 +37,11 @@ func sectionURL(ext string, section *booklit.Section, anchor string) string {
 		return sectionURL(ext, owner, anchor)
 	}
 
-	filename := section.PrimaryTag.Name + "." + ext
-
-	if anchor != "" {
-		filename += "#" + anchor
+	link := url.URL{
+		Path:     section.PrimaryTag.Name + "." + ext,
+		Fragment: anchor,
 	}
 
-	return filename
+	// a colon in a name is not the end of a scheme
+	return strings.Replace(link.String(), ":", "%3A", -1)
 }
-- 
2.43.0


From 87dcce94b150f14e18e179cf0fe594c9cee84d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 19/22] fix: documents that include themselves never finish
 loading

A file which includes itself, directly or through others, was evaluated
until the stack or the memory was used up. Report it at the inclusion.
---
 load/processor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/load/processor.go b/load/processor.go
index 4d1411e..5a9dcbf 100644
--- a/load/processor.go
+++ b/load/processor.go
@@ -4,6 +4,7 @@
 package load
 
 import (
+	"fmt"
 	"os"
 	"sync"
 	"time"
@@ -57,6 +58,12 @@ func (processor *Processor) LoadFileIn(parent *booklit.Section, path string, plu
 //
 // The returned section will not have been collected or resolved.
 func (processor *Processor) EvaluateFile(parent *booklit.Section, path string, pluginFactories []booklit.PluginFactory) (*booklit.Section, error) {
+	for s := parent; s != nil; s = s.Parent {
+		if s.Path == path {
+			return nil, fmt.Errorf("section includes itself: %s", path)
+		}
+	}
+
 	info, err := os.Stat(path)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d3d80019500de1b1aa72b4ef954460f0dc496334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 20/22] fix: template directories whose name is a pattern, or
 that do not exist

The directory was part of a glob pattern, so templates in a directory such
as 'tm[1]' were silently not used, and neither was a missing directory
reported.
---
 render/common.go | 20 ++++++++++++++++++++
 render/html.go   |  2 +-
 render/text.go   |  2 +-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/render/common.go b/render/common.go
index 156935a..9c4c898 100644
--- a/render/common.go
+++ b/render/common.go
@@ -1,7 +1,9 @@
 package render
 
 import (
+	"io/ioutil"
 	"net/url"
+	"path/filepath"
 	"strings"
 
 	"github.com/vito/booklit"
@@ -14,6 +16,24 @@ type WalkContext struct {
 	Section *booklit.Section
 }
 
+// templatePaths lists the *.tmpl files in the specified directory, whose name
+// may contain any characters.
+func templatePaths(templatesDir string) ([]string, error) {
+	infos, err := ioutil.ReadDir(templatesDir)
+	if err != nil {
+		return nil, err
+	}
+
+	var paths []string
+	for _, info := range infos {
+		if filepath.Ext(info.Name()) == ".tmpl" {
+			paths = append(paths, filepath.Join(templatesDir, info.Name()))
+		}
+	}
+
+	return paths, nil
+}
+
 func sectionPageOwner(section *booklit.Section) *booklit.Section {
 	if section.Parent == nil {
 		return section
diff --git a/render/html.go b/render/html.go
index 8130056..b4d63d1 100644
--- a/render/html.go
+++ b/render/html.go
@@ -107,7 +107,7 @@ func (engine *HTMLEngine) resetTmpl() {
 
 // LoadTemplates loads all *.tmpl files in the specified directory.
 func (engine *HTMLEngine) LoadTemplates(templatesDir string) error {
-	templates, err := filepath.Glob(filepath.Join(templatesDir, "*.tmpl"))
+	templates, err := templatePaths(templatesDir)
 	if err != nil {
 		return err
 	}
diff --git a/render/text.go b/render/text.go
index 0426219..0f33023 100644
--- a/render/text.go
+++ b/render/text.go
@@ -99,7 +99,7 @@ func (engine *TextEngine) resetTmpl() {
 
 // LoadTemplates loads all *.tmpl files in the specified directory.
 func (engine *TextEngine) LoadTemplates(templatesDir string) error {
-	templates, err := filepath.Glob(filepath.Join(templatesDir, "*.tmpl"))
+	templates, err := templatePaths(templatesDir)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e02863d6b3392a3ec7914125a6920f097fa284e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 21/22] fix: taking the text of a reference early hid an
 ambiguous tag

A plugin function which looks at the text of its argument made a reference
in it remember a tag that was only unique in the part of the document
evaluated so far.
---
 reference.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reference.go b/reference.go
index e70baa5..c594b5b 100644
--- a/reference.go
+++ b/reference.go
@@ -47,7 +47,10 @@ func (con *Reference) String() string {
 		return con.Content.String()
 	}
 
-	tag, err := con.Tag()
+	// the document may still be incomplete, so do not remember the result
+	ref := *con
+
+	tag, err := ref.Tag()
 	if err != nil {
 		return fmt.Sprintf("{broken reference: %s: %s}", con.TagName, err)
 	}
-- 
2.43.0


From 8c98b3e0c3b164644ac8f5adc683af128279e87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:47 +0000
Subject: [PATCH 22/22] fix: show a last line that fills the buffer exactly

A long line without a line break at the end of the file was read as no
line at all when its length is a multiple of the reader's buffer size.
---
 errors.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/errors.go b/errors.go
index ec7a512..ba07a73 100644
--- a/errors.go
+++ b/errors.go
@@ -437,6 +437,10 @@ func readLine(buf *bufio.Reader) (string, error) {
 	line := ""
 	for {
 		part, isPrefix, err := buf.ReadLine()
+		if err == io.EOF && line != "" {
+			return line, nil
+		}
+
 		if err != nil {
 			return "", err
 		}
-- 
2.43.0

