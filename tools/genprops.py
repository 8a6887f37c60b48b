#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Parsing is total and errors are located in the source",
  "For every byte string, parsing a Booklit document terminates without crashing and yields a document or an error. "
  "Every syntax error carries a 1-based line, a column and a byte offset that name a position of the input (or its end), and the offset is where that line and column are.",
  ["inputs"], "every byte string (any bytes, including invalid UTF-8)",
  "62 tests parse well-formed documents; only a handful of rejects are reached and none checks where the error points.",
  ["ast/booklit.peg", "ast/booklit.peg.go", "ast/errors.go", "load/processor.go"],
  [("parser.parse / failAt / read", "ast/booklit.peg.go"), ("UnpackError", "ast/errors.go"), ("Processor.EvaluateFile", "load/processor.go")],
  observe=["ast.Parse", "load.Processor.LoadFile -> booklit.ParseError"])
p("C02", "Documents parse according to the documented syntax",
  "A document is accepted exactly when it follows the documented syntax, and the tree it parses to is the documented one: paragraphs separated by blank lines, lines, words, function calls with their arguments in order in each argument form (line, word-wrapped, paragraphs, {{preformatted}}, {{{verbatim}}}, empty), interpolated words, and comments (nested, multi-line) leaving no trace.",
  ["inputs"], "every document text",
  "The tests sample about forty documents; the grammar's ordered choices interact on every adjacent pair of delimiters, which samples do not cover.",
  ["ast/booklit.peg", "ast/booklit.peg.go", "docs/lit/syntax.lit"],
  [("grammar rules Booklit..Indent", "ast/booklit.peg"), ("generated matcher tables and actions", "ast/booklit.peg.go")],
  observe=["ast.Parse result tree"])
p("C03", "Literal text survives parsing and evaluation unchanged",
  "Any text written with backslash-escapes for \\, { and } comes out of parsing and evaluation as exactly that text (leading blanks of a line aside), and the text of a {{{verbatim}}} argument comes out exactly as written, with nothing in it interpreted; escapes and verbatim bodies never gain, lose, reorder or alter characters.",
  ["inputs"], "every text without line breaks as prose and as an argument; every verbatim body not containing }}}",
  "Tests contain one escape sample and two verbatim samples.",
  ["ast/booklit.peg", "ast/booklit.peg.go", "stages/evaluate.go", "append.go"],
  [("String, VerbatimString, VerbatimLine, VerbatimBlock rules", "ast/booklit.peg"), ("Evaluate.VisitString/VisitSequence", "stages/evaluate.go")],
  observe=["content String() of the evaluated document"])
p("C04", "Preformatted blocks keep relative indentation",
  "In a multi-line {{preformatted}} or {{{verbatim}}} argument the indentation of the block's first line is removed from every line of that block and all other whitespace is preserved; a line indented less loses only its own indentation, blank lines are kept, and blocks nested inside one another or following one another do not affect each other's indentation.",
  ["inputs"], "every combination of indentations of a block's lines, nesting and succession of blocks",
  "Tests use a few fixed indentations and never nest one block inside another.",
  ["ast/booklit.peg", "ast/booklit.peg.go"],
  [("Indent / PreformattedBlock / VerbatimBlock actions on the indentation to skip", "ast/booklit.peg")],
  state=[("indent-skip", "indentation removed from the lines of the current block", "ast/booklit.peg Indent")],
  observe=["evaluated Preformatted content"])
p("C05", "Line endings and comments do not change a document's meaning",
  "A document means the same with LF and CRLF line endings: both parse to the same tree, up to source positions. "
  "Inserting a comment directly after a visible character of text, or on lines of its own between paragraphs, changes nothing but source positions.",
  ["inputs"], "every document and every subset of its line breaks turned into CRLF; every comment position",
  "Three line-ending tests and four comment tests, each a single document.",
  ["ast/booklit.peg", "ast/booklit.peg.go"],
  [("LineBreak, Comment, CommentSpacing, Word rules", "ast/booklit.peg")],
  observe=["ast.Parse result tree"])
p("C06", "Every function call is located at its own backslash",
  "The location recorded for every function call, at every nesting depth and in every argument form, is the line, column and byte offset of that call's backslash in the source, counting characters for columns and bytes for offsets.",
  ["inputs"], "every document containing calls",
  "No test looks at a recorded location.",
  ["ast/booklit.peg", "ast/booklit.peg.go", "ast/node.go"],
  [("Invoke action", "ast/booklit.peg"), ("parser.read position tracking, savepoints", "ast/booklit.peg.go")],
  observe=["ast.Invoke.Location"])
p("C07", "Function calls dispatch to the right plugin method, once, in order",
  "Evaluating \\foo-bar{a}{b} calls method FooBar exactly once on the first of the section's plugins (in order of use) that has it, with the arguments evaluated and converted (content, string or raw syntax, variadic included) in order. "
  "A call no plugin provides, a wrong argument count and an error returned by the method each make evaluation fail with an error naming the function, and so does (with any error) an unsupported parameter or return type; an argument or result that holds no content is accepted and contributes nothing.",
  ["inputs", "programs"], "every function name, argument list, and plugin set",
  "Tests call each base function in one or two ways, never with content-less arguments, and check three failing calls.",
  ["stages/evaluate.go", "ast/node.go"],
  [("Evaluate.VisitInvoke, convert, evalArg", "stages/evaluate.go"), ("Invoke.Method", "ast/node.go")],
  observe=["calls received by a plugin, error returned by evaluation"])
p("C08", "Evaluation keeps content complete and in order",
  "The content of a section is exactly the content its words and calls produce, in source order with nothing dropped, duplicated or rearranged: a line that produces nothing disappears, a paragraph with no lines left disappears, a paragraph consisting of one block is that block, and other paragraphs keep their lines. "
  "Joining content never loses an element and never modifies content that was joined earlier.",
  ["inputs", "programs"], "every syntax tree and every list of content values to join",
  "The tests see only trees whose calls behave regularly, and never join more than two values.",
  ["stages/evaluate.go", "append.go", "sequence.go", "paragraph.go"],
  [("Append", "append.go"), ("Evaluate.VisitParagraph/VisitSequence/VisitPreformatted", "stages/evaluate.go")],
  observe=["Evaluate.Result"])
p("C09", "Titles determine a section's tags, once",
  "Setting a section's title gives it exactly the listed tags in order, the first being primary, or when none are listed a single tag derived from the title: the text without auxiliary content, lower-cased, ' & ' read as ' and ', each run of whitespace turned into one '-', and every other character outside ASCII letters, digits, '_' and '-' removed. "
  "A second title for a section that has one is rejected and changes nothing.",
  ["inputs"], "every title content and tag list",
  "Default tags are tested for a few English titles only.",
  ["section.go", "baselit/plugin.go", "aux_.go"],
  [("Section.SetTitle, defaultTag", "section.go"), ("Plugin.Title", "baselit/plugin.go")],
  observe=["Section.PrimaryTag, Section.Tags"])
p("C10", "Section numbers are hierarchical and unique",
  "The root section has no number; every other section's number is its parent's number (if any) followed by its 1-based position among its siblings, joined by a dot, so no two sections of a document share a number.",
  ["inputs"], "every section tree",
  "Tests have at most three children and two levels.",
  ["section.go"], [("Section.Number", "section.go")], observe=["Section.Number"])
p("C11", "Navigation between sections agrees with the tree",
  "Top, Contains, IsOrHasChild, Depth and PageDepth agree with the section tree. "
  "Prev is the preceding sibling, or the parent for a first child, or nothing for the root; NextSibling is the following sibling or else the nearest ancestor's following sibling; Next is the first child when the section splits its children onto pages and has any, and NextSibling otherwise.",
  ["inputs"], "every section tree with any split/reset flags, every pair of sections",
  "Navigation functions are only called from user templates; no test calls them.",
  ["section.go"], [("Section.Prev/Next/NextSibling/Top/Contains/IsOrHasChild/Depth/PageDepth", "section.go")],
  observe=["the exported methods of Section"])
p("C12", "Tag lookup is global and exact",
  "Looking a tag name up from any section of a document returns every tag with exactly that name anywhere in the document, each once, and nothing else; the answer, as a set, is the same from every section. "
  "The similar tags offered for a name are tags of the document, each at most once, and include every tag of that very name.",
  ["inputs"], "every section tree, every placement of tags, every section to look up from",
  "Tests look tags up in flat three-section documents.",
  ["section.go"], [("Section.FindTag, SimilarTags, filterTags", "section.go")], observe=["Section.FindTag, Section.SimilarTags"])
p("C13", "References resolve uniquely or fail",
  "A reference resolves to the one tag of its name in the document and displays its own content if given, else the tag's title. "
  "If no tag has the name it fails with an unknown-tag error, and if several have it with an error listing every one of them; an optional reference to an unknown tag yields no tag and no error, and in allow-broken-references mode a placeholder named after the tag stands in instead of either error.",
  ["inputs", "configurations"], "every document, tag multiplicity 0..n, optional and allow-broken modes",
  "One test each for the unknown and ambiguous case; the optional and allow-broken modes are untested.",
  ["reference.go", "section.go"], [("Reference.Tag, resolve, Display", "reference.go")],
  state=[("Reference.tag", "memo of the resolved tag", "reference.go")], observe=["Reference.Tag, Display, String"])
p("C14", "Every target becomes one anchored tag of its section",
  "After a document is loaded, every target in a section's title, body or partials, however deeply nested in sequences, paragraphs, preformatted text, styled content and its partials, links, lists, tables and definitions, has added exactly one tag to that section, carrying the target's name as name and anchor, its title, location and content; no other tags are added, and targets keep their order within the title and within the body; these are the section's anchored tags, and a section has anchors exactly when it or a section inlined below it has one.",
  ["inputs"], "every content tree",
  "Targets are tested directly in a paragraph, in one partial, and nowhere else.",
  ["stages/collect.go", "load/processor.go", "section.go"],
  [("Collect.Visit*", "stages/collect.go"), ("Processor.runStages", "load/processor.go")], observe=["Section.Tags, AnchorTags, HasAnchors"])
p("C15", "Stripping removes all auxiliary content and nothing else",
  "Stripping content removes every piece of auxiliary content at any depth of sequences, paragraphs, preformatted text, styled content and its partials, links, references, targets, lists, tables and definitions, keeps everything else as it was and in order, accepts content whose optional parts are absent, and leaves the original content unmodified.",
  ["inputs"], "every content tree",
  "One title with a trailing aux is tested.",
  ["aux_.go"], [("StripAux, stripAuxVisitor, stripAuxSeq", "aux_.go")], observe=["booklit.StripAux"])
p("C16", "Every link leads to a written page that shows its target",
  "For every tag of a document with distinct tag names, the URL generated for it names a file that writing the document creates, and its fragment, if any, is an element id on that page: the anchor of the tag, or the tag of the inlined section it belongs to. "
  "Each section appears in exactly one written page: its own if it is the root or its parent splits sections, otherwise the page of its nearest ancestor that has one.",
  ["inputs", "configurations"], "every section tree with any choice of splitting sections, every tag",
  "Tests cover three tree shapes with one or two splitting sections.",
  ["render/common.go", "render/writer.go", "render/html.go", "render/html/section.tmpl"],
  [("sectionPageOwner, sectionURL", "render/common.go"), ("Writer.WriteSection", "render/writer.go"), ("section.tmpl", "render/html/bindata.go")],
  observe=["Engine.URL, the files written by Writer.WriteSection"])
p("C17", "Single-page overrules splitting",
  "In a section declared single-page and in all of its descendants no section is given its own page, whatever the order in which the single-page and split-sections declarations and the child sections appear; outside of single-page sections a split-sections declaration takes effect, and header depths and numbering are the same as in the split form.",
  ["inputs", "programs"], "every document shape and every placement and order of the two declarations",
  "One single-page test, with the declaration first.",
  ["baselit/plugin.go", "section.go", "render/writer.go"],
  [("Plugin.SinglePage, SplitSections", "baselit/plugin.go"), ("Section.SplitSectionsPrevented, PageDepth", "section.go")],
  observe=["Section.SplitSections after load, files written"])
p("C18", "Text can never inject markup into HTML output",
  "Text taken from a document (prose, titles, arguments, tag names, link targets, image paths and descriptions) is escaped in HTML output of the bundled templates (raw-html, which plugins use to put out markup of their own, aside): it can neither open nor close an element, attribute or comment, and un-escaping the page's text gives back exactly the document's text. Link targets and image paths cannot introduce a script URL.",
  ["inputs"], "every text in every text-bearing position",
  "No test contains a character that needs escaping in a position where it is checked.",
  ["render/html.go", "render/html/*.tmpl"],
  [("html/template contextual escaping", "render/html.go"), ("HTMLEngine.subRender", "render/html.go")], observe=["HTMLEngine.RenderSection output"])
p("C19", "Rendering shows every piece of content once, in order",
  "HTML and text rendering put out every piece of content exactly once and in document order with its structure: paragraph lines joined by one space, list items, table cells and definitions in order within their elements, preformatted lines on their own lines, styled content in its element, a lazily produced piece of content as its result; rendering the same section again gives the same output.",
  ["inputs"], "every content tree",
  "Tests render each kind of content once with two or three children.",
  ["render/html.go", "render/text.go", "render/html/*.tmpl", "render/text/*.tmpl"],
  [("HTMLEngine/TextEngine Visit*, subRender", "render/html.go"), ("templates", "render/html/bindata.go")],
  observe=["RenderSection output"])
p("C20", "Section and page styles select templates with fallback",
  "A section styled S is rendered with template S and, as a page, with template S-page whenever such templates exist, and with the standard section and page templates otherwise, in both renderers; styles of one section never affect another, and user-supplied templates override bundled ones of the same name.",
  ["inputs", "configurations"], "every set of available templates, every assignment of styles to sections",
  "Style tests always provide the style's templates in the HTML renderer and never render styled text output.",
  ["render/html.go", "render/text.go"], [("RenderSection, VisitSection, setTmpl, LoadTemplates", "render/html.go")],
  observe=["RenderSection output"])
p("C21", "The search index covers exactly the document's tags",
  "The search index written for a document has exactly one entry per distinct tag name of the document, giving that tag's URL, title text, own text (its content's text, or its section's body text when it has none), its section's depth and its section's primary tag.",
  ["inputs"], "every section tree and tag placement, split or not",
  "Three small documents are indexed in the tests.",
  ["render/writer.go"], [("Writer.WriteSearchIndex, loadTags", "render/writer.go")], observe=["the JSON file written"])
p("C22", "Tables of contents list the section tree",
  "A table of contents lists every section below its section once, nested and in document order, each with its number, its title without auxiliary content and a link to it, except that sections below one that omits its children are left out.",
  ["inputs"], "every section tree and every placement of the omit flag",
  "One table of contents over a fixed document is tested.",
  ["render/html/toc.tmpl", "render/html.go", "section.go"], [("toc.tmpl", "render/html/bindata.go"), ("VisitTableOfContents", "render/html.go")],
  observe=["rendered table of contents"])
p("C23", "Reloading always reflects the current files",
  "Whatever the history of edits, replacements and failed loads, loading a document gives the same result as loading it afresh with no cache, provided files differ in modification time (forwards or backwards) whenever their contents differ; this holds for every included file.",
  ["histories"], "every sequence of writes with arbitrary modification times, interleaved with loads, including syntax errors in between",
  "Each test loads each document once with a new processor, so the cache is never hit.",
  ["load/processor.go"], [("Processor.EvaluateFile cache by modification time", "load/processor.go")],
  state=[("Processor.parsed", "parsed syntax per path with the modification time it was read at", "load/processor.go")],
  observe=["Processor.LoadFile"])
p("C24", "Template reloading reflects the current template files",
  "Whatever the history of template edits, additions and failed loads, successfully loading a template directory leaves the renderer with the bundled templates overridden by exactly the current templates (files named *.tmpl) of that directory, whatever its name, provided they differ in modification time whenever their contents differ; a load while some template is invalid, or the directory missing, reports an error every time.",
  ["histories"], "every sequence of template writes and removals with arbitrary modification times, interleaved with loads",
  "Templates are loaded once per test.",
  ["render/html.go", "render/text.go"], [("LoadTemplates, resetTmpl", "render/html.go")],
  state=[("tmplModTimes", "modification time of each template at the last load", "render/html.go")], observe=["LoadTemplates, RenderSection"])
p("C25", "The preview server answers every request with the right page",
  "The server answers / and /TAG.html with the current rendering of the section carrying that tag, hands every other path to its file server, and answers a document, template or rendering failure with status 500 and an error page and none of the failed page; it never crashes, and requests served concurrently get the same answers as served one after another.",
  ["inputs", "schedules", "fault_sequences"], "every request path, every document state, every interleaving of requests",
  "The server has no tests at all.",
  ["booklitcmd/server.go", "errors.go"], [("Server.ServeHTTP, loadRequestedSection", "booklitcmd/server.go")],
  state=[("Server.buildLock", "serialises template loading and rendering", "booklitcmd/server.go")], observe=["HTTP response"])
p("C26", "Builds are deterministic",
  "Building the same document twice gives the same result: the tags of a section and their order, the tag an index entry or reference is for, the order in which conflicting definitions are reported, and all rendered output depend only on the input, not on map iteration order.",
  ["inputs", "schedules"], "every document, every iteration order of every map",
  "A test sees one iteration order of maps that mostly have one entry.",
  ["stages/collect.go", "aux_.go", "section.go", "render/writer.go"], [("Collect.VisitSection, VisitStyled over partials", "stages/collect.go")],
  observe=["Section.Tags, AmbiguousReferenceError, search index"])
p("C27", "Errors point at the call that caused them",
  "The error for a call of an undefined function, a function that fails, a second title, or a reference to an unknown or ambiguous tag names the file the call is written in (also from inline sections of included files) and the line and column of that very call, and the definitions it mentions are pointed at likewise; printing it, as text or as HTML, shows exactly that source line with the marker under the call, and never crashes whatever the file now contains.",
  ["inputs", "programs"], "every document with a failing call at any position, every current content of the file",
  "Error tests match a substring of the message only; no location or snippet is checked.",
  ["errors.go", "stages/evaluate.go", "reference.go", "baselit/plugin.go", "section.go"],
  [("ErrorLocation.Annotate/AnnotateLocation/AnnotatedHTML/lineInQuestion", "errors.go"), ("Section.InvokeLocation", "stages/evaluate.go"), ("Section.FilePath", "section.go")],
  observe=["PrettyError.PrettyPrint / PrettyHTML output, ErrorLocation"])
p("C28", "Sections are assembled in order with their own plugins",
  "Inline and included sections become children of the section that declares them, in order of declaration, with it as parent; an included path is relative to the file containing the call. A file may be included any number of times, but one that would contain itself, directly or through others, is an error at the inclusion. Inline sections start with the plugins their parent has at that point, included sections with the base plugin only, and plugins used by a child never become available to its parent or siblings.",
  ["inputs", "programs"], "every nesting and order of inline sections, inclusions and plugin uses",
  "Tests include one level of files and never check plugin scoping.",
  ["baselit/plugin.go", "load/processor.go", "section.go"],
  [("Plugin.Section, IncludeSection, UsePlugin", "baselit/plugin.go"), ("Processor.EvaluateFile/EvaluateNode/evaluateSection", "load/processor.go"), ("Section.UsePlugin", "section.go")],
  observe=["Section tree after LoadFile"])
p("C29", "Lazy content is produced once",
  "The function behind lazily produced content runs at most once however often and from however many goroutines it is forced, never before it is first forced, and every force returns that one result or error.",
  ["schedules", "histories"], "every number of forces, results and errors, and every interleaving of concurrent forces",
  "No test uses lazy content.",
  ["lazy.go", "render/html.go"], [("Lazy.Force", "lazy.go")], observe=["Lazy.Force"])
p("C30", "Code transformers replace exactly what they match",
  "Applying a code transformer to text yields pieces which, with each matched stretch in its transformed form, are the original text: in order, nothing lost, duplicated or altered, and every match transformed exactly once. Code highlighted with transformers is, likewise, the highlighted code without them with the matches of each in their transformed form, and shows all of the code.",
  ["inputs"], "every text, pattern and list of transformers",
  "The chroma plugin has no tests.",
  ["chroma/plugin.go"], [("Transformer.TransformAll", "chroma/plugin.go")], observe=["Transformer.TransformAll"])
p("C31", "Base functions build the content they document",
  "Each base function returns content of its documented kind holding exactly its arguments in order: lists (ordered or not), tables of table rows, definitions of subject and definition, links, images, targets, references, styled text, partials; a table row or definition that is not one, or not a pair, is rejected with an error.",
  ["inputs", "programs"], "every argument list",
  "Each function is exercised in one or two shapes.",
  ["baselit/plugin.go"], [("Plugin methods", "baselit/plugin.go")], observe=["returned content"])
p("C32", "Flow and block content are told apart correctly",
  "Content is flow exactly when it fits within a sentence: text, links to flow, references, targets, images; sequences and styled content are flow exactly when all they hold is flow (unless forced to be a block); paragraphs, lists, tables, definitions, preformatted text, sections and tables of contents are block. Inline and block code are rendered as such accordingly.",
  ["inputs"], "every content tree",
  "Only indirectly exercised through a few documents.",
  ["sequence.go", "styled.go", "content.go", "render/html/verbatim.tmpl"], [("IsFlow implementations", "sequence.go, styled.go, ...")], observe=["Content.IsFlow, rendered code"])
p("C33", "Plugins given on the command line are compiled in",
  "Running booklit with plugin packages builds, with the Go toolchain and in the same environment, a program that is the booklit command with exactly those packages imported, runs it with the same arguments and environment, and shows its output and ends with its exit status, whatever it is; the rebuilt program builds the document itself instead of rebuilding again. When it cannot be built, nothing is run and the command fails with an error. Without plugins nothing is rebuilt. In every case no temporary file is left.",
  ["inputs", "configurations", "fault_sequences"], "every list of plugin import paths, every further argument, every exit status of the build and run",
  "No test runs the command.",
  ["booklitcmd/command.go"], [("Command.reexec", "booklitcmd/command.go"), ("Command.Execute", "booklitcmd/command.go")], observe=["exit status, output, what the Go tool is asked to build, arguments and environment of the program, temporary directory"])
p("C34", "Booklit source is highlighted losslessly",
  "Highlighting Booklit source with the registered lexer never fails and yields tokens whose texts concatenate to the source (line ends as LF), so that the highlighted HTML shows exactly the source, inline for inline code and as a block otherwise.",
  ["inputs"], "every valid UTF-8 source text, well-formed Booklit or not",
  "The lexer has no tests.",
  ["chroma/booklit_lexer.go", "chroma/plugin.go"], [("Booklit lexer rules", "chroma/booklit_lexer.go"), ("Plugin.Syntax", "chroma/plugin.go")], observe=["token stream, highlighted HTML"])
p("C35", "The build command writes exactly what its options say",
  "A build renders the document, or the section that --section-tag or --section-path selects, with the renderer and templates its options name: without --out it prints that section's page and nothing else; with --out it writes the page of that section and of each section below it whose parent splits its sections, each with exactly the page's content, a search index of the whole document when asked for, and nothing else, leaving other files alone. When the document, section, tag or templates cannot be loaded it fails with an error and writes no page; broken references fail exactly when not allowed.",
  ["configurations"], "every combination of options, document shapes and previous contents of the output directory",
  "No test runs the command.",
  ["booklitcmd/command.go", "render/writer.go"], [("Command.Build", "booklitcmd/command.go"), ("Command.Execute", "booklitcmd/command.go"), ("Writer.WriteSection", "render/writer.go")], observe=["files written, output, exit status"])
p("C36", "Slow-call warnings change nothing but the log",
  "Whatever the threshold for reporting slow calls and however long calls take, evaluating a document terminates and gives the same content, or the same error at the same place, as without a threshold, also when several calls (nested ones included) are slow at once or several documents are evaluated at once; each report shows the source line of a call with the marker under that call, and reports never mix with one another.",
  ["schedules"], "every moment at which the timer of any call may go off, relative to the evaluation and to other timers",
  "The tests evaluate without a threshold, while the command always sets one.",
  ["stages/evaluate.go", "errors.go"], [("Evaluate.VisitInvoke", "stages/evaluate.go"), ("complainL", "stages/evaluate.go")], observe=["Processor.LoadFile result, standard error"])
p("C37", "Failures to read or write are reported, never swallowed",
  "When a document, an included file or a template cannot be read to its end, or a page, index, printed page or response cannot be written to its end, whatever the point of failure, loading, rendering, writing or building fails with an error telling that failure: no document comes of a part of a file, and no incomplete output counts as success. A source read in pieces of any size means the same as in one piece. Once the cause is gone, the same processor, renderer, writer and server work as if it had never been.",
  ["inputs", "fault_sequences"], "every byte or operation at which reading or writing may fail, every division of a source into pieces",
  "The tests never let a read or write fail.",
  ["ast/booklit.peg.go", "load/processor.go", "render/writer.go", "render/html.go", "render/text.go", "booklitcmd/command.go", "booklitcmd/server.go"],
  [("ParseReader", "ast/booklit.peg.go"), ("Processor.EvaluateFile", "load/processor.go"), ("Writer.writeSingleSection / WriteSearchIndex", "render/writer.go"), ("HTMLEngine.RenderSection / TextEngine.RenderSection", "render/html.go"), ("Command.Build", "booklitcmd/command.go"), ("Server.ServeHTTP", "booklitcmd/server.go")],
  observe=["returned errors, files written, responses"])
p("C38", "The command line is honoured and the exit status tells success",
  "The command does what the options on its command line say, in whichever of the accepted forms and orders they are written, with any value and with file names relative to the working directory, exactly as if they had been set directly (with absolute names): same output, same files. Its exit status is zero exactly when that succeeds; a failure is reported on standard error with its cause and location and shows no page. A command line that is wrong (unknown option, missing input or value, ill-formed value) is reported with a non-zero status and nothing is built; asking for help or for the version prints it, succeeds, and builds nothing.",
  ["inputs", "configurations"], "every combination, form and order of options, every option value, every cause of failure",
  "No test runs the command.",
  ["booklitcmd/main.go", "booklitcmd/command.go", "cmd/booklit/main.go"], [("Main", "booklitcmd/main.go"), ("Command (option tags)", "booklitcmd/command.go")], observe=["exit status, standard output and error, files written"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
