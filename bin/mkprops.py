import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

G=["logstash_config.go","logstash_config.peg","logstash_config_helper.go","grammar.treetop"]
p("C01","Exactly the Logstash configuration language is accepted",
 "Parse returns a configuration for exactly the texts of the upstream Logstash grammar with this project's documented deviations (a comment may end at the end of the text; a text without any section is an empty configuration; no method calls; a plugin is neither an array element nor a hash value), and returns an error for every other text. The choice between alternatives is ordered, so each accepted text has exactly one reading. Text that is not valid UTF-8 is rejected unless AllowInvalidUTF8 is given.",
 ["inputs","programs"],"every text, valid or not: every construct in every position, every gap (white space, comments, line ending style) between any two tokens, every truncation or corruption",
 "The tests parse some 90 hand-written configurations; the generated parser holds dozens of inlined copies of each rule, and a wrong class, literal or repetition in one copy only shows on texts that use just that construct in just that place.",
 G,[("PEG tables and interpreter","logstash_config.go"),("semantic predicates (pushError, fatalError)","parse_error_helper.go"),("typed actions that may reject","logstash_config_helper.go")],
 ["config.Parse","config.ParseReader","config.ParseFile","mustache check"])
p("C02","The syntax tree says exactly what the text says",
 "For every accepted text the returned tree holds every section, plugin, branch, attribute, array element, hash entry, operator and selector of the text, nothing else, in the order of the text (sections grouped by type), each with the name, value, quoting and operator written there. Strings, regular expressions and selectors are kept verbatim, numbers have the value of their decimal text to double precision.",
 ["inputs","programs"],"every accepted configuration text, all nestings of plugins, branches, conditions, arrays, hashes and codec plugins",
 "Tests compare a fixed set of trees; combinations (which operator in which nesting, which value kind under which key, many siblings) are unbounded.",
 G+["ast/ast.go"],[("parser actions building nodes","logstash_config_helper.go"),("node constructors","ast/ast.go")],["ast.Config returned by config.Parse"])
p("C03","Every node carries the position of its text",
 "For every accepted text, the position of each node of the tree (sections, plugins, attributes, values, array elements, hash entries, branches, conditions, operators, selectors and their elements) is the line, column and byte offset at which the text of that node starts. Lines and columns count from 1, columns count characters, offsets count bytes.",
 ["inputs","programs"],"every accepted text, including multi-byte characters, tabs, CRLF line ends, multi-line strings and comments before a node",
 "The position tests hold one sample for each node type, all ASCII, and none for values inside arrays and hashes.",
 ["logstash_config.go","logstash_config_helper.go","ast/ast.go"],[("position tracking of the parser","logstash_config.go"),("astPos in the actions","logstash_config_helper.go"),("Pos methods","ast/ast.go")],["Pos() of the nodes","mustache lint messages"])
p("C04","Rejections name the missing closer and point at the place",
 "If a text is rejected because a bracket, brace, parenthesis, quote or slash is never closed, the error names that closing character. Every other rejection names the farthest index at which a terminal of the grammar was looked for in vain, with exactly the terminals looked for there. The farthest failure report lists the expectations, each once and in the order met, that were disappointed when the construct read last before them ended farthest in the text; its line, column and byte offset are the start of that construct, and the text it quotes stands there. Lines, columns and offsets agree with the text.",
 ["inputs","programs"],"every rejected text: every truncation and corruption of every configuration",
 "The tests check the message of some 20 short texts; the place depends on the whole history of attempted alternatives.",
 ["parse_error_helper.go","logstash_config.go","logstash_config.peg"],[("fatalError","parse_error_helper.go"),("pushError keeps the farthest failure","parse_error_helper.go")],["error of config.Parse","config.GetFarthestFailure","mustache check output"],
 [("farthest failure","messages with the greatest end offset seen by the current parse","parse_error_helper.go")])
p("C05","Formatting never changes the meaning of a configuration",
 "For every accepted text, the formatted text is accepted again and means the same: same sections per type in the same order, same plugins, branches, conditions, attributes and values, strings, regular expressions and selectors byte for byte, numbers with the same double value. Only white space, the relative order of sections of different types, comments in exceptional places and empty else blocks may differ.",
 ["inputs","programs"],"every accepted text, in particular strings, regular expressions and selectors holding quotes, slashes, brackets, comment signs, escapes and line breaks at any nesting depth, and every number",
 "Tests format a handful of files; indentation works on the printed text, so any literal in any nesting can be damaged.",
 ["ast/ast.go","ast/ast_helper.go"],[("String/ValueString methods","ast/ast.go"),("prefix: line-wise indentation that must keep literals intact","ast/ast_helper.go")],["ast.Config.String","mustache format","mustache lint --auto-fix-id"])
p("C06","Formatting gives one standardized, stable layout",
 "The formatted text is determined by the tree alone: two blanks per nesting level, one attribute, element or entry per line, sections grouped as input, filter, output, a blank line between siblings of a block and between comments as recorded, line breaks inside literals untouched. Texts that differ only in white space format to the same text, apart from the recorded blank lines around comments, formatting a formatted text changes nothing, and printing changes nothing in the tree.",
 ["inputs","programs","histories"],"every accepted text and every second formatting of a result",
 "Idempotence and layout are only tested on the given files; interactions of comments, blank lines, nesting and multi-line literals are unbounded.",
 ["ast/ast.go","ast/ast_helper.go","logstash_config_helper.go"],[("prefix","ast/ast_helper.go"),("blank line rules in String methods","ast/ast.go"),("comment/commentBlock: space before and after","logstash_config_helper.go")],["ast.Config.String","mustache format"])
p("C07","Comments in regular places are never lost",
 "Every comment before a section, plugin, branch, else-if or else block, attribute, array element or hash entry, or before the closing bracket of one of these blocks, or at the end of a configuration with sections, is in the tree at that node with its text (surrounding blanks removed) and order. Formatting writes each of them once, at the same node and in the same order.",
 ["inputs","programs"],"every accepted text with any number of comments in any gap, with any spacing, CRLF or LF, with quotes, brackets or comment signs in their text",
 "Tests have a comment in each kind of place once; several comments, blank lines, line endings and combinations of places are not covered.",
 ["logstash_config_helper.go","ast/ast.go","ast/ast_helper.go"],[("comment and commentBlock","logstash_config_helper.go"),("comment printing","ast/ast.go")],["Comment, CommentBlock and FooterComment of the nodes","mustache format"])
p("C08","Each comment in an exceptional place is warned about",
 "With ExceptionalCommentsWarning, the warnings of a parsed configuration are exactly one for each gap in which comments are allowed but are not kept (around arrows, operators, parentheses, commas, between name and brace and so on) and that holds a comment, in the order of the text, each naming the position of that gap. Without the option there are none, and the option changes nothing else.",
 ["inputs","programs"],"every accepted text with comments in any subset of all gaps, including gaps the parser visits several times while backtracking",
 "The test has one warning per place; backtracking over conditions can lose or repeat warnings only in combinations.",
 ["logstash_config_helper.go","logstash_config_options.go","logstash_config.go","internal/app/lint/lint.go"],[("warnComment with parser state restored on backtracking","logstash_config_helper.go"),("retConfig","logstash_config_helper.go")],["ast.Config.Warnings","mustache lint"])
p("C09","Parse options change only what they are for",
 "IgnoreComments removes the comments from the result and changes nothing else; ExceptionalCommentsWarning only adds warnings; AllowInvalidUTF8 only admits invalid bytes; Memoize, Statistics, Debug and a sufficient MaxExpressions change no result (Memoize may lose warnings, a known finding), an exceeded MaxExpressions is an error, and Recover only decides whether a panic of an action is returned as error or reaches the caller. An option given to one call has no effect on any other call.",
 ["inputs","configurations","histories"],"every text and every combination and order of options, over any history of calls",
 "Tests use one option at a time on a few texts.",
 ["logstash_config_options.go","logstash_config.go","logstash_config_helper.go"],[("options stored per parser","logstash_config_options.go"),("memoization and state restoration","logstash_config.go")],["config.Parse with options"])
p("C10","Parses do not influence each other",
 "The result of a parse depends only on its text and options: neither earlier parses nor parses running at the same time in other goroutines change its tree, its error or its warnings, and none of them crashes. GetFarthestFailure reports a failure of one single parse, of the latest one if parses do not overlap, and, once a parse has begun to read its text, nothing left over from an earlier parse.",
 ["schedules","histories"],"every interleaving of concurrent parses and calls of GetFarthestFailure, and every history of parses",
 "The tests parse one text after the other in one goroutine.",
 ["parse_error_helper.go","logstash_config_helper.go","logstash_config.go"],[("failure list per parser, published under a lock","parse_error_helper.go"),("reset at the start of a parse","logstash_config_helper.go")],["config.Parse in goroutines","config.GetFarthestFailure"],
 [("published failure","failure list of the latest reporting parser","parse_error_helper.go")])
p("C11","Any bytes give a value or an error, never a crash",
 "For every byte sequence, parsing ends with a configuration or with an error, without a panic reaching the caller and in time proportional to a low power of the length; a returned configuration can always be printed and walked without a panic, in such a time as well.",
 ["inputs"],"every byte sequence, including invalid UTF-8, NUL and control characters, very long tokens, long documents and deep nesting",
 "Tests hold only short well-formed or nearly well-formed texts.",
 ["logstash_config.go","logstash_config_helper.go","parse_error_helper.go","ast/ast.go"],[("panic recovery of the parser","logstash_config.go"),("type switches in the actions","logstash_config_helper.go")],["config.Parse","config.ParseReader","ast.Config.String"])
p("C12","The plugin walk visits each plugin once and edits exactly",
 "ApplyPlugins calls the function once for each plugin that is in the tree when the walk starts, in document order through all branches, with a cursor that names that plugin, its list and its index, also after edits in the same call. Replace, Delete, InsertBefore and InsertAfter change exactly the named place of the list, inserted and replacing nodes are not visited, and the returned tree holds all edits and everything else unchanged.",
 ["programs","histories"],"every tree of plugins and branches, and every sequence of cursor operations at every visited plugin",
 "Tests apply one operation to all plugins of one small tree.",
 ["ast/astutil/apply.go"],[("iterator with index and step","ast/astutil/apply.go"),("Cursor operations","ast/astutil/apply.go")],["astutil.ApplyPlugins","astutil.Cursor"],
 [("iter","index of the current plugin and distance to the next","ast/astutil/apply.go")])
p("C13","Unescape is the exact inverse of Escape",
 "For every valid UTF-8 text, Unescape(Escape(x)) = x, and Escape(x) holds no bare quote, line feed, carriage return or tab. Unescape replaces exactly the documented escape sequences, from left to right, and leaves everything else, such as unknown sequences and a lone backslash at the end, unchanged.",
 ["inputs"],"every text over quotes, backslashes, control characters, letters and multi-byte characters",
 "Tests hold a dozen samples.",
 ["ast/astutil/escape.go"],[("Escape, Unescape","ast/astutil/escape.go")],["astutil.Escape","astutil.Unescape"])
p("C14","Quoted values are valid Logstash strings",
 "Quote returns a text if and only if value between the quotes (or alone, as bareword) is one Logstash string token whose content is the value, and an error otherwise. QuoteWithEscape always returns one valid string token of the asked type whose content is the value with backslashes added before bare quotes only (double and single quoted), or the value with other characters replaced by underscores one for one (bareword).",
 ["inputs"],"every valid UTF-8 text and every quote type; for QuoteWithEscape except those texts no token can represent (recorded as known findings)",
 "Tests hold six samples for each function, none with a quote at the second place or a backslash at the end.",
 ["ast/astutil/quote.go","ast/ast.go"],[("Quote, QuoteWithEscape, escapeQuotes, escapeBareword","ast/astutil/quote.go")],["astutil.Quote","astutil.QuoteWithEscape"])
p("C15","Lint reports exactly the plugins with missing or repeated ids",
 "For each file, mustache lint without auto-fix reports every plugin of every section and branch that has no id of string type, and every plugin whose id was already used by an earlier plugin of the same file (in the order of the tree: input, filter and output sections), with its name and position, and no other plugin; files do not influence each other, no file is changed, and the exit status is zero exactly if there is nothing to report in any file.",
 ["inputs","programs","configurations"],"every set of files, all nestings of branches, all combinations of present, missing, repeated, quoted and non-string ids",
 "There are no tests of the lint command.",
 ["internal/app/lint/lint.go","ast/ast.go","ast/astutil/apply.go"],[("validator.walk","internal/app/lint/lint.go"),("Plugin.ID","ast/ast.go")],["mustache lint: output, exit status, files"])
p("C16","Lint auto-fix gives every plugin a unique id and changes nothing else",
 "After mustache lint --auto-fix-id, every plugin that had no id has exactly one new string id, different from every other id in the file; everything else in the configuration means the same as before and the result is a valid configuration in standardized layout. A file in which no id is missing is left untouched, and a second run changes nothing and reports no missing id.",
 ["inputs","programs","histories"],"every valid configuration, all combinations of present and missing ids, plugin names and existing ids, repeated runs",
 "There are no tests of the lint command.",
 ["internal/app/lint/lint.go","ast/ast.go"],[("validator.walk, newID","internal/app/lint/lint.go"),("Cursor.Replace","ast/astutil/apply.go")],["the files after mustache lint --auto-fix-id"])
p("C17","mustache reports the truth for every list of files",
 "mustache check and lint examine every file given, in order, whatever is wrong with the others, and report each file that is missing, unreadable or not valid exactly once with its own name and reason; mustache format writes the formatted text of each file in order up to the first file in error and reports that one. The exit status is zero exactly if there was nothing to report; directories are skipped.",
 ["inputs","configurations","histories","fault_sequences"],"every list of files: valid, invalid, empty, missing, unreadable, directories, repeated, in every order",
 "There are no tests of the commands.",
 ["internal/app/check/check.go","internal/app/format/format.go","internal/app/lint/lint.go","internal/app/app.go","internal/format/multierr.go","cmd/mustache/main.go"],[("Run loops","internal/app/*/*.go"),("multi error format","internal/format/multierr.go"),("exit code","internal/app/app.go")],["exit status, stdout and stderr of mustache"])
p("C18","mustache changes only the files it is told to change",
 "check, lint without auto-fix and format without write-to-source change no file. format --write-to-source replaces each valid file given by exactly its formatted text, and lint --auto-fix-id replaces only valid files in which an id is missing; a file that cannot be read or is not valid, and every file after the first failing one for format, keeps its bytes, and no other file is created, changed or removed. Files keep their permissions, and files that are reached by symbolic or hard links are written through them.",
 ["inputs","histories","configurations","fault_sequences"],"every sequence of mustache commands over every set of files",
 "There are no tests of the commands.",
 ["internal/app/format/format.go","internal/app/lint/lint.go","internal/app/check/check.go"],[("parse before os.Create","internal/app/format/format.go, internal/app/lint/lint.go")],["directory contents before and after each command"])
p("C19","Trees built by hand print as the configuration they describe",
 "For every tree built with the constructors of package ast from valid names and values, printing it (or any plugin or branch of it) gives the standardized text of that tree; parsing that text gives the same tree again. Absent (nil) attributes, plugins, branches and expressions are skipped. (Not held to this: an array of one element as operand of a condition, which reads back as selector, a known finding, and an else block of nothing but absent nodes.)",
 ["programs"],"every tree over all node types, nesting and value types, with and without comments and absent elements",
 "Tests print a few fixed trees.",
 ["ast/ast.go","ast/ast_helper.go"],[("constructors and String methods","ast/ast.go"),("prefix","ast/ast_helper.go")],["String and ValueString of the nodes"])
p("C20","Every way in gives the same result",
 "Parse, ParseReader and ParseFile give the same result for the same bytes and options, in whatever pieces (single bytes, parts of a character, empty reads, the end together with the last bytes) a reader or file delivers them and however long the text is: the whole text is parsed, as prescribed for it. If the reader fails, or the file cannot be opened or read, the result is that error and no configuration. The file name occurs as given in front of each place an error names and has no other effect. Afterwards no file is left open or changed, the bytes given are unchanged, and changing them later does not change the result.",
 ["inputs","histories","fault_sequences"],"every text, every way a reader can deliver it or fail, every kind of file (regular, pipe, directory, missing), every file name, short and very long texts",
 "Tests call Parse with whole short texts and ParseFile with no file at all; how a reader delivers its bytes, fails or ends is a history.",
 ["logstash_config.go"],[("ParseFile, ParseReader, Parse","logstash_config.go"),("prefix of the errors","logstash_config.go")],["results of config.Parse, config.ParseReader, config.ParseFile","open files of the process"])
p("C21","Plugin.ID gives the id a plugin has",
 "For every plugin, parsed or built by hand, ID returns the value of its first attribute with the name id (quoted or not), if that is a string; otherwise an error and an empty id. IsNotFoundError tells exactly the errors of plugins without an attribute of that name, also if they are wrapped. Absent attributes, other attributes, similar names and ids inside of values do not matter, and nothing is changed.",
 ["inputs","programs"],"every list of attributes: all names, types of values, orders, repetitions and absent attributes",
 "Tests ask two plugins for their ids.",
 ["ast/ast.go","ast/errors.go"],[("Plugin.ID","ast/ast.go"),("NotFounder, IsNotFoundError","ast/errors.go")],["ast.Plugin.ID","ast.IsNotFoundError"])
p("C22","A parsed configuration can be edited and printed",
 "A configuration that was read can be changed: plugins deleted, replaced, inserted or changed while walking over them, attributes, elements, entries, conditions and their operators, blocks, sections and comments added, replaced or removed, with nodes that were read from other texts. After any sequence of such changes it prints the standardized text of exactly the changed configuration, and that text reads as the changed configuration with its comments. Nothing else changes: what was not edited stays as it was, and another result of parsing the same text is not affected.",
 ["inputs","histories","programs"],"every valid configuration and every sequence of edits of it, everywhere in the tree",
 "Tests edit two fixed lists of plugins and print fixed trees; edits in sequence on parsed trees (shared storage, left-over state, comments that move with their nodes) are histories.",
 ["ast/ast.go","ast/ast_helper.go","ast/astutil/apply.go","logstash_config_helper.go"],[("ApplyPlugins, Cursor","ast/astutil/apply.go"),("constructors of the parser","logstash_config_helper.go"),("String methods","ast/ast.go")],["ast.Config after edits: String, Parse of what it prints"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S)
print(len(P))
