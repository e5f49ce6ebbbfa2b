import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=[],observe=[]):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
p("C01","Tokens carry the right kind, source offset and source text",
 "Every token of a LaTeX source carries the byte offset at which it starts and the source text it covers, and its kind is decided by how it starts: letters make a word, digits a number, a backslash a macro (or, before a blank, one escaped-space token), a percent sign a comment that runs to the end of its line, and each brace, bracket, parenthesis, blank and symbol character a token of its own kind. A comment's text keeps every character of the line except carriage returns and the line end, and blanks inside it are kept. End of input is reported exactly when the input is exhausted.",
 ["inputs"],"for every source text, and every token of it",
 "the scanner test covers one hand-written expression; the property ranges over all texts and all token classes (comments with blanks, escaped blanks, quoted text, every symbol character)",
 ["scanner.go","token/token.go"],[("character-class dispatch and token construction","scanner.go scan"),("macro and comment scanning","scanner.go scanMacro, scanComment")],
 [("tok","most recently scanned token","scanner.go texScanner")],["latex.ParseExpr positions","internal token stream"])
p("C02","Parsing keeps every construct exactly once, in source order",
 "The tree returned for an expression, and the contents of every math expression, brace group, argument and script in it, list the parsed constructs of the corresponding source range once each and in source order: words, numbers, symbols, macros and groups are kept with their text, comments leave nothing, and nothing is added. A sub- or superscript holds the braced list, or else the first construct that follows it after any blanks and comments.",
 ["inputs"],"for every expression the parser accepts, at any nesting depth and group length",
 "parser tests compare a few dozen short trees; dropping, duplicating or reordering only shows for particular neighbours (comments inside groups, empty groups, long lists)",
 ["parser.go"],[("node loops of groups","parser.go parse, parseMathExpr, parseMacroArg, parseOptMacroArg, parseMathLbrace"),("script parsing","parser.go parseSup, parseSub"),("dispatch on token kind","parser.go parseNode")],[],["latex.ParseExpr"])
p("C03","Math mode holds exactly between its delimiters",
 "Between the delimiters of a math expression blanks are dropped and braces form groups; once the expression is closed the parser is back in the mode in force before it opened, so that blanks outside math are kept as symbols and nested or successive expressions do not affect one another. The expression ends at the first matching closing delimiter at its own nesting level.",
 ["inputs"],"for every expression and every nesting of math, macros, arguments and scripts",
 "mode leakage only shows in text following particular nestings; tests have a handful of single-formula inputs",
 ["parser.go"],[("mode saved and restored around a math expression","parser.go parseMathExpr"),("mode-dependent treatment of blanks and braces","parser.go parseNode")],[("state","current mode (text or math)","parser.go parser")],["latex.ParseExpr"])
p("C04","Macro arguments follow the macro's declared signature",
 "A known macro yields a node with its name and position and one argument per slot of its signature, in order: each mandatory slot a braced argument, each optional slot a bracketed argument present exactly when an opening bracket immediately follows. Fractions, binomials and stacked relations take two arguments, roots one optional and one mandatory, text and math font switches, custom spaces, operator names and overlines one, and symbol macros none.",
 ["inputs"],"for every macro of the table and every argument content",
 "tests exercise a few macros; the table has about 300 entries and arguments of any length",
 ["macros.go","parser.go"],[("signature interpretation","macros.go builtinMacro.parseMacro"),("argument parsing","parser.go parseMacroArg, parseOptMacroArg"),("macro table","macros.go addBuiltinMacros")],[],["latex.ParseExpr"])
p("C05","Syntax-tree nodes report the source range they cover",
 "Every node starts at the position of its first character: a macro at its name, an argument or math expression at its opening delimiter, a script at its mark, a list at its first element. It ends just after its last character: leaves after their text, a macro after its last argument or else its name, an argument or math expression just after its closing delimiter, a script where its script ends, and a list where its last element ends; an empty list has no position (-1).",
 ["inputs"],"for every syntax tree, of any depth",
 "tests only check start positions of a dozen nodes and discard the end positions",
 ["ast/ast.go"],[("Pos and End of each node type","ast/ast.go")],[],["ast.Node.Pos","ast.Node.End"])
p("C06","Scanning and parsing always terminate",
 "For every input, tokenising stops at the end of the input and parsing finishes after consuming each token at most once: every loop and every recursive descent consumes at least one further token, and none of them can spin at the end of the input.",
 ["inputs"],"for every input text, well formed or not",
 "a test can only show that the inputs it runs terminate",
 ["parser.go","scanner.go","macros.go"],[("token consumption in every loop","parser.go"),("comment loop stops at end of input","scanner.go scanComment")],[],["latex.ParseExpr"])
p("C07","Malformed expressions give an error, never a crash",
 "For every expression, parsing and typesetting return either a result and no error, or an error and no result; they never panic. Unknown macros, unclosed groups, stray closing delimiters, missing arguments and unsupported constructs are reported as errors.",
 ["inputs"],"for every input text, backend, size and resolution",
 "existing tests contain no malformed input at all",
 ["parser.go","mtex/parser.go"],[("panics converted into errors","parser.go ParseExpr; mtex/parser.go Parse"),("unclosed groups rejected","parser.go nextIn")],[],["latex.ParseExpr","mtex.Parse"])
p("C08","Tree traversal is depth-first, ordered and balanced",
 "Walking a tree calls the visitor on a node first, then, if the visitor returns a non-nil visitor, walks its non-nil children in source order with that visitor, and finally calls that visitor once with nil; if it returns nil the subtree is skipped and no closing call is made. A macro's children are its name and its arguments, and inspection with a function follows the same order, descending exactly when the function returns true.",
 ["inputs"],"for every tree and every visitor behaviour",
 "tests walk three fixed trees with one visitor that always descends",
 ["ast/walk.go"],[("recursive traversal","ast/walk.go Walk, walkNodes"),("function adapter","ast/walk.go inspector, Inspect")],[],["ast.Walk","ast.Inspect"])
p("C09","Printing shows every node of a tree, once and in order",
 "The printed form of a tree is determined by the tree alone: each node type has its own prefix and brackets, texts are quoted, the children of lists, arguments, math expressions and macros appear in order separated by a comma and a blank, the arguments of a macro are shown only when it has some, and a missing node prints as <nil>.",
 ["inputs"],"for every tree of any depth and width",
 "tests print a dozen fixed trees, none with nested lists of more than two elements",
 ["ast/ast.go"],[("recursive printer","ast/ast.go Print")],[],["ast.Print"])
p("C10","Horizontal packing computes the box from its contents",
 "Packing a horizontal list makes its height and depth the largest height and depth over its children (never below zero), where a list child counts with its shift (height minus shift, depth plus shift) and a child with a running height or depth does not count. Its width is exactly the requested width, or in additional mode the sum of the children's widths plus the requested amount.",
 ["inputs"],"for every list of children of any kinds and number, every width and mode",
 "tests pack two or three fixed lists; dimensions depend on every child kind, running rules and shifts",
 ["tex/box.go"],[("per-node contributions","tex/box.go hpackDims of each node type"),("accumulation","tex/box.go HPack")],[],["tex.HListOf","(*tex.HList).HPack"])
p("C11","Vertical packing computes the box from its contents",
 "Packing a vertical list stacks its children: the natural height is the sum of the children's heights plus the depths of all but the last, glue and kerns counting as height with no depth, the depth is that of the last child, limited to the given maximum with the excess moved into the height, and the width is the largest child width (at least zero), a list child counting with its shift and a child with running width not at all. The height is exactly the requested height, or in additional mode the natural height plus the requested amount.",
 ["inputs"],"for every list of children, every height, mode and depth limit",
 "tests pack a couple of fixed lists",
 ["tex/box.go"],[("per-node contributions","tex/box.go vpackDims of each node type"),("accumulation and depth limit","tex/box.go VPack")],[],["tex.VListOf","(*tex.VList).VPack"])
p("C12","Glue absorbs the difference between requested and natural size",
 "When the packed size differs from the natural size, the list stretches if it must grow and shrinks if it must be smaller, using only the highest order of infinity whose total stretch (or shrink) over the children is not zero, and the glue ratio is the missing amount divided by that total; if no glue is available the sign is normal. When the sizes agree the glue is left at its natural size, with sign and order zero.",
 ["inputs"],"for every list of children with any mix of glue orders, in both directions",
 "tests look at one stretched and one shrunk list with a single glue order",
 ["tex/box.go"],[("order selection","tex/box.go determineOrder"),("glue setting","tex/box.go setGlue, HPack, VPack"),("glue totals","tex/box.go (*Glue).hpackDims, vpackDims")],[("glue.set/sign/order","glue setting of a packed list","tex/box.go List")],["GlueSet, GlueSign, GlueOrder of packed lists"])
p("C13","Kerning is inserted between the right neighbours and nowhere else",
 "Building a kerned horizontal list keeps every element in order and inserts after an element exactly one kern, of that element's kerning with its right neighbour, whenever it is not zero; the last element is kerned against nothing. The kerning of a character is its advance minus its width plus the font's pair kerning with a following character or accent; every other node has none, and without kerning the elements are kept as given.",
 ["inputs"],"for every list of elements and every metrics and kerning table",
 "tests have two characters and one kern",
 ["tex/box.go"],[("kern insertion","tex/box.go (*HList).kern, HListOf"),("kerning of each node type","tex/box.go Kerning methods")],[],["tex.HListOf"])
p("C14","Shrinking and growing scale a whole subtree, down to a smallest size",
 "Shrinking a node scales its dimensions (and, for characters, its font size; for lists, the shift and the glue set of the list and, first, every child) by the shrink factor until the smallest size level is reached, after which dimensions no longer change; growing scales by the inverse factor without limit and steps the level back. Every child of a list is shrunk or grown exactly once, and an accent's dimensions are recomputed from its scaled font.",
 ["inputs","histories"],"for every node, every subtree and every sequence of shrink and grow steps",
 "tests shrink at most twice, never reach the smallest level and look at leaves only",
 ["tex/box.go"],[("Shrink and Grow of each node type","tex/box.go")],[("size","size level of a node","tex/box.go Box, Char, Glue, Kern")],["Shrink, Grow and the dimensions after them"])
p("C15","Shipping a horizontal list places every child at its TeX position",
 "Shipping out a horizontal list visits its children in order on one baseline: each character or accent is drawn once at the current point and advances it by its width, kerns and empty lists just advance, a nested list is drawn with its own baseline moved by its shift and then the point continues after its width on the original baseline, and glue advances by its width plus its share of the list's glue, rounded cumulatively and applied only when its order is the list's. A rule is drawn once, when its height and width are positive, from a baseline lowered by its depth, with a running height or depth replaced by that of the list.",
 ["inputs"],"for every box tree, origin and glue setting, at any nesting depth",
 "the Ship test checks that a couple of trees do not crash; positions are never compared",
 ["tex/box.go"],[("horizontal output","tex/box.go (*Ship).hlistOut"),("origin set-up","tex/box.go (*Ship).Call"),("glyph and rule drawing","tex/box.go Render, render")],[("cur.h, cur.v","current point","tex/box.go Ship")],["calls on font.Backend"])
p("C16","Shipping a vertical list stacks every child from the top edge",
 "Shipping out a vertical list starts at its top edge and moves down child by child: kerns and glue advance by their (set) size, an empty list by its height plus depth, and a nested list is drawn below the point by its own height, with its left edge moved by its shift and the width of the enclosing list, after which the point is lowered by its depth and the left edge restored. A rule is drawn once when it has a positive total height and depth, with a running width replaced by that of the list, and characters directly in a vertical list are refused.",
 ["inputs"],"for every box tree, origin and glue setting, at any nesting depth",
 "no test compares positions of vertical material",
 ["tex/box.go"],[("vertical output","tex/box.go (*Ship).vlistOut")],[("cur.h, cur.v","current point","tex/box.go Ship")],["calls on font.Backend"])
p("C17","List constructors copy their input and keep its order",
 "Building a list from a slice of nodes leaves the caller's slice untouched and does not share it: later changes to the slice do not change the list, nor the other way round. A centred list holds its elements in order between one leading and one trailing infinitely stretchable and shrinkable glue.",
 ["inputs","histories"],"for every slice, of any length and spare capacity",
 "aliasing only shows when the caller's slice is modified or has spare capacity, which no test does",
 ["tex/box.go"],[("copying constructors","tex/box.go ListOf, HListOf, VListOf, HCentered, VCentered")],[],["tex.ListOf, HListOf, VListOf, HCentered, VCentered"])
p("C18","Character boxes take their dimensions from the font metrics",
 "A character's height is its font's ascent above the baseline, its depth the glyph height below the baseline, and its width the glyph width, except for the blank, which takes its advance; an accent takes its ink rectangle and no depth. Metrics are looked up with the character's own text, font, resolution and math flag, and drawing uses the same text, font and resolution, accents being offset by their ink rectangle.",
 ["inputs"],"for every text, font state and metrics",
 "tests use one pre-generated metrics table and a few letters",
 ["tex/box.go","tex/state.go"],[("metrics lookup","tex/box.go NewChar, NewAccent, updateMetrics"),("drawing","tex/box.go (*Char).Render, (*Accent).Render")],[],["tex.NewChar, tex.NewAccent"])
p("C19","Sized delimiters reach the requested height and depth",
 "A delimiter sized to a height and depth is set at the font size scaled by their sum over the natural height plus depth of the character (or by an explicitly given factor), and shifted down so that its depth meets the requested depth. Delimiters around material are sized to the largest height and depth of that material, stand to its left and right with the material unchanged and in order between them, and a dot stands for no delimiter.",
 ["inputs"],"for every symbol, font, height, depth and material",
 "reached by tests only through two binomials",
 ["tex/box.go","mtex/parser.go"],[("sized character","tex/box.go AutoHeightChar"),("sized delimiters","mtex/parser.go autoSizedDelimiter")],[],["tex.AutoHeightChar","mtex.Parse"])
p("C20","Typesetting covers every construct, in order, in its own style",
 "Typesetting an expression turns each word, number, symbol, group and macro of it into boxes exactly once and in source order: a word becomes one list with one character per letter, a number one box per digit, a macro the boxes of its own handler. Math material is set in the math font and treated as math, and after a math expression the surrounding font and mode are back in force.",
 ["inputs"],"for every expression, size, resolution and backend",
 "tests compare the overall width of about fifteen expressions",
 ["mtex/parser.go"],[("tree visitor","mtex/parser.go (*visitor).Visit, handleNode"),("handler selection","mtex/parser.go (*parser).handler")],[],["mtex.Parse"])
p("C21","Fractions stack numerator, rule and denominator correctly",
 "A fraction is a vertical list of the numerator, a gap, the rule, a gap and the denominator, with numerator and denominator centred to the larger of their two widths, shrunk one level except in display style, and the rule on the axis of the equals sign, followed by a small space. The ordinary, display and text fractions draw a rule of the line thickness; a binomial has no rule and is enclosed in parentheses sized to it.",
 ["inputs"],"for every numerator, denominator, font state and backend",
 "tests check total widths of two binomials and one fraction",
 ["mtex/parser.go"],[("fraction layout","mtex/parser.go genfrac"),("variants","mtex/parser.go handleFrac, handleDFrac, handleTFrac, handleBinom")],[],["mtex.Parse"])
p("C22","Roots and overlines enclose their body",
 "An overline or a root puts a rule of the line thickness above its body, separated by stretchable space, in a box whose depth allowance is that of the body and whose height leaves a fixed clearance above it. A root places a root sign sized to the body plus clearance to the left of the padded body, preceded by its index, shrunk twice and raised, or by an empty space of half the sign's width, and pulled back over the sign by that half width.",
 ["inputs"],"for every body, index, font state and backend",
 "tests check total sizes of a few roots; overlines are not compared",
 ["mtex/parser.go"],[("root layout","mtex/parser.go handleSqrt"),("overline layout","mtex/parser.go handleOverline")],[],["mtex.Parse"])
p("C23","Operators, punctuation and spaces get their prescribed spacing",
 "Binary operators, relations and arrows are surrounded by a fifth of an em on both sides, except a binary operator that follows an opening brace or delimiter; a dot is followed by a fifth of an em unless it stands between two digits, and every other symbol gets no space. A spacing command inserts a kern of its prescribed fraction of the width of an m in the math font, and a custom space its given multiple; function names are set in roman.",
 ["inputs"],"for every expression context, symbol and font state",
 "tests sample about five symbols in one context each",
 ["mtex/parser.go","mtex/symbols/symbols_gen.go"],[("symbol spacing","mtex/parser.go handleSymbol"),("space widths","mtex/parser.go handleSpace, handleCustomSpace, makeSpace, spaceWidth"),("function names","mtex/parser.go handleFunction")],[],["mtex.Parse"])
p("C24","Rendering ships the typeset box once onto a page that fits it",
 "Rendering parses the expression at 72 dots per inch with the given fonts, ships the resulting box once at the origin, and hands the renderer the recorded drawing with a page as wide as the box and as high as the box's height plus depth rounded up to a whole point, in inches, at the requested resolution. A parse error or a renderer error is returned (wrapped), and nothing is rendered after a parse error.",
 ["inputs","fault_sequences"],"for every expression, size, resolution, font set and renderer outcome",
 "tests use one renderer that never fails and ignores the page size",
 ["mtex/render.go"],[("rendering pipeline","mtex/render.go Render")],[],["mtex.Render"])
p("C25","Glyph metrics scale with the font size and do not depend on history",
 "The TrueType backend reports for a symbol, font, resolution and math flag metrics that scale the glyph's advance and ink rectangle to the font size, with ascent, width and height consistent with the ink rectangle; asking again, in any order and with other requests in between, gives the same answer. Line thickness is proportional to font size and resolution, the x-height is that of the face serving the font, at its size and resolution, and pair kerning is zero unless both symbols share font name and size.",
 ["inputs","histories"],"for every symbol, font, resolution and every sequence of earlier requests",
 "tests query a few glyphs once on a fresh backend",
 ["font/ttf/ttf.go"],[("metrics computation and cache","font/ttf/ttf.go getInfo"),("kerning","font/ttf/ttf.go Kern"),("thickness","font/ttf/ttf.go UnderlineThickness")],[("glyphs","cache of computed glyph data","font/ttf/ttf.go Backend")],["ttf.Backend methods"])
p("C26","Each symbol maps to its character and font face",
 "In math a symbol maps to its Unicode character: the hyphen to the minus sign, any other single byte to itself, a macro name to its table entry; in text the first character stands for itself, and anything unknown is refused. Only letters are set in italics in the italic face, everything else below the supplementary planes falling back to roman, and a glyph is drawn from the same face, character and metrics it was measured with.",
 ["inputs"],"for every symbol, font class and mode",
 "tests sample about forty table entries and no font selection",
 ["internal/tex2unicode/utf8.go","font/ttf/ttf.go"],[("symbol table","internal/tex2unicode/utf8.go Index, HasSymbol, Symbols"),("face selection","font/ttf/ttf.go getGlyph, NewFrom, RenderGlyph")],[],["tex2unicode.Index","ttf.Backend"])
p("C27","Drawing operations are recorded and replayed faithfully, in order",
 "The canvas records every glyph and rectangle drawn on it once, in order, with its exact coordinates and glyph data, and returns that sequence. The image renderer draws each of them in that order, scaling coordinates by the resolution over 72, with the glyph's own font and size on a picture of the requested size, and reports the encoder's error; the PDF writer refuses no recorded operation and reports the output error.",
 ["inputs","fault_sequences"],"for every sequence of drawing operations, resolution and page size",
 "image tests compare a few golden pictures",
 ["drawtex/canvas.go","drawtex/drawimg/drawimg.go","drawtex/drawpdf/drawpdf.go"],[("recording","drawtex/canvas.go"),("replay","drawtex/drawimg/drawimg.go; drawtex/drawpdf/drawpdf.go")],[("ops","recorded operations","drawtex/canvas.go Canvas")],["drawtex.Canvas.Ops","drawimg.Renderer.Render"])
p("C28","Symbol sets are true sets and spaced symbols their union",
 "A set built from strings contains exactly those strings, the union of sets contains exactly the strings in at least one of them and leaves them unchanged, and the listing of a set has each element exactly once in sorted order. A symbol is spaced exactly when it is a binary operator, a relation or an arrow.",
 ["inputs"],"for every collection of strings and sets, and every string",
 "one test looks up a few members",
 ["mtex/symbols/set.go","mtex/symbols/symbols.go"],[("set operations","mtex/symbols/set.go"),("spaced symbols","mtex/symbols/symbols.go")],[],["symbols.NewSet, UnionOf, Has, Keys, IsSpaced"])
p("C29","Every token kind has its own name",
 "The name of each declared token kind is its identifier, and any other value of the type is named by its number; asking for a name never fails. A token prints as its text.",
 ["inputs"],"for every integer value of the kind type",
 "the test asks for one kind",
 ["token/kind_string.go","token/token.go"],[("name table","token/kind_string.go")],[],["token.Kind.String"])
p("C30","Parsing and typesetting keep no state between calls",
 "Parsing, typesetting, packing, shipping and rendering never modify package-level data: they leave every package-level variable and table as it was, so results depend only on the arguments and calls on distinct inputs and backends cannot disturb one another.",
 ["histories","schedules"],"for every sequence or interleaving of calls on distinct values",
 "tests run calls in one fixed order and cannot see a shared table being modified",
 ["parser.go","macros.go","mtex/parser.go","mtex/macros.go","tex/box.go","mtex/symbols/set.go","font/ttf/ttf.go"],[("per-call parser state","parser.go newParser; mtex/parser.go newParser"),("read-only tables","macros.go; mtex/macros.go; internal/tex2unicode/utf8.go; mtex/symbols")],[],["package-level variables"])
p("C31","Bundled font families give each style its own face",
 "Each bundled font family returns the same font set on every call, with the regular, italic, bold and bold-italic styles each coming from that family's matching typeface and the default being the regular one. A backend created without fonts uses the built-in family the same way, and a backend created with fonts serves each font class from the matching face of that set.",
 ["inputs","histories"],"for every family, style and sequence of calls",
 "no test looks at which face a style is served from",
 ["font/lm/lm.go","font/liberation/liberation.go","font/ttf/ttf.go"],[("family construction","font/lm/lm.go Fonts; font/liberation/liberation.go Fonts"),("class table","font/ttf/ttf.go New, NewFrom")],[],["lm.Fonts, liberation.Fonts, ttf.New"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
