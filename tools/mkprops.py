#!/usr/bin/env python3
"""Writes ../properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe or ["drawing operators of the emitted PDF"], "hook_needed": None}
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Body text is conserved: every word once, in order, on the page",
 "Every word of the body's texts, boxes, paragraphs and table cells appears in the PDF exactly once, in document order, inside the page and not painted over by what is drawn later, and nothing else appears. Pages never go backwards. A word is divided only in block alignment, only at a line end, with a trailing hyphen, and its pieces concatenate to the word.",
 ["inputs"], "all documents of texts, boxes, tables (with spans, without repeated header rows), paragraphs, line breaks, alignments, fonts and page geometries; words narrower than the page and, in tables, rows that fit on a page and cells whose row height covers their boxes",
 "The tests contain no end-to-end rendering at all; a lost, repeated or reordered word depends on how line breaks, hyphenation, page breaks and spans coincide.",
 ["text.go", "text-hyph.go", "process.go", "table.go", "text/text.go", "engine/fpdf.go"],
 [("line building", "text.go:textLines, text-hyph.go:textLinesHyphenated"), ("writing", "text.go:writeText, text-hyph.go:writeTextHyphenated"), ("cells", "table.go:renderTable, renderCell"), ("engine text", "engine/fpdf.go:WriteText")])

prop("C02", "A font or style applies to its own scope and never leaks",
 "A font instruction applies to everything after it in the same section; the font, size, decoration and text color set on a text, paragraph, box, table, row, cell or by header or footer apply to that element's content only. What follows is drawn in the style in force before that element, on the same and on every later page.",
 ["inputs", "histories"], "all sequences of font instructions and styled elements in body, header and footer, including page breaks in between",
 "Leaks depend on the sequence of elements (and on page breaks invoking header and footer in between); no existing test renders a document.",
 ["process.go", "text.go", "text-hyph.go", "table.go"],
 [("current style", "process.go:currStyles, changeFont, resetStyles"), ("header/footer save and restore", "process.go:Process"), ("per item font", "text.go:writeText")])

prop("C03", "Style cascade: inherited, then classes in order, then inline",
 "The style of an element is its container's (table to row to cell, text or box or cell to paragraph; the section's font for others), overridden by its classes in the order named, overridden by its inline style, attribute by attribute. For first and last rows and cells a class contributes its matching selector block instead of its base block if it has one (first wins over last); undefined classes and unknown attributes change nothing, and a later definition of a class replaces the earlier one.",
 ["inputs", "configurations"], "all style sheets and class/inline combinations on every kind of element",
 "The tests check a few single declarations; the cascade quantifies over attribute sets, class order, nesting and selectors.",
 ["style/class.go", "style/decode.go", "xdoc/style.go", "table.go", "process.go", "default.go"],
 [("classes", "style/class.go:Mutate, MutateWithSelector, DecodeClasses"), ("element styles", "xdoc/style.go:MutatedStyles"), ("table styles", "table.go:transformTable"), ("defaults", "default.go:DefaultStyle")],
 ["drawing operators of the emitted PDF", "style values returned by the style and xdoc packages"])

prop("C04", "Style declarations set exactly the named attributes or are rejected",
 "Decoding a list of declarations yields a mutation that sets each known attribute to the value its text denotes (last declaration of an attribute wins, in any order and with any white space) and leaves every other attribute untouched. Declarations that are not key:value, numeric values that are missing or not numbers, four-sided values of other than four numbers, and colors other than six hex digits (with or without #) are rejected with an error, never half applied. Style sheets with unbalanced braces, nameless classes or selectors of undefined classes are rejected.",
 ["inputs"], "all declaration strings and style sheets, well formed or not",
 "The tests decode a few well formed strings; parsing must be right for every attribute, value, order and malformation.",
 ["style/decode.go", "style/color.go", "style/box.go", "style/class.go"],
 [("declarations", "style/decode.go:parseRaw, DecodeMutator, makeMutateFnc"), ("colors", "style/color.go:UnmarshalStyle"), ("four sides", "style/box.go:UnmarshalStyle"), ("style sheet", "style/class.go:DecodeClasses")],
 ["return values of the style package", "errors of document loading"])

prop("C05", "Lines are filled greedily and aligned left, center or right",
 "Outside block alignment, words fill each line as long as they, each counted with a leading blank, fit the element's width (the smaller of its declared width and the available width); a line ends only where the next word does not fit or at a line break, and no line is wider than the width unless it holds a single word. Each line starts at the left edge, ends at the right edge or is centered, to within the width of a blank; consecutive lines are one font height times line-spacing apart, and line breaks yield empty lines where nothing stands between them.",
 ["inputs"], "all texts, boxes and cells with left, center or right alignment, widths, line spacings, fonts (core and UTF-8) and font sizes",
 "No test lays out a line; the break decision depends on the measured widths of arbitrary text at arbitrary widths.",
 ["text.go", "process.go", "dim.go", "engine/fpdf.go"],
 [("line breaking", "text.go:textLines"), ("alignment", "text.go:writeText"), ("effective width", "dim.go:EffectiveWidth"), ("line feed", "engine/fpdf.go:LineFeed")])

prop("C06", "Block alignment justifies full lines and hyphenates only at their ends",
 "In block alignment every line but the last of a paragraph (the one before a line break or the end) that has several words starts at the left edge, ends at the right edge and has equal gaps; the last line and single words are set left with normal gaps. A word that does not fit is divided after the longest hyphenation prefix that fits with a hyphen, and is moved to the next line only if none fits.",
 ["inputs"], "all block aligned texts, boxes and cells, all widths and fonts",
 "Justification and division depend on the interplay of widths, hyphenation points and paragraph ends; no test exercises it.",
 ["text-hyph.go", "hyphenation/hyphenation.go"],
 [("hyphenating line builder", "text-hyph.go:textLinesHyphenated"), ("justified writing", "text-hyph.go:writeTextHyphenated")])

prop("C07", "Boxes: position, size, background, borders, padding, page break",
 "A box is as wide as declared (at most the available width) and as high as its text plus padding, or its declared height plus padding (an empty box is one line high); its background fills it, exactly the borders asked for are drawn in its color and line width, its text starts inside the padding, and offsets shift all of this together. What follows continues at the left margin directly below it. A box that would reach the bottom margin is placed on a new page as a whole.",
 ["inputs"], "all boxes: width, height, padding, borders, offsets, line width, colors, content and position on the page",
 "No test renders a box; the geometry must hold for every combination of attributes and cursor positions.",
 ["process.go", "draw.go", "dim.go", "text.go"],
 [("box layout", "process.go:renderTextBox"), ("frame", "draw.go:drawBox"), ("text height", "text.go:textHeight, text-hyph.go:textHeightHyphenated")])

prop("C08", "Table cells with column and row spans tile a consistent grid",
 "Each cell takes the first columns of its row not covered by a row span from above, cells cover exactly the columns and rows they span, and therefore never overlap, share edges with their neighbours and line up with the cells of other rows. A table whose spans tile its rows is drawn as a gap-free rectangle. Short rows leave the rest empty and missing rows demanded by a row span are added.",
 ["inputs"], "all tables with arbitrary column and row spans whose column spans do not run into row spans from above",
 "The span tests cover a handful of small tables; grid consistency quantifies over all arrangements of interacting spans.",
 ["table.go", "xdoc/table.go"],
 [("column spans", "table.go:processColumnSpans"), ("row spans", "table.go:processRowSpans"), ("normalisation", "table.go:normalize"), ("cell extent", "table.go:dim, renderTable")])

prop("C09", "Column widths: explicit widths are kept, the rest is shared equally",
 "A column is as wide as the largest column-width declared in it; the columns without one share the remaining table width equally, so that the columns add up to the table's width (the declared width, at most the available width). The same widths hold in every row and on every page.",
 ["inputs"], "all tables with explicit and automatic columns whose explicit widths do not exceed the table width",
 "No test computes column widths with declared widths over several rows, spans and pages.",
 ["table.go", "dim.go"],
 [("column widths", "table.go:assignColumnWidths"), ("table width", "dim.go:Page.EffectiveWidth")])

prop("C10", "Tables paginate by rows and repeat their header rows",
 "A table row, with the rows spanned by its cells, is never torn: it is moved to a new page when it does not fit above the bottom margin, and stays when it fits. On every page the table continues on, its first repeatheader rows are drawn first, identically; otherwise every row is drawn once and in order. A table whose header rows and first row after them do not fit starts on a new page.",
 ["inputs"], "all tables whose row spans do not interlock and all start positions, repeatheader 0 to 10, rows and header that fit on a page",
 "Page breaks within tables, header repetition and spans are not tested at all.",
 ["table.go"],
 [("pagination", "table.go:renderTable"), ("span height", "table.go:maxCellHeight")])

prop("C11", "Row heights fit all cells and cell content is aligned vertically",
 "A row is as high as its highest cell needs: its declared height, or else its text plus padding, where a cell spanning rows needs the latter in equal shares of them (a declared height counts for its first row). Cell content starts inside the padding at the top, in the middle or at the bottom of the whole (spanned) cell, boxes and images of a cell at its left edge.",
 ["inputs"], "all cells: contents, alignments, paddings, heights and spans",
 "No test computes heights; they depend on the line breaking of all cells at their actual widths.",
 ["table.go", "text.go", "text-hyph.go"],
 [("heights", "table.go:assignCellMinHeight, assignHeights"), ("vertical alignment", "table.go:renderCell")])

prop("C12", "Header and footer appear once on every page, independent of the body",
 "Header and footer are drawn exactly once on every page, however it was started, identically apart from {cp} and {np}, which show the number of that page and the total number of pages. They leave no trace in the body: with another (or no) header or footer the body is drawn at the same places in the same style.",
 ["inputs", "histories"], "all documents and all causes of page breaks (flowing text, boxes, tables, repeated headers, newpage)",
 "Page events are triggered from deep within layout code; the tests render no pages.",
 ["process.go", "engine/fpdf.go"],
 [("header/footer callbacks", "process.go:Process"), ("page break prevention", "process.go:preventPageBreak"), ("placeholders", "process.go:tr, engine/fpdf.go:SetPageCountAlias")])

prop("C13", "Page format, orientation and margins are those of the document",
 "Every page has the size of the declared format and orientation (a3, a4, a5, letter, legal). The body starts at the left and top margins on every page, and flowing text, tables and boxes keep within the margins.",
 ["inputs", "configurations"], "all formats, orientations and margins, all body contents without explicit positions",
 "No test produces a page.",
 ["engine/fpdf.go", "xdoc/doc.go", "process.go"],
 [("page setup", "engine/fpdf.go:NewFPDF, fpdfFormat, fpdfOrientation"), ("printable area", "engine/fpdf.go:PrintableArea")])

prop("C14", "Images are placed with their aspect ratio inside the available space",
 "An image is drawn at the current position plus its offset: at its natural size at 96 dpi, or with the declared width or height and its own aspect ratio, or with both as declared; it is scaled down, keeping that ratio, to fit the available width and height. Relative sources are resolved against the working directory, absolute ones are taken as they are. An image that is missing or not recognisable as PNG, JPEG or GIF is left out and the rest of the document is unchanged.",
 ["inputs", "fault_sequences"], "all image sizes, formats (PNG, JPEG, GIF), declared dimensions, offsets, containers and missing or broken files",
 "No test draws an image.",
 ["image.go", "process.go", "table.go"],
 [("image layout", "image.go:renderImage"), ("dimensions", "image.go:DescribeImage"), ("path", "process.go:resolveFile")],
 ["drawing operators and embedded images of the emitted PDF"])

prop("C15", "Hyphenation is lossless and follows Liang's algorithm",
 "For every word of valid UTF-8 text the parts returned concatenate to the word, none is empty, and they break exactly where the highest pattern weight is odd, case-insensitively, except within one character of either end or of the previous break. Words of fewer than three characters, longer than 100 characters, or with blanks are returned whole. The built-in pattern sets behave as the patterns they list.",
 ["inputs"], "all strings and all pattern sets",
 "The tests hyphenate a few English words; pattern matching must be right for all words, scripts and pattern sets.",
 ["hyphenation/hyphenation.go", "hyphenation/pattern.go", "hyphenation/en-us.go", "hyphenation/latin.go"],
 [("matching", "hyphenation/hyphenation.go:Hyphenate"), ("pattern parsing", "hyphenation/pattern.go:parsePattern"), ("built-in sets", "hyphenation/en-us.go, latin.go")],
 ["return values of the hyphenation package"])

prop("C16", "Loading hyphenation patterns: complete or an error",
 "Loading patterns from a reader or file yields a hyphenator with every non-blank line as a pattern, however the reader chunks the data. A read error, an unreadable file, a malformed pattern or a line too long to read is reported as an error and never as a partially loaded hyphenator.",
 ["inputs", "fault_sequences"], "all pattern files, chunkings and read faults at every offset",
 "No test loads patterns through a failing or short-reading reader.",
 ["hyphenation/hyphenation.go", "hyphenation/pattern.go"],
 [("loading", "hyphenation/hyphenation.go:Load, LoadFromFile"), ("scanning", "hyphenation/pattern.go:parsePatterns")],
 ["return values and errors of the hyphenation package"])

prop("C17", "Processing reports every failure, and success means a complete PDF",
 "If writing the output fails at any offset, or a font needed is unknown, unreadable or invalid, or the data of an image to be drawn is damaged behind its readable header, an error is returned. If no error is returned the writer has received one complete, well-formed PDF with all pages.",
 ["inputs", "fault_sequences"], "all documents and all writer faults (at each write and offset, short writes), font registries and font uses",
 "No test runs the processor or injects a fault.",
 ["process.go", "engine/fpdf.go"],
 [("error collection", "process.go:Process"), ("font loading", "engine/fpdf.go:initFonts"), ("output", "engine/fpdf.go:WritePDF")],
 ["return values of engine construction and processing", "bytes received by the writer"])

prop("C18", "Loading a document: complete, or an error",
 "Loading succeeds only for a complete document whose instructions, styles, numbers, spans and grid areas are valid: truncated or ill-formed XML, unknown instructions in a section, text, box, table or row, invalid styles, classes or numeric attributes, header repetitions outside 0 to 10, grids with uneven rows or undefined areas, read errors before its end and missing files all yield an error. The outcome does not depend on how the reader chunks the data.",
 ["inputs", "fault_sequences"], "all byte sequences, truncations, single faults injected in valid documents, chunkings and read faults at every offset",
 "No test loads a document.",
 ["xdoc/doc.go", "xdoc/instructions.go", "xdoc/registry.go", "xdoc/table.go", "xdoc/grid.go", "xdoc/style.go"],
 [("loading", "xdoc/doc.go:Load, LoadFromFile"), ("instruction registry", "xdoc/registry.go:DecodeInstruction"), ("validation", "xdoc/table.go:DecodeAttrs, xdoc/grid.go:Validate")],
 ["return values of document loading"])

prop("C19", "Processing and describing never panic, hang or emit a broken PDF",
 "For every input that loads, describing and processing terminate without panic, within work proportional to the document, and processing returns an error or a well-formed PDF.",
 ["inputs"], "all documents that load with finite, moderate numbers, however nested, unusual or contradictory",
 "Crashes hide in combinations no sample contains; no test processes a document.",
 ["process.go", "text.go", "text-hyph.go", "table.go", "image.go", "grid.go", "engine/fpdf.go", "xdoc/describe.go"],
 [("instruction dispatch", "process.go:processInstructions"), ("spans", "table.go:processSpans"), ("grid", "grid.go:renderGrid"), ("runes", "engine/fpdf.go:NewFPDF")],
 ["panics, engine calls and the emitted PDF"])

prop("C20", "Concurrent processing is race-free and does not interfere",
 "Documents loaded, processed and described concurrently, also when they share a hyphenator, a font registry or the loaded document itself, cause no data race, and each result equals that of a run on its own.",
 ["schedules"], "all interleavings of independent processors sharing hyphenator, font registry and document",
 "The tests are sequential and never run under the race detector.",
 ["process.go", "hyphenation/hyphenation.go", "hyphenation/pattern.go", "style/class.go", "style/decode.go", "xdoc/registry.go", "font/registry.go"],
 [("read-only pattern lookup", "hyphenation/hyphenation.go:Hyphenate"), ("mutators as pure functions", "style/decode.go:makeMutateFnc"), ("instruction prototypes", "xdoc/registry.go:DecodeInstruction"), ("state per processor", "process.go:Processor")],
 ["race detector reports", "drawing operators of the emitted PDFs"])

prop("C21", "The description of a document is complete, faithful and reproducible",
 "Describing a document lists meta, page, header, footer and body with every instruction, in order and nested as in the document, with its text (white space normalised), numbers, sources, spans and exactly the style attributes it sets to something other than zero, with their values. The same document always yields the same bytes; XML and JSON dumps are well formed.",
 ["inputs"], "all documents that load",
 "No test describes a document.",
 ["xdoc/describe.go", "xdoc/diff.go"],
 [("description", "xdoc/describe.go:Describe, describeInstructions"), ("style differences", "xdoc/diff.go:interfaceDiff")],
 ["dump of the description"])

prop("C22", "White space is normalised without touching anything else",
 "Normalising text replaces carriage returns, line feeds and tabs by blanks, collapses runs of blanks, trims the ends and drops blanks next to a backslash; every other character is kept in order and normalising twice changes nothing. Collapsing repetitions of a string terminates and leaves no two adjacent occurrences of the (non-empty) string.",
 ["inputs"], "all strings",
 "The tests normalise a few strings.",
 ["text/text.go"],
 [("rectification", "text/text.go:WhitespaceRectified"), ("twins", "text/text.go:RemoveTwins")],
 ["return values of the text package"])

prop("C23", "Font registries hold exactly the declared fonts with resolved paths",
 "A registry loaded from a definition file lists each declared font style once, in declaration order, with its name and style, its path resolved against the definition file's directory unless absolute, and the declared mono font; a missing or malformed file is an error. Each visits the fonts in registration order and stops with the first error. Every registered font can be used in a document in its declared style.",
 ["inputs", "configurations"], "all definition files, locations, working directories and registrations",
 "No test loads a font registry.",
 ["font/definition.go", "font/registry.go", "engine/fpdf.go"],
 [("definition file", "font/definition.go:LoadRegistryFromFile"), ("registry", "font/registry.go:Register, Each"), ("engine fonts", "engine/fpdf.go:initFonts")],
 ["descriptors visited", "fonts embedded in the emitted PDF"])

prop("C24", "Processing is repeatable and does not change the document",
 "Processing the same loaded document again, describing it in between, or processing other documents before (with the same hyphenator and font registry) yields the same drawing every time, and the document's description stays the same.",
 ["histories"], "all sequences of load, process and describe on shared documents, hyphenators and registries",
 "The tests never process anything twice; hidden state shows only across runs.",
 ["process.go", "style/decode.go", "style/class.go", "table.go", "hyphenation/hyphenation.go"],
 [("mutations on copies", "xdoc/style.go:MutatedStyles"), ("layout on own structures", "table.go:transformTable")],
 ["drawing operators of the emitted PDFs", "descriptions"])

prop("C25", "Positioning instructions move the cursor exactly as stated",
 "setx and sety set the horizontal and vertical position in millimetres (negative values count from the right and bottom edge) and leave the other coordinate alone; lf moves down by that many font heights, to the left margin; newpage continues at the top left of a new page. A text or image that follows is placed there.",
 ["inputs", "histories"], "all sequences of positioning instructions and short texts",
 "No test positions anything.",
 ["process.go", "engine/fpdf.go"],
 [("dispatch", "process.go:processInstructions"), ("cursor", "engine/fpdf.go:SetX, SetY, LineFeed, AddPage")])

prop("C26", "Equivalent XML spellings produce the same document",
 "Attribute order and quoting, CDATA, character references, comments between elements, empty-element tags, section order, indentation, declaration order and white space within styles do not change what is drawn.",
 ["inputs"], "all documents and all equivalent spellings",
 "No test loads XML; equivalence quantifies over spellings.",
 ["xdoc/doc.go", "xdoc/instructions.go", "xdoc/table.go", "xdoc/style.go", "style/decode.go", "style/class.go"],
 [("decoding", "xdoc/instructions.go:UnmarshalXML"), ("tables", "xdoc/table.go:UnmarshalXML"), ("styles", "style/decode.go:parseRaw")])

prop("C27", "Command line tools produce what the library does and report failures",
 "xpdf writes the PDF of its input to the given file, or to the input's base name with .pdf in the working directory, and exits 0; the drawing is that of the library with the fonts of fonts/fontdef.toml. describe and image print the description and the image's format and dimensions. Missing or invalid inputs, font definitions or outputs make them report an error and exit non-zero.",
 ["inputs", "fault_sequences", "configurations"], "all inputs, output names and failures of the files involved",
 "The commands have no tests.",
 ["cmd/xpdf/main.go", "cmd/describe/main.go", "cmd/image/main.go"],
 [("xpdf", "cmd/xpdf/main.go:main"), ("describe", "cmd/describe/main.go:main"), ("image", "cmd/image/main.go:main")],
 ["exit status, standard output and files written"])

prop("C28", "What is drawn does not depend on what follows, and pages compose",
 "Instructions appended to a body change nothing of what the earlier ones draw: everything drawn for a prefix of the body is drawn the same, and additions appear only on the last page of the prefix or later. A body behind a newpage is drawn as it is on its own, after the font instructions before it; headers and footers (without page numbers) stay the same.",
 ["inputs", "histories"], "all bodies of any elements, all ways to cut them and all bodies appended",
 "Tests process no documents; the relation quantifies over pairs of documents.",
 ["process.go", "table.go", "text.go", "text-hyph.go", "engine/fpdf.go"],
 [("dispatch and state between instructions", "process.go:processInstructions, resetStyles"), ("page start", "engine/fpdf.go:AddPage")],
 ["drawing operators of the emitted PDFs"])

prop("C29", "The layout is relative to the margins",
 "Moving the printable area over the page without changing its size (margins, and positions given by setx and sety, changed alike) moves everything drawn by the same distance and changes nothing else: line breaks, page breaks, sizes, looks and distances stay.",
 ["inputs"], "all documents of any elements and all displacements that keep positions on the page",
 "Tests process no documents; absolute constants or a mixed-up margin in any part of the layout show only by comparison.",
 ["dim.go", "process.go", "table.go", "text.go", "text-hyph.go", "image.go", "engine/fpdf.go"],
 [("printable area", "engine/fpdf.go:PrintableArea"), ("areas and widths", "dim.go:EffectiveWidth, WithPadding")],
 ["drawing operators of the emitted PDFs"])

prop("C30", "The processor lays out by the engine it is given and keeps to its protocol",
 "With any engine the layout follows the page size, margins, printable area, font heights and text widths that engine reports. Header, footer and page count alias are set before the first page is added and nothing is drawn before that; headers and footers add no pages and give the cursor back; borders are begun before and drawn after their lines; coordinates are finite and colours valid. The document is written exactly once, at the end, and the processor writes nothing else; an error of the engine, also while writing, is returned.",
 ["inputs", "configurations", "fault_sequences"], "all documents, engine geometries and metrics, and failures of the engine at any call",
 "Tests use no engine at all.",
 ["engine/engine.go", "process.go", "text.go", "text-hyph.go", "table.go", "draw.go", "image.go"],
 [("engine interface", "engine/engine.go:Engine"), ("processing", "process.go:Process"), ("frames", "draw.go:drawBox")],
 ["calls of the engine interface"])

prop("C31", "The PDF engine does and reports what it is told",
 "After every call the PDF engine reports the state that follows from the calls so far: cursor, page number, font height, text widths, margins, printable area and page size. The PDF it writes shows exactly the texts, areas, lines and images asked for, where and how they were asked for, the header and footer once per page, and the number of pages in place of the alias. A text that would cross the bottom margin starts a new page at the same horizontal position. Once a call has failed the error stays reported, and writing fails.",
 ["inputs", "histories", "fault_sequences"], "all call sequences on all page formats and fonts, and failing fonts, images and writers",
 "The engine has no tests.",
 ["engine/fpdf.go"],
 [("engine", "engine/fpdf.go:FPDF, NewFPDF")],
 ["return values of the engine", "drawing operators of the emitted PDF"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
