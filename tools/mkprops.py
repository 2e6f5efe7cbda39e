import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
      observe_at=observe or ["bytes returned by Document::to_pdf_bytes"],hook_needed=hook)))
D='victor/src/dom/';S='victor/src/style/';L='victor/src/layout/';PD='victor/src/pdf/';F='victor/src/fonts/'
p("C01","HTML tree construction builds exactly the prescribed document tree",
 "For every HTML byte input, the document that gets rendered is the tree obtained by applying the HTML parser's tree-construction operations (create, append, insert before, foster-parent, remove, reparent all children, add missing attributes) in order. No node is lost, duplicated or reachable from two places, sibling order is kept, and text inserted next to existing text is merged into it.",
 ["inputs","histories"],"every sequence of tree-construction operations an HTML parser emits, including misnested formatting elements, foster parenting out of tables, duplicate html/body tags and text split across tokens",
 "The reftests are well-formed documents: they only ever append; reparenting, removal and insertion before a sibling are never executed and no test looks at the tree.",
 [D+'html.rs',D+'mod.rs'],[("sibling/parent link updates",D+"mod.rs detach/append/insert_before"),("tree-construction callbacks",D+"html.rs impl TreeSink")],
 ["nesting and order of the boxes painted when every element is a block with its own colour and padding"],
 [("links","parent, next/previous sibling and first/last child of each node",D+"mod.rs struct Node")])
p("C02","XML parsing builds the tree the markup describes, or returns an error",
 "For every byte input, XML parsing returns either an error (for text that is not well-formed) or a document whose element nesting, sibling order, attributes and merged text (character data, CDATA and whitespace are one run) are those of the markup. Comments and declarations leave no trace, and a document that was parsed without error can be rendered.",
 ["inputs"],"every sequence of XML start, end, text, CDATA, comment and processing-instruction events, and every malformed document",
 "No existing test parses XML at all.",[D+'xml.rs',D+'mod.rs'],[("event loop with a stack of open elements",D+"xml.rs parse_xml"),("tree update",D+"mod.rs append")],
 ["Result of Document::parse_xml","bytes returned by to_pdf_bytes for the parsed document"])
p("C03","Style rules apply to exactly the elements their selectors match",
 "A style rule applies to an element if and only if one of the rule's selectors matches it in the document tree, for type, universal, class (one of several space-separated names), id, attribute, structural pseudo-class and negation selectors joined by any combinators. Comments, text and processing instructions between elements never influence a match.",
 ["inputs","programs"],"every document tree and every selector of the supported grammar",
 "The tests use a handful of type and id selectors on tiny trees; combinators, class lists and structural pseudo-classes are never evaluated on trees where they could differ.",
 [S+'selectors.rs',S+'cascade.rs'],[("element accessors used by the matcher",S+"selectors.rs impl Element for NodeRef"),("collection of matching rules",S+"cascade.rs push_matching")],
 ["colour painted for each element"])
p("C04","The winning declaration is chosen by importance, origin, specificity and order",
 "For every element and property, the value used is that of the declaration that comes last in cascade order: user-agent normal, author normal, author important, user-agent important; within an origin by specificity, then by order of appearance, with the style attribute after all author rules of the same importance. The outcome does not depend on how many rules or declarations match.",
 ["inputs","programs"],"every multiset of matching rules and declarations across origins, importance, specificities and positions",
 "The tests contain no !important and never have two declarations of different specificity compete for one property.",
 [S+'cascade.rs',S+'declaration_block.rs',S+'properties/macros.rs'],[("stable sort by specificity",S+"cascade.rs finish"),("order of the four cascade passes",S+"cascade.rs cascade"),("importance bit per declaration",S+"declaration_block.rs")],
 ["colour and geometry painted for each element"])
p("C05","Inheritance, CSS-wide keywords and em lengths resolve to the right values",
 "An element without a declaration for a property has its parent's computed value if the property is inherited (color, font-size) and the initial value otherwise; inherit, initial and unset give exactly the parent's, the initial, or the appropriate one of these. An em length is relative to the parent's font size in font-size and to the element's own font size everywhere else, whichever order the declarations come in, and currentcolor is the element's own color (the parent's in the color property).",
 ["inputs","programs"],"every chain of nested elements with any mix of lengths, keywords and declaration orders",
 "No test uses inherit, initial, unset or nested em lengths.",
 [S+'properties/macros.rs',S+'values/fonts.rs',S+'values/length.rs',S+'values/color.rs'],[("early and late cascade phases",S+"properties/macros.rs ComputedValues::new"),("keyword application",S+"properties/macros.rs cascade_css_wide_keyword_into")],
 ["colour, position and size painted for each element"])
p("C06","Invalid CSS is dropped on its own, leaving everything around it in force",
 "A declaration that is not valid for its property (unknown property, bad value, or trailing tokens after a valid value) has no effect at all and does not change the effect of any other declaration; a rule with an invalid selector or an unknown at-rule is ignored and the rules around it still apply. Style sheets and style attributes with such errors never make rendering fail.",
 ["inputs","programs"],"every interleaving of valid and invalid declarations and rules, in style sheets and in style attributes",
 "Every style sheet in the tests is valid.",
 [S+'declaration_block.rs',S+'rules.rs',S+'cascade.rs'],[("per-declaration error recovery",S+"declaration_block.rs DeclarationBlock::parse"),("per-rule error recovery",S+"cascade.rs add_stylesheet")],
 ["colour and geometry painted for each element"])
p("C07","Shorthand properties set exactly the longhands they stand for",
 "margin, padding, border-width, border-style and border-color with one to four values set the top, right, bottom and left sides as CSS defines, and border-top and background set each of their longhands, resetting those left out to the initial value. A shorthand and its longhands compete as if each longhand had been declared at the shorthand's place, with its importance.",
 ["inputs","programs"],"every number and combination of component values, and every interleaving of shorthands, longhands and importance",
 "The tests use single-value margins; two-, three- and four-value forms and overriding between shorthand and longhand are not distinguished by any expected image.",
 [S+'values/generic.rs',S+'values/border.rs',S+'values/background.rs',S+'properties/definitions.rs'],[("four-sides expansion",S+"values/generic.rs FourSides::parse"),("table of shorthands",S+"properties/definitions.rs")],
 ["geometry and colour painted for each element"])
p("C08","Every visible element and text is painted exactly once, in tree order",
 "An element that has a box and a background whose alpha is not zero paints exactly one background per box fragment, below its content, and every non-collapsed character of text in a rendered element is painted exactly once, in document order. Elements with display:none and all their descendants paint nothing, an element with display:contents paints no box while its children are laid out as if they were its parent's, and neither changes anything else on the page.",
 ["inputs","programs"],"every tree of elements over the supported display values with text in any place",
 "The reftests have at most a few siblings, and display:none or display:contents never occur inside them.",
 [L+'dom_traversal.rs',L+'flow/construct.rs','victor/src/paint.rs'],[("tree traversal by display value",L+"dom_traversal.rs traverse_element"),("removal of boxes of hidden subtrees",L+"dom_traversal.rs unset_boxes_in_subtree"),("painting in fragment order","victor/src/paint.rs")])
p("C09","Inline and block siblings are separated by anonymous blocks, splitting inlines",
 "When a block container has both inline and block content, each maximal run of inline content is laid out in its own anonymous block between the blocks, in document order; an inline box that contains a block is split around it, its left edge being applied only to its first and its right edge only to its last part. A block container with no inline content makes no line box.",
 ["inputs","programs"],"every nesting of inline and block elements and text, at any depth",
 "Only one reftest mixes text and blocks as siblings; a block inside an inline element never occurs.",
 [L+'flow/construct.rs'],[("splitting of ongoing inline boxes",L+"flow/construct.rs handle_block_level_element"),("closing the ongoing inline formatting context",L+"flow/construct.rs end_ongoing_inline_formatting_context")])
p("C10","White space is collapsed across element boundaries as CSS prescribes",
 "In each run of inline content, every maximal sequence of spaces, tabs and line breaks is painted as a single space, even when it spans several text nodes or element boundaries, and white space at the start of the run disappears. All other characters are painted unchanged and white space between blocks produces nothing.",
 ["inputs"],"every placement of white space in and around text nodes and inline elements",
 "The expected PDFs contain one simple paragraph; collapsing across element boundaries is not looked at.",
 [L+'flow/construct.rs'],[("leading white space depends on the preceding text",L+"flow/construct.rs handle_leading_whitespace"),("collapsing within a text node",L+"flow/construct.rs handle_text")],
 ["glyph codes shown in the PDF page"])
p("C11","Block widths and horizontal margins solve the CSS width equation",
 "For every in-flow block box, left margin + border + padding + width + padding + border + right margin equals the width of its containing block, with auto width filling what is left, auto margins sharing it equally (or one taking it all) when width is given, and the right margin giving way when over-constrained. Percentages refer to the containing block's width, also for vertical padding and margins, and borders count only when their style is not none.",
 ["inputs","programs"],"every combination of lengths, percentages, auto and negative margins at every nesting depth",
 "A few reftests use fixed widths; no test combines auto margins with padding, percentages or overflow.",
 [L+'flow/mod.rs',S+'properties/mod.rs','victor/src/geom.rs'],[("width equation",L+"flow/mod.rs layout_in_flow_non_replaced_block_level"),("percentage resolution","victor/src/geom.rs")],
 ["rectangles painted in the PDF page"])
p("C12","Vertical margins collapse and heights follow CSS 2",
 "Adjoining vertical margins (siblings, parent with first or last in-flow child, and the two margins of an empty block of auto height) collapse to the largest positive plus the most negative one, and padding, borders, line boxes, a specified height (for the bottom margin) and independent formatting contexts keep margins apart. Every block starts below the previous one by exactly the collapsed margin, and an auto height is exactly what the content needs.",
 ["inputs","programs"],"every tree of blocks with positive, zero and negative margins, padding, borders and heights",
 "One reftest has collapsing margins in a single configuration; sequences of empty blocks, negative margins and nested first/last children are not sampled.",
 [L+'flow/mod.rs',L+'fragments.rs'],[("placement with current and start margins",L+"flow/mod.rs place_block_level_fragment"),("adjoining margins",L+"fragments.rs CollapsedMargin")],
 ["rectangles painted in the PDF page"],
 [("placement state","position, current margin and whether the start margin is still open",L+"flow/mod.rs PlacementState")])
p("C13","Relative positioning moves a box and its contents and nothing else",
 "position:relative shifts the painted box with all its descendants by left (else minus right) and top (else minus bottom), percentages referring to the containing block, and every other box on the page stays exactly where it would be without the shift. A percentage top or bottom has no effect when the containing block's height is not specified.",
 ["inputs","programs"],"every tree of blocks and inlines with relative offsets at any place",
 "No expected image contains a relatively positioned box whose followers would show a difference.",
 [L+'mod.rs',L+'flow/mod.rs',L+'flow/inline.rs'],[("offset computation",L+"mod.rs relative_adjustement")],
 ["rectangles and text painted in the PDF page"])
p("C14","Absolutely positioned boxes are placed against the right containing block",
 "An absolutely positioned box is placed and sized against the padding box of its nearest positioned block ancestor, or the page if there is none, by the CSS 2 rules for left/right/top/bottom, width/height, auto margins and percentages of the matching axis, an auto width taking all the width that is left; with both offsets of an axis auto it stays at its static position. It takes no space and moves no other box.",
 ["inputs","programs"],"every combination of offsets, sizes, margins and nesting of positioned ancestors",
 "The abspos reftests each fix one combination of offsets in a square containing block, where the two axes cannot be told apart.",
 [L+'positioned.rs',L+'flow/mod.rs'],[("axis solving",L+"positioned.rs AbsolutelyPositionedFragment::layout"),("static position propagation",L+"positioned.rs adjust_static_positions")],
 ["rectangles painted in the PDF page"])
p("C15","Inline content fills lines left to right and breaks only at spaces",
 "Text and inline boxes of a run are placed one after the other from the left edge of their line, each advancing by its glyph widths, margins, borders and padding; text breaks only at its own spaces: a new line starts at the last space that lets the line fit its container, the words before it stay on the line and a line always takes at least one word of the text. Lines are stacked without gap, each as high as its tallest content with its vertical padding and margins, and an inline box's background covers exactly its part of each line.",
 ["inputs","programs"],"every text, container width and nesting of inline boxes with their own font size, padding and margins",
 "The single paragraph of the expected PDF is laid out at one width with no nested inline box that wraps.",
 [L+'flow/inline.rs','victor/src/text.rs'],[("line breaking",L+"flow/inline.rs TextRun::layout"),("finishing lines and inline boxes",L+"flow/inline.rs finish_line, finish_layout")],
 ["rectangles and text painted in the PDF page"],
 [("inline nesting levels","fragments, start and height so far at each nesting level of the current line",L+"flow/inline.rs InlineNestingLevelState")])
p("C16","Rendering is deterministic under every schedule",
 "Rendering the same input gives byte-identical PDF data whatever the number of worker threads and the way they interleave, when the same document is rendered again, and when other documents are rendered or parsed at the same time.",
 ["schedules","inputs"],"every split of sibling lists over workers, every thread count, repeated and concurrent renderings",
 "The tests render each document once in whatever schedule happens, and mostly with too few siblings for the work to be split.",
 [L+'flow/mod.rs',L+'flow/construct.rs',L+'positioned.rs',L+'flow/root.rs'],[("ordered parallel fold and reduce",L+"flow/mod.rs, construct.rs mapfold_reduce_into"),("per-element layout slots",L+"dom_traversal.rs BoxSlot")],
 ["bytes returned by to_pdf_bytes under different thread counts"])
p("C17","Every generated file is a well-formed PDF describing the pages in order",
 "For every sequence of page, painting and text calls, the written file has a header, numbered objects each found at exactly the offset its cross-reference entry gives, a trailer with the right size and root, stream lengths that match, and no reference to a missing object. Its page tree lists exactly the added pages, in order, each with the given size and its own content.",
 ["histories","inputs"],"every history of API calls, any number of pages, fonts and objects, and any file size",
 "The byte-exact tests cover two fixed documents; offsets of more digits, many pages and empty pages are not sampled.",
 [PD+'syntax.rs',PD+'convert.rs'],[("offset counting while writing",PD+"syntax.rs CountingWrite, PdfFile::write"),("object numbering",PD+"syntax.rs add_indirect_object")],
 ["bytes returned by pdf::Document::write_to_pdf_bytes"])
p("C18","Everything is painted with the most recently set colour and opacity",
 "Each rectangle and text painted on a page has the colour and alpha of the latest set_color call on that page, or opaque black if there was none, with alpha clamped to 0..1; nothing carries over from another page. Positions, sizes and order of the painted items are those of the calls.",
 ["histories"],"every history of set_color, paint_rectangle and show_text calls over any number of pages and distinct alphas",
 "The PDF test has one page with two colours and one alpha; skipping redundant operators and reusing alpha states across pages is never stressed.",
 [PD+'convert.rs'],[("graphics state tracking",PD+"convert.rs set_color, set_alpha"),("shared alpha states",PD+"convert.rs alpha_states")],
 ["interpreted page content of the written PDF"],
 [("graphics_state","last colour and alpha emitted on the page",PD+"convert.rs GraphicsState"),("alpha_states","alpha to resource name for the whole document",PD+"convert.rs InProgressDoc")])
p("C19","Text keeps its font, glyphs, widths and Unicode meaning in the PDF",
 "Every shown text refers to the font it was shaped with, at its size and origin, with the glyph of each character in order. Each distinct font is embedded once per document with its unmodified bytes, the advance width of every glyph, its bounding box, ascent and descent in thousandths of its size, and a character map that takes each glyph used for a character of the font back to such a character.",
 ["histories","inputs"],"every sequence of show_text calls with any number of fonts over any number of pages, and every text",
 "The tests use at most two fonts with a few characters, so reuse of font resources, glyphs above 255 and character maps over 100 entries or beyond the BMP are hardly touched.",
 [PD+'convert.rs','victor/src/text.rs',F+'mod.rs'],[("font resources by identity",PD+"convert.rs add_font"),("shaping","victor/src/text.rs"),("glyph metrics",F+"mod.rs glyph_width")],
 ["font objects and text operators of the written PDF"])
p("C20","Numbers, names and strings are written in valid PDF syntax without loss",
 "Every finite number given through the API appears in the file in PDF number syntax (no exponent, NaN or infinity) with its value kept to the precision of the input, and names and strings containing any byte read back as the same bytes.",
 ["inputs"],"every finite coordinate, size, colour component and font size, and every font name",
 "The tests use small round numbers and plain ASCII names.",
 [PD+'object.rs'],[("object serialisation",PD+"object.rs Object::write, write_name")],
 ["tokens of the written PDF"])
p("C21","Output failures are always reported and never corrupt silently",
 "Whenever the destination of a PDF reports an error or stops accepting data at any point, writing returns an error, and it returns success only if all bytes have been accepted, in order. Short writes and interruptions in between do not change the bytes written, and a failed attempt does not affect a later write of the same document; the same holds for writing to a named file.",
 ["fault_sequences","crash_points"],"every position of an error, every pattern of short or interrupted writes, for streams and files",
 "All tests write to memory or to a healthy disk.",
 [PD+'mod.rs',PD+'syntax.rs'],[("error propagation",PD+"syntax.rs PdfFile::write"),("file output",PD+"mod.rs write_to_pdf_file")],
 ["Result of write_to_pdf and write_to_pdf_file, and the bytes that reached the destination"])
p("C22","Plain-text layout paginates without losing or reordering text",
 "For every text, and every style whose margins fit on the page, the pages contain every non-newline character of the text exactly once, in order; lines on a page are one line height apart starting at the top margin, and a new page starts exactly when the next line would start below the bottom margin. A line break mandated by the text always ends the line.",
 ["inputs"],"every text and every combination of page size, margin, font size and line height",
 "One text with one style is compared byte for byte.",
 ['victor/src/text_plain.rs'],[("page and line loops","victor/src/text_plain.rs layout")],
 ["page contents of the PDF produced by text_plain::layout"],
 [("y","position of the next line on the page","victor/src/text_plain.rs")])
p("C23","Plain-text lines are filled greedily, and justified exactly to the margin",
 "Each line takes as many break-delimited segments as fit the width between the margins and at least one, breaking only where the text allows it. With justification the segments of a line that was ended by lack of space are spread so that the last one ends at the right margin, and all other lines, and all lines without justification, are set without extra spacing.",
 ["inputs"],"every text, available width and font size, justified or not",
 "One justified text at one width is compared byte for byte.",
 ['victor/src/text_plain.rs'],[("greedy filling with rewind","victor/src/text_plain.rs layout, Rewind"),("word spacing","victor/src/text_plain.rs layout")],
 ["text positions in the PDF produced by text_plain::layout"])
p("C24","Character-to-glyph lookup agrees with the font's character map",
 "For every valid font, the glyph used for a character is the one its character map assigns (glyph 0 if none), for segment and group formats with any number of segments, deltas, glyph arrays and modulo arithmetic, preferring the full-Unicode table. The reverse map written to PDFs lists exactly the characters that have a glyph, each with the glyph that lookup gives.",
 ["inputs"],"every well-formed format 4 and format 12 table and every character",
 "The tests use three existing fonts and a few characters each.",
 [F+'cmap.rs',F+'parsing.rs'],[("segment binary search",F+"cmap.rs Format4::get, Format12::get"),("enumeration",F+"cmap.rs each_code_point"),("generic binary search",F+"parsing.rs binary_search")],
 ["glyph codes and ToUnicode map of PDFs using the font"])
p("C25","Malformed fonts are rejected with an error, never a crash or a hang",
 "For every byte sequence offered as a font, parsing, shaping with it and embedding it each return a value or an error within bounded time; no truncation, offset, count or range in the data makes them panic, loop or read outside the data.",
 ["inputs"],"every truncation and every corruption of table directory, header, character map, metrics and name data",
 "The tests only load valid fonts.",
 [F+'parsing.rs',F+'mod.rs',F+'cmap.rs'],[("checked reads",F+"parsing.rs Position::read_from"),("table lookup",F+"mod.rs find_table")],
 ["Result of Font::parse, ShapedSegment::naive_shape and Page::show_text"])
p("C26","PNG decoding and encoding honour the caller's streams and report their failures",
 "Reading a PNG consumes the bytes of the image in order, whatever the sizes of the reads, nothing past its end, and always yields the same pixels; writing delivers exactly the encoded bytes in order. Any error or panic of the caller's reader or writer at any call is handed back to the caller as that error or panic, and truncated or invalid data as an error, also when writing to a named file.",
 ["fault_sequences","inputs"],"every position and kind of failure, and every pattern of read sizes",
 "The PNG tests round-trip one image and inject one error and one panic at fixed points.",
 ['lester/src/cairo.rs','lester/src/errors.rs'],[("stream callbacks","lester/src/cairo.rs read_callback, write_callback")],
 ["Result of ImageSurface::read_from_png, write_to_png and their file variants"])
p("C27","PDF page access yields each page once, in order, from either end",
 "For every PDF with n pages, the pages iterator yields exactly the pages 0..n-1, each once, for every interleaving of taking from the front and the back, reports the exact number left at every step, and stays exhausted. Each page has the size and text of that page of the file, also once the document is closed; the producer is the one its information dictionary names, if any. Data that is no PDF is refused with an error.",
 ["histories","inputs"],"every interleaving of front and back steps and every page count",
 "The existing test looks at one two-page document from the front.",
 ['lester/src/poppler.rs'],[("range of remaining indices","lester/src/poppler.rs PagesIter")],
 ["items and size_hint of PdfDocument::pages","PdfDocument::producer"])
p("C28","Rendering any HTML input terminates with a PDF",
 "For every HTML byte input with bounded element nesting, parsing and rendering terminate and return a valid one-page PDF; no markup, style or text, however malformed, makes them panic, abort or loop. XML input that is not well-formed is refused with an error, any other also becomes such a PDF.",
 ["inputs"],"every byte sequence, with element nesting up to 40 levels",
 "The tests render about twenty small well-formed documents.",
 ['victor/src/paint.rs',D+'html.rs',L+'flow/construct.rs',S+'declaration_block.rs'],[("total functions over parsed input","victor/src/dom, style, layout")],
 ["completion of Document::to_pdf_bytes"])
p("C29","Rendering a PDF page gives an image of that page at the scales asked for",
 "For every page size and every pair of scales, the rendered image is ceil(width in px x horizontal scale) by ceil(height in px x vertical scale) pixels, a px being 3/4 of a point; every pixel inside a painted rectangle has its colour, and where nothing is painted the image has the backdrop asked for: opaque white or transparent.",
 ["inputs"],"every page size, pair of scales, backdrop and set of rectangles",
 "The tests render one 4 x 4 pattern at equal scales in both directions and one empty page.",
 ['lester/src/poppler.rs','lester/src/cairo.rs'],[("rendering","lester/src/poppler.rs Page::render_with_options"),("pixels","lester/src/cairo.rs ImageSurface::pixels")],
 ["width, height and buffer of the pixels of the image rendered"])
p("C30","The links and style sheets of a document are those of its tree, in order",
 "For every parsed document, the list of links holds the rel and href of exactly the HTML link elements in the tree that have both attributes, in tree order. The style sheets that apply are exactly those of the HTML style elements in the tree whose type is absent, empty or text/css in any case, in tree order, the text of each being that of its child text nodes joined.",
 ["inputs"],"every HTML and XML document with link and style elements anywhere in its tree, elements of other name spaces with the same names, and attributes of other name spaces",
 "No existing test asks for links, and all tests have one plain style element in the head.",
 [D+'mod.rs'],[("links","victor/src/dom/mod.rs html_link_elements"),("style sheets","victor/src/dom/mod.rs parse_stylesheets, child_text_content")],
 ["items of Document::html_link_elements","bytes returned by Document::to_pdf_bytes"])
p("C31","A rendered document looks and reads in a PDF reader as it was laid out",
 "For every document, an independent PDF reader opens the PDF made from it as one page of 600 by 800 px on which every pixel shows the backgrounds and glyphs laid out there, over each other in painting order with their colours and opacities, and white elsewhere. The reader takes from the page exactly the characters of its texts, where these do not overlap and are on the page.",
 ["inputs"],"every document, every pixel of its page and every character the font can show",
 "The existing tests look at the pixels of a few opaque boxes and at no text.",
 ['victor/src/paint.rs','victor/src/pdf/document_structure.rs','victor/src/fonts/mod.rs'],[("content stream","victor/src/pdf"),("embedded font","victor/src/pdf"),("fragments","victor/src/paint.rs")],
 ["pixels and text of the page as read by Poppler from Document::to_pdf_bytes"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert x['statement'].count('. ')<=2,x['id']
print(len(P))
