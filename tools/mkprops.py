#!/usr/bin/env python3
"""Source of properties.jsonl (one entry per property)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(quant.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

BM="elsie/boxtree/boxmixin.py"; BX="elsie/boxtree/box.py"; SH="elsie/slides/show.py"; SL="elsie/slides/slide.py"
LA="elsie/boxtree/layout.py"; VA="elsie/boxtree/value.py"; LZ="elsie/boxtree/lazy.py"; SD="elsie/slides/slidedeck.py"
RE="elsie/render/render.py"; PM="elsie/render/pdfmerge.py"; CA="elsie/utils/cache.py"; IK="elsie/render/inkscape.py"
SB="elsie/render/backends/svg/backend.py"; DR="elsie/render/backends/svg/draw.py"; RC="elsie/render/backends/svg/rcontext.py"
SX="elsie/utils/sxml.py"; TP="elsie/text/textparser.py"; TB="elsie/text/textboxitem.py"; HL="elsie/text/highlight.py"
SC="elsie/text/stylecontainer.py"; TS="elsie/text/textstyle.py"; IM="elsie/render/image.py"; OR="elsie/render/ora.py"
LI="elsie/ext/list.py"; MD="elsie/ext/markdown.py"; LX="elsie/ext/latex.py"; JU="elsie/render/jupyter.py"
CR="elsie/render/backends/cairo/rcontext.py"; CS="elsie/render/backends/cairo/shapes.py"; CB="elsie/render/backends/cairo/backend.py"
SV="elsie/render/backends/svg/utils.py"
PAGES="the SVG of each page (render(return_units=True), or the pages of the merged PDF)"

p("S01","An item is painted exactly in the fragments shown by all of its boxes",
"""In every fragment of a slide, an item (shape, text, image) is painted exactly when the fragment selector of the box
that holds it and of every box around that box includes this fragment; hiding a box hides everything inside it and nothing else.
This does not depend on the order in which boxes and items were created, on paint order options or on other slides.""",
["programs","inputs"],"every tree of boxes and items, every assignment of fragment selectors to boxes, every fragment",
"Tests render a handful of slides against golden SVGs; visibility is a function of the whole tree, all selectors and the fragment.",
[SH,BX],[("is_visible",SH),("get_painters",BX)],[PAGES],[("show info","fragments in which a box is visible",BX)])
p("S02","Fragments are numbered 1..N and next/last/current_fragment track the maximum",
"""A slide is rendered into one page per fragment 1..N, where N is the largest fragment number named by the selector of any of its boxes,
or needed by an image placed in it, and at least 1. At every moment of construction current_fragment() is this maximum over what
has been created so far, and a selector's placeholders 'last' and 'next' mean that number and that number plus one at the time of the call.""",
["programs","histories"],"every sequence of box/image creations with numeric and placeholder selectors, nested in any way, observed after every call",
"The counter is history dependent: only fixed short histories are rendered by the tests.",
[SH,BM,SL],[("replace_relative_steps",SH),("max_step update in box()",BM),("Slide.steps",SL)],
["Box.current_fragment() after each call","number of render units"],[("max_step","largest fragment so far",SL)])
p("S03","Selector language is exact, and a rejected box() call changes nothing",
"""A fragment selector is None (all fragments), an integer n, or a comma-separated list of 'n', 'n-m' (n<=m, inclusive) and at most one open 'n+',
where n may be 'next' or 'last' and blanks around the parts are ignored; such a selector includes exactly the fragments its parts name.
Every other value is rejected with an exception, and a box() call rejected for its selector, its position or size value, or its
above/below argument leaves fragments, layout and painting of the slide as if the call had never been made.""",
["inputs","histories"],"every selector value (valid and invalid strings over the selector alphabet and other types), every rejected box() call anywhere in a construction history",
"Tests parse a dozen selectors; neither the whole language nor the absence of side effects of a failed call is examined.",
[SH,BM,LA],[("ShowInfo.parse",SH),("box()",BM)],["acceptance of the call","pages in which the box appears","all pages of the slide after a rejected call"])
p("S04","A rejected drawing call leaves the slide as it was",
"""A call of text(), code(), line(), polygon(), path() or image() that cannot be carried out (an undefined style, an unknown language, an escape_char which isn't one character, an unclosed block,
points or path commands that are none, a missing or broken picture, an unknown image type, a select_fragments or show_begin that cannot be), or such a call of inline_box() or line_box() on a text, raises an exception,
and from then on the slide is as if the call had never been made: its pages, fragments, sizes of boxes, order of painting, and what later calls do.""",
["inputs","histories"],"every rejected drawing call at any point of a construction history, on any box",
"Tests check that a few calls raise; none looks at the slide afterwards, whose state (sizes, fragments, children) is built step by step within each call.",
[BM,SH,TS],[("BoxMixin: drawing calls",BM),("Box.text, Box.image",BM)],["the exception","all pages of the slide after a rejected call"])
p("L01","Managed boxes are stacked in order and centred in their parent",
"""The children of a box that have no explicit main-axis position are laid out one after the other along the main axis, in creation order
(prepended ones first), without gaps or overlaps; unless some of them fills the free space, this block is centred in the parent's inner area.
On the cross axis each child without an explicit position is centred; other children (explicitly positioned) neither take up nor shift that space.""",
["programs","inputs"],"every tree of vertical and horizontal boxes with any sizes, paddings and mix of managed and positioned children",
"Golden images cover a few trees with a .85 px tolerance; the rule quantifies over all trees.",
[LA],[("Layout.set_rect",LA),("managed_children",LA)],[PAGES],[("children","order of children",LA)])
p("L02","Box sizes follow the size language: minimum, percent, fill, content, padding",
"""A box is as large as its requested minimal pixels (number or digit string), or the requested percentage of the parent's inner area, and never smaller than
the needs of its managed content plus padding; an explicitly positioned child asks no space of its parent, and padding of a side (p_<side>, else p_x/p_y, else padding) shrinks the inner area on that side only.
'fill' and 'fill(n)' boxes share what the other managed children leave on the main axis in proportion n, and take the full inner size on the cross axis.
The shortcuts fbox, sbox and overlay mean fill/fill, fill on the cross axis, and (x=0,y=0,100%,100%), each overridable by explicit arguments.""",
["programs","inputs"],"every tree of boxes, every combination of size formats, paddings, fill weights and content sizes",
"Sizes interact through the whole tree (requests go up, areas come down); tests sample a few combinations.",
[LA,VA,BM],[("SizeValue",VA),("compute_size_request",LA),("set_rect",LA),("_set_padding",LA)],[PAGES])
p("L03","Explicit positions: pixels, percent and alignment, on both axes",
"""A child with x or y given as a number (or digit string) is put that many pixels from the left/top inner edge of its parent, with 'p%' at that fraction of the parent's inner width/height,
and with '[p%]' so that fraction of the remaining space lies before it; this holds on both axes, in vertical and horizontal parents alike.""",
["programs","inputs"],"every parent (vertical, horizontal, padded, any aspect ratio), every position format on each axis, any child size",
"Tests use explicit positions mostly in vertical or square parents; a horizontal parent used the width for y percentages (fixed here).",
[LA,VA],[("PosValue.compute",VA),("Layout.set_rect",LA)],[PAGES])
p("L04","Dynamic positions and shape points resolve to the final layout",
"""A dynamic coordinate box.x(v), box.y(v), box.p(x,y) or mid_point(), moved by any chain of add()/map(), used as the position of another box or as a point of a line, polygon or path, denotes
the final inner rectangle of the box it was taken from: v pixels, or the percentage of its size, from its left/top edge.
Points of a shape given as plain pairs are relative in the same way to the box that holds the shape, whatever is added to the slide after the shape or coordinate was made.""",
["programs","histories"],"every tree, every target box (earlier, ancestor, cousin), every chain of offsets, and any continuation of the construction after the coordinate was taken",
"The value depends on layout decisions made later; the tests check a few pictures.",
[LZ,LA,BM,"elsie/shapes/path.py"],[("LazyValue/LazyPoint",LZ),("unpack_point",LZ)],[PAGES])
p("L05","Fragments, paint order and names never influence the layout",
"""The place and size of everything on a slide is the same in all of its fragments, and does not change when fragment selectors, z-levels, names, below/above arguments
or drawn shapes (rect, ellipse, line, polygon, path) are added, removed or changed anywhere on the slide, or the slide's background colour or debug mode is set.""",
["programs"],"every pair of programs that differ only in fragment selectors, z-levels, names, above/below, pure shapes, background or debug drawing, and every pair of fragments of one slide",
"A relation between two programs (2-safety); tests look at single programs.",
[LA,BM,BX],[("layout separate from painting",LA),("box()",BM)],[PAGES])
p("X01","The debug mode frames and labels exactly the visible boxes, and nothing else",
"""On a page of a slide with debug_boxes, each box that is visible in the fragment has exactly one frame, at the place and of the size
that the layout gave to the box, and one label with its name (if it has one) and this size, in a corner of the frame. Both are painted
at the z-level of the box, in front of what is inside of the box at this level; frames and labels of a box differ from those of the
box around it. Everything else is on the page as without the debug mode, and slides without it show no frames.""",
["programs","inputs"],"every tree of boxes and items, names, z-levels, selectors, sizes and fragments",
"Tests compare one golden picture of a slide in the debug mode.",
[BX,SD],[("_debug_paint",BX),("get_painters",BX)],[PAGES],[("debug_boxes","whether a slide is in the debug mode",SL)])
p("Z01","Paint order: z-level first, then depth-first order of the tree",
"""Visible items of a page are painted in ascending z-level; items of equal z-level in depth-first order of the tree, where siblings keep creation order except that a prepended box comes first
and a box given above=/below= comes directly after/before the named sibling.
A box without an explicit z-level has the one of its parent (0 at the root), an item the one of its box, and the slide's background is below everything at z-level > -1000000.""",
["programs"],"every tree with any combination of z-levels, prepend, above and below (also naming items), boxes and items interleaved, every fragment",
"Order depends on all options at once; golden tests contain only few overlapping cases.",
[BX,BM,SB],[("add_child",BX),("get_painters",BX),("stable sort by z_level",SB)],["order of elements in the SVG of a page"])
p("D01","The output has exactly the pages of the selected slides, in order",
"""The rendered document consists of all fragments of the first slide in order, then of the second, and so on in deck order, with every external PDF contributing all its pages at its place; with select_slides, of exactly
the given slides in the given order. Contents of different slides never mix, both PDF mergers produce the same page sequence, and for other export types the returned file list has the same order; export_pptx gives the same pages, each one picture that fills a blank slide.""",
["programs","configurations"],"every sequence of new_slide/add_pdf/building operations (also interleaved between slides), every selection, merger and export type",
"Tests render single-slide decks and two or three fixed decks.",
[SD,RE,PM,SL,"elsie/ext/export.py"],[("SlideDeck.render",SD),("export_pptx","elsie/ext/export.py"),("ExternPdfSlide",SL),("PyPdfMerger/ExternalMerger",PM)],["pages of the output PDF","list of returned files"],[("_slides","slides in order",SD)])
p("D02","Slide names obey the deck's name policy over every history",
"""Under 'unique' a second slide with an existing name is rejected and the deck stays as it was (unnamed slides are allowed); under 'replace' the new slide takes over: the old one of that name is gone and the new one comes last (a missing name is rejected);
under 'ignore' (and 'auto' outside of a notebook) names never matter, and an unknown policy or a non-string name (unless names are ignored) is rejected.
get_slide_by_name returns the first slide of the deck with that name, the @slide decorator uses the function's name by default.""",
["histories"],"every sequence of new_slide/@slide/add_pdf/get_slide_by_name calls over a small name set under every policy, accepted or rejected",
"Name policies are stateful; tests check one or two calls per policy.",
[SD],[("_apply_name_policy",SD),("get_slide_by_name",SD)],["exceptions","page sequence of the deck"])
p("D03","slides_per_page packs all pages into grids without losing order",
"""With slides_per_page=(a,b) every output page shows a grid of a columns and b rows filled row by row, left to right, with the deck's pages in order; each page appears exactly once at its cell, unscaled, on an output page a times as wide and b times as high;
only the last grid before the end, or before an external PDF page (which stays a page of its own at its place), may be partially filled, and no output page is empty. (1,1) is the same as no grouping.""",
["inputs","programs"],"every number of pages, every grid shape, external PDFs at any place, fragments and several slides",
"Two golden tests with one fixed number of pages.",
[RE,SD],[("per_page_grouping",RE)],["SVG of output pages: nested pages and their translations","pages of the output PDF"])
p("D04","Rendering is repeatable and has no effect on the deck",
"""Rendering a deck any number of times, in any mix of render modes (units or files, selections, groupings, pruning, HTML preview), gives for the same arguments always the same pages,
and building further content after a render gives the same pages as if the earlier renders had not happened.""",
["histories"],"every interleaving of renders with any arguments and of construction steps",
"Tests render each deck once.",
[SD,TB,LA,SB],[("render",SD),("layout callbacks (scale_to_fit)",TB)],["pages of each render"])
p("D05","slide_postprocessing sees each rendered slide once, before it is rendered",
"""The postprocessing function is called once per render, with the root boxes of exactly the rendered slides in order (external PDFs have none), after the deck was built and before any page is produced; everything it adds
(items, boxes, fragments) is part of the output of this render, and slides that are not rendered are untouched.""",
["programs","histories"],"every deck, selection and postprocessing program (items, further fragments, numbering by current_fragment)",
"One example in the docs; no test with selections or external PDFs.",
[SD],[("render",SD)],["argument of the callback","pages of the output"])
p("D06","The debugging mode of a deck leaves exactly the rendered pages as SVG files",
"""With debug=True (Inkscape backend), every render writes each page of the rendered slides, before any grouping, to a file <number of the slide>-<fragment>.svg of the cache directory whose content is exactly the SVG of the page;
no two slides of a deck share their files (also after slides were replaced), external PDFs have none, files of pages that are not rendered stay as they were, pruning included, and the output is the same as without the debugging mode; without debug there are no such files.""",
["histories"],"every history of new, replaced and rejected slides, fragments, external PDFs, selections, groupings and renders of every kind",
"No test uses debug=True.",
[SD,RE,SL],[("render",SD),("SvgRenderUnit.write_debug",RE)],["files of the cache directory after each render","pages of the output"])
p("D07","A failed call leaves the deck, its output file and its cache as they were",
"""A new_slide() or slide() rejected for its view box leaves all slides in place, also the one its name would have replaced. A render() that fails (no slides, slides_per_page that is no pair of integers, an unknown merger, a missing or broken
external PDF, external PDFs in another export type, grids with the Cairo backend, something that is no slide in select_slides, a postprocessing function that raises, an output folder that doesn't exist) raises an exception, leaves an existing output file as it was and removes no exported page from the cache,
calls no postprocessing function if the selection is empty or slides_per_page malformed, and later calls and renders give what they would have given without it.""",
["histories"],"every failing call at any point of a history of slides, PDFs and renders, for each reason, with any other arguments",
"Tests check that some arguments are rejected, never what a rejected or failed call leaves behind.",
[SD,RE,PM],[("new_slide",SD),("render",SD),("mergers",PM)],["the exception","the output file and the cache directory afterwards","pages of later renders"])
p("C01","A cache directory never changes the output",
"""Whatever runs happened before on a cache directory (other decks, other texts, styles, images or export types, pruned or not, saved or not, other Elsie or Inkscape versions, text-to-path on or off, failed runs),
a render gives exactly the output it would give with an empty cache directory.""",
["histories","configurations"],"every sequence of runs on one cache directory, each with any deck, any render options, any Inkscape version or text-to-path setting, some of them failing",
"Tests start from an empty cache directory; the relation spans runs.",
[CA,SB,SD],[("content-addressed names",CA),("version prefix",CA),("query cache header",SB)],["pages of the output PDF / exported files compared with a run on an empty directory"],
[("cache.* files","exported pages",CA),("queries3.cache","text measurements",SB)])
p("C02","Unchanged pages and texts are not exported or measured again",
"""Within one run and in later runs on the same cache directory, Inkscape is asked to export a page only if no earlier export of the same page content and type (same versions and settings) is still cached, and to measure a text only
if that measurement is not cached; in particular running an unchanged program again, also after rendering twice, causes no export and no measurement.""",
["histories"],"every sequence of runs on one cache directory with overlapping decks, repeated renders, pruning on or off, saving on or off",
"Nothing in the tests counts Inkscape commands.",
[CA,SB,SD],[("FsCache.ensure",CA),("process_query",SB),("prune_cache/save_cache",SB)],["command log of the Inkscape process"])
p("C03","Pruning removes exactly the unused cache entries and never breaks the deck",
"""A successful render with prune_cache removes from the cache directory every exported page and stored measurement that the deck has not used, keeps everything used by this render, and touches no other file; without prune_cache nothing
is removed. After any sequence of renders, prunes and selections the same deck object can still be rendered completely, also when other decks use and prune the same directory in the meantime.""",
["histories"],"every sequence of renders of one or two deck objects with arbitrary selections, prune flags, export types and further construction, on a directory with earlier content and foreign files",
"Tests prune once in an empty directory.",
[CA,SB,SD],[("remove_unused",CA),("prune_cache",SB)],["listing of the cache directory after each render","success and pages of later renders"],[("touched_files/cache_files","used and present entries",CA)])
p("C04","Concurrent requests for one cache entry build it once and see it complete",
"""When several threads ask the file cache for entries at the same time, each entry is built by at most one thread at a time and not again once built, every caller that waits returns only after the file is complete, and different entries do not disturb each other.
If building fails, only the building caller gets the error, the others (and later callers) build it themselves, and no caller waits forever; a caller that does not wait on a collision returns immediately with the same path.""",
["schedules","fault_sequences"],"every interleaving of the steps of several threads calling ensure() on equal and different inputs, with any subset of constructor calls failing",
"Single-threaded tests execute none of the collision paths.",
[CA],[("FsCache.ensure: lock, in_progress, condition",CA)],["constructor calls, return values, files at the moment of return, under a deterministic scheduler"],
[("in_progress","entries being built",CA)])
p("C05","A run interrupted at any point leaves a cache that the next run can use",
"""If a run is killed at any moment (between any two file operations, or in the middle of writing a file by Elsie or by Inkscape), the next run on the same cache directory succeeds and gives the output it would give with an empty cache directory.
An export or measurement that failed leaves no cache entry behind.""",
["crash_points","fault_sequences"],"every crash point of a run (each file-system effect, each partially written file), followed by one or more runs",
"No test kills a run.",
[CA,SB],[("write to a temporary name, then rename",CA),("_save_query_cache",SB)],["output of the run after the crash","exceptions of that run"])
p("I01","Every reply and export of the Inkscape process belongs to its request",
"""Whatever sequence of measurements and exports is made through one Inkscape process, each measurement returns the value Inkscape computed for that text and query and each exported file shows that page in the requested type,
also when Inkscape prints additional lines (warnings) before a reply, replies in arbitrarily small pieces, or a previous request failed; a reply that is not a number or a missing export file raises an exception and is not stored.""",
["fault_sequences","histories"],"every sequence of query/export requests, every chunking of the process' output, extra output lines, error replies and missing files at any position",
"Tests talk to one well-behaved Inkscape.",
[IK,SB],[("wait_for_prompt",IK),("run_command",IK),("run_query",IK),("export_by_inkscape",IK)],["values used by the layout","exported files","exceptions"])
p("I02","A dying or noisy Inkscape process never hangs Elsie",
"""If the Inkscape process terminates at any point of the conversation, the call in progress (and later ones) raise an exception instead of waiting forever, and however much Inkscape writes to its standard error, the conversation goes on unaffected.""",
["fault_sequences"],"every point of the conversation at which the process exits (before, inside or after a reply), any amount of stderr output at any point",
"Tests never let Inkscape die or talk.",
[IK],[("wait_for_prompt",IK),("Popen pipes",IK)],["termination of the call within a bound","exceptions"])
p("T01","Inline markup: every input is parsed exactly, losing and inventing no character",
"""In text with escape character e and brackets {, } (or any three-character setting), 'e name { ... }' gives its content the style name, blocks nest arbitrarily, a doubled e is a literal e, a closing bracket outside of any block is literal text, and an unclosed block is rejected;
all other characters appear in the output unchanged and in order, line by line, under exactly the blocks that enclose them (only line breaks at the very end are dropped).""",
["inputs"],"every string over the markup alphabet (escape, brackets, names, letters, blanks, line breaks, XML special characters) and every escape setting, also in code without language",
"Tests parse about ten strings; '~~' as documented was not implemented (fixed here).",
[TP,BM],[("parse_text",TP),("normalize_tokens",TP)],["text and effective styles per character in the SVG of the page"])
p("T02","Highlighting never alters code, and user styles apply to exactly their range",
"""Highlighted code shows exactly the given code (tabs expanded to the tab size; line breaks at the start and end of the text aside), every token in the style of its token type, and with use_styles also every character of a user style block in that style,
however the block overlaps the tokens; of two user blocks the inner one wins (where a token and a user style set the same attribute, one of them is used, the user's if it has the higher priority). With line_numbers each line is preceded by its right number, zero-padded to a common width, and the code itself is unchanged.""",
["inputs"],"every code text and language, every placement of nested user style blocks relative to token and line boundaries, tab sizes, line numbers on or off",
"Merging has a rich case analysis of overlaps; tests sample a few; the order of reopened styles was reversed (fixed here).",
[TP,HL,BM],[("tokens_merge",TP),("highlight_code",HL),("add_line_numbers",TP)],["text and effective styles per character in the SVG of the page"])
p("T03","Each character is drawn with the composition of its enclosing styles",
"""A character is drawn with the text's base style (completed from 'default'), overridden attribute by attribute (font, size, color, opacity, bold, italic, numeric variant) by the enclosing inline styles from the outermost to the innermost, where an inline style of
lower priority than the effective style around it has no effect; a '#name' that is not a defined style only marks a range. An undefined inline style is rejected; line breaks inside of styles change no character's style, and line k of a text starts at the text's x and k line heights (size times line spacing) below the first line.""",
["inputs","programs"],"every token sequence with nesting, priorities, dummy styles, line breaks anywhere; every combination of set/unset attributes",
"Tests contain a few nested examples; line breaks inside of suppressed or dummy styles crashed (fixed here).",
[DR,TS,TB],[("draw_text",DR),("TextStyle.compose",TS)],["effective style per character and line positions in the SVG of the page"])
p("T04","Named styles are scoped: a box sees what its parent had when it was created",
"""A box has the named styles its parent (for a slide: the deck) had at the moment of its creation; setting or updating a style on a deck or box afterwards affects only later texts of that box and boxes/slides created later below it, never siblings, ancestors, existing descendants
or texts already made. A style object obtained from or passed to one box, when changed by the caller, changes no style by itself; update_style(n,s) equals get, update, set; set_style with a base composes with that base; an unknown name is rejected, and so is a value an attribute cannot have (given to TextStyle or to one of its attributes), a style that is none or a name that is none; a rejected call changes no style and no style object.""",
["histories","programs"],"every interleaving of set_style/update_style/get_style/new_slide/box/text calls over any tree of boxes, with later mutation of style objects",
"Copy-on-write sharing between containers is aliasing-sensitive; tests check straight-line scoping.",
[SC,BX,SD,TS],[("copy-on-write dictionary",SC),("styles handed to child boxes",BM)],["get_style() of every container after every step","styles of drawn texts"])
p("T05","line_box and inline_box frame exactly the lines and ranges they name",
"""line_box(i,n) is a box as wide as the text's box whose vertical extent covers lines i..i+n-1 of the drawn text; inline_box(style,k) covers, on its line, from the left edge to the width of the k-th range with that style as it is drawn (any alignment, scaling, surrounding styles). Both are ordinary child boxes of the text's box: they accept all box
arguments, follow the text wherever the layout puts it, and do not move or resize the text; asking for a range that does not exist is rejected.""",
["inputs","programs"],"every text (lines, empty lines, nested styles), alignment, line spacing, scale_to_fit, place in the layout, index and count",
"Geometry depends on text, style, alignment and layout; tests have a few pictures.",
[TB,TP],[("line_box/inline_box",TB),("extract_line",TP)],["rectangles drawn into the boxes, in the SVG of the page"])
p("T06","Text asks for its own size and scale_to_fit fits it exactly",
"""A text makes its box at least as wide as its longest line and as high as its number of lines times the line height, and is drawn aligned horizontally by its alignment and centred vertically in the box. With scale_to_fit it is scaled by the largest factor with which it fits both dimensions of the box it got,
keeping its proportions, requests its natural size only in dimensions the box does not define, and is not drawn when nothing fits. A rotation turns it clockwise by its angle around the centre of the box, and changes nothing else.""",
["inputs","programs"],"every text, style, box size definition and place in the layout, both with and without scale_to_fit, several texts in one box",
"Tests compare a few pictures.",
[TB],[("_make_query",TB),("render",TB),("layout callback",TB)],["position and transform of the text element; box rectangles"])
p("G01","Image fragments follow the labels, show_begin and select_fragments",
"""An SVG (or ORA) image placed on a slide shows in slide fragment f exactly the elements whose label annotation, and that of all enclosing elements, includes image fragment f-show_begin+1 (elements without annotation always), and nothing before show_begin; with select_fragments the image fragment is taken from that list
(None or past the end: nothing), and with fragments=False annotations are ignored. The slide gets enough fragments to show all of them, the fragments of the image's box still apply, and later changes of the list by the caller have no effect.""",
["inputs","configurations"],"every tree of labelled elements, every show_begin, select_fragments and fragments setting, image boxes with any fragment selector",
"Tests use one or two fixed images; an image whose labels all end in fragment 1 never lost them (fixed here).",
[IM,BM,SH],[("create_image_data",IM),("get_image_steps",IM),("_image_svg",BM)],["ids of image elements in the SVG of each page","number of fragments"])
p("G02","Images keep their aspect ratio, fill their box and ask for the right size",
"""A bitmap or SVG image is drawn undistorted and centred in its box, with the given scale, else with the largest scale that fits the box in both dimensions (a box dimension of zero is left out of account). A box without size definitions is made at least the (scaled) image size; if a width or height is defined,
the other dimension of its inner area is requested in the image's aspect ratio; units (px, mm, cm, pt, in, pc) of SVG sizes are respected.""",
["inputs","programs"],"every image size and unit, scale, box size definition and place in the layout, several images and texts in one box",
"Tests use three fixed images, and most of them cannot pass here.",
[BM,LA,SV],[("scaler",BM),("set_image_size_request",LA),("svg_size_to_pixels",SV)],["position and scale of the drawn image; box rectangles"])
p("G03","ORA layers are converted in order, with places, visibility and names",
"""An ORA image shows exactly its visible layers that are not empty, inside of visible stacks only, painted from the bottom layer to the top one, each at its offset (plus those of its stacks) with its opacity and pixels; layer and stack names with '**' annotations select fragments as in SVG images.""",
["inputs"],"every tree of stacks and layers with offsets, visibility, opacity, empty layers and annotated names",
"One fixed ORA file.",
[OR,BM],[("convert_ora_to_svg",OR),("_image_ora",BM)],["image elements in the SVG of each page"])
p("E01","Lists number and reveal their items correctly at any nesting",
"""Each item of an ordered list is labelled with the dot-joined counters of its list: one per level, the last counting from start with every item, sublists fixing the counters of their parents at their creation (or the given level); unordered lists use their bullet. A label given to a sublist or an item applies to it alone.
By default an item or sublist appears from the current fragment on ('last+'); box arguments of a list apply to its items and sublists, those of an item to that item only. Items stand one below the other with their labels at one left edge, the content of an item label_padding (its own, else the one of its list or of the list around) right of its label. An item or sublist that is rejected leaves nothing behind and isn't counted. How far a list is indented depends on the indents given for it and the lists around it alone (else the one of the list around is used): an indent of 0 is an indent, and without any nothing moves.""",
["histories"],"every interleaving of item/ul/ol calls on any list of a nesting, with starts, levels, labels and show arguments",
"Counters are stateful per builder; tests have a few lists.",
[LI],[("ListBuilder",LI)],["label texts and item texts per page, in order","arguments of label functions"])
p("E02","Markdown shows all supported content in order with the right styles",
"""Every heading, paragraph, list item, quote and fenced code block of a Markdown text appears once and in order, with its text complete, headings in the style of their level, bold/italic/link spans and quotes in theirs (nested ones combined), ordered lists numbered from their start and unordered lists with their bullet, at any nesting;
styles already defined on the parent box take precedence over the predefined ones, and blank text draws nothing.""",
["inputs"],"every document built from headings, paragraphs, emphasis, links, nested lists, quotes and code, without markup characters of the inline style language inside of emphasised text",
"Four fixed documents.",
[MD],[("build_*",MD)],["texts and effective styles in the SVG of the page"])
p("E03","LaTeX snippets are embedded at size, cached by content, with ids kept apart",
"""A LaTeX snippet is rendered from exactly header, text and tail, drawn at its size times scale centred in its box, which grows to hold it; it is compiled once per content for a cache directory. Ids inside different snippets never clash, every internal reference still points to the element it pointed to, and a failing compiler
raises an exception and leaves no cache entry.""",
["inputs","histories"],"every id/reference structure of the compiled SVG, sequences of snippets and runs, compiler failures",
"No LaTeX in the test environment; not tested at all.",
[LX,SV,CA],[("latex",LX),("rename_ids",SV)],["compiler invocations","ids and references in the SVG of the page"])
p("J01","The HTML viewer always shows exactly one fragment and steps within bounds",
"""In the HTML preview of a slide with several fragments, after any sequence of clicks exactly one fragment is displayed: the one whose number is shown; previous and next move by one, do nothing beyond the ends and are disabled exactly there. The preview contains all fragments in order, several previews on one page do not influence each other, and a slide with one fragment has no controls.""",
["histories"],"every number of fragments and every click sequence, on several viewers in one document",
"No test runs the JavaScript.",
[JU],[("get_javascript",JU),("render_slide_html",JU)],["DOM state after each event (node)"])
p("W01","Every page is well-formed XML carrying names, attributes and texts unchanged",
"""Whatever characters (quotes, angle brackets, ampersands, blanks, non-ASCII ones) occur in texts, style attributes, colours, fonts, dash patterns and box names, every page of the SVG backend is a well-formed XML document, the texts on it read back exactly as given (blanks as non-breaking ones) and so do the attributes;
no character of one value can end it, add an element or an attribute, or change another one.""",
["inputs"],"every text and attribute value, in every place where the public interface takes one",
"Tests use harmless strings; apostrophes in attributes produced broken XML (fixed here).",
[SX,DR,RC,SV],[("Xml.set/text",SX),("escape_text",SX),("set_paint_style",DR)],["the page parsed by an XML parser"])
p("W02","Shapes are drawn with exactly their geometry, paint and arrow heads",
"""Every rectangle, ellipse, polygon, line, path and image of a slide appears on the SVG page with exactly the points given (relative to its box), its corner radii, rotation around its centre, fill, line colour, width and dash pattern; arrow heads sit on the ends of their lines, point along them, have their size, angle and form and the line's colour, and the line ends below them.
Paint and attributes of one shape never affect another one; the page has the deck's size and shows exactly the view box of the slide; an ellipse of no width draws nothing; later changes of the lists of points and commands by the caller have no effect.""",
["programs"],"every tree of boxes with shapes, fragments, z-levels, rotations, arrows, view boxes and every sequence of path commands (M, L, C, S, Q, T, also with repeated arguments)",
"Tests compare a few fixed pictures; zero radii were lost (fixed here).",
[DR,RC,"elsie/shapes/arrow.py","elsie/shapes/path.py","elsie/boxtree/boxmixin.py","elsie/utils/geom.py"],[("draw_*",DR),("Arrow.render","elsie/shapes/arrow.py"),("check_and_unpack_path_commands","elsie/shapes/path.py"),("find_centroid","elsie/utils/geom.py")],["figures (paint, width, dashes, points) of the page's SVG"])
p("B01","The Cairo backend paints the same shapes at the same places in the same order",
"""For every slide made of boxes, rectangles, ellipses, lines, polygons, paths and images, the Cairo backend produces one page per fragment which paints the same visible shapes as the slide describes (and the SVG backend draws), in the same order, with the same colours, line widths and dashes, and with all points at the same places (rotation, arrow heads and view box included);
attributes of one shape never affect another one.""",
["programs"],"every tree of boxes with shapes, fragments, z-levels, rotations, arrows, view boxes and every sequence of path commands (M, L, C, S, Q, T, also with repeated arguments)",
"Cairo/Inkscape picture comparisons of the tests are disabled or fail here, and cover a few shapes; S after S, repeated arguments, dashes of ellipses, corners, polygon outlines, view boxes of images were wrong (fixed here).",
[CR,CS,CB,"elsie/render/backends/cairo/draw.py","elsie/render/backends/cairo/svg.py"],[("CairoRenderingContext",CR),("draw_path",CS),("render_svg","elsie/render/backends/cairo/svg.py")],["content streams of the produced PDF"])

p("B02","PNG pages of the Cairo backend show the slide pixel by pixel",
"""Exporting a deck to PNG with the Cairo backend gives one file per fragment, of exactly the deck's size in pixels; every pixel away from edges has exactly the colour of the topmost shape or image covering it on that fragment of the slide (fills, lines, both halves of an image, translucent colours with their own alpha), and is transparent where nothing is painted;
view boxes, rotations, z-levels, line widths and SVG images in any unit (px, pt, mm, in) are as in the PDF pages.""",
["programs"],"every slide of boxes, shapes, paths and images; every pixel",
"The PNG export is tested for the number of files only; translucent pixels came out too dark and SVG images in mm or pt too big (fixed here).",
[CR,CB,"elsie/render/backends/cairo/draw.py","elsie/render/backends/cairo/svg.py"],[("CairoRenderUnit.export",CB),("CairoRenderingContext.__init__",CR)],["pixels of the PNG files"])

p("B03","Texts drawn by the Cairo backend have the described characters, looks and places",
"""With the Cairo backend, every text of every slide is drawn with exactly its characters in reading order; each character has the font, size, colour, weight, slant and opacity of the composed styles around it;
lines start and end where the alignment says, successive lines are size * line_spacing apart, the text is centred vertically in its box, texts scaled to fit fill their box in one direction and stay inside it, rotation and view boxes move the text like anything else;
line_box and inline_box frame exactly the drawn lines and ranges.""",
["programs"],"every text with nested inline styles, several lines, alignments, sizes, scale_to_fit, rotation, view boxes",
"Pictures of texts drawn by Cairo are not compared by the tests that pass here; line distances, wrapping of scaled texts, ranges of nested styles and opacity were wrong (fixed here).",
[CR,"elsie/render/backends/cairo/text.py","elsie/text/textboxitem.py","elsie/text/textstyle.py"],[("build_layout","elsie/render/backends/cairo/text.py"),("get_text_and_attributes","elsie/render/backends/cairo/text.py"),("CairoRenderingContext.draw_text",CR),("compute_subtext_extents","elsie/render/backends/cairo/text.py")],["glyphs of the produced PDF"])

def main():
    here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here,"properties.jsonl"),"w") as f:
        for x in P:
            assert len(x["title"])<=80,(x["id"],len(x["title"]))
            f.write(json.dumps(x,ensure_ascii=False)+"\n")
if __name__=="__main__": main()
