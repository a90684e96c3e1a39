#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here, one call per property)."""
import json, os
OUT = []
def P(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    OUT.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=['pdfme/' + f for f in files], state=[dict(name=x) for x in state],
                     mechanism=[dict(name=n, where='pdfme/' + w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

SMOKE = ('The existing tests only check that building a document with seeded random '
         'content does not raise; no test reads the bytes back. ')

P('C01', 'Cross-reference table locates every object and the trailer',
  'In every file written, each cross-reference entry is a fixed 20-byte record holding the exact byte offset at which that object\'s "N 0 obj" header starts, in object-number order, preceded by the free entry 0. The startxref value is the byte offset of the cross-reference keyword, and the table size and the trailer Size are the number of objects plus one.',
  ['inputs'], 'every sequence of objects, of any kind and byte length (including binary streams and non-ASCII text), written to any buffer',
  SMOKE + 'An off-by-one offset is silently repaired by most viewers.',
  ['base.py', 'utils.py'], ['running byte count', 'cross-reference text'],
  [('offset bookkeeping while writing', 'base.py: PDFBase.output')], ['bytes written to the buffer'])
P('C02', 'Object numbers are unique, dense and match their references',
  'Objects are numbered 1, 2, 3... in the order they are added, no number is ever reused, skipped or reassigned, and an added object is never removed, replaced or reordered by the library. Every indirect reference the library writes ("N 0 R") is the number given to the object it is meant to denote, and the trailer\'s Root is the catalog.',
  ['inputs', 'histories'], 'every sequence of additions made while a document is built',
  SMOKE + 'Numbering must hold for every history of additions, from every part of the library.',
  ['base.py', 'parser.py', 'pdf.py'], ['object list', 'next object number'],
  [('numbering', 'base.py: PDFBase.add'), ('reference rendering', 'parser.py: PDFRef.ref')],
  ['object headers and references in the output'])
P('C03', 'Every supported value is serialised as the PDF object it denotes',
  'Booleans are written as true/false, references as "N 0 R", byte strings verbatim, integers and floats as plain decimal numbers without exponent, strings as literal strings, dictionaries and lists with all of their entries in order, and wrapped objects as their value. Adjacent tokens never run together.',
  ['inputs'], 'every value built from the supported types, nested to any depth',
  SMOKE + 'The type dispatch has overlapping cases (bool is an int, a reference is an int) that sampled documents may never reach.',
  ['parser.py'], [], [('type dispatch', 'parser.py: parse_obj'), ('containers', 'parser.py: parse_dict, parse_list')],
  ['serialised bytes of an object'])
P('C04', 'Text inside literal strings is escaped exactly once',
  'Wherever user-supplied text or encoded glyph codes are written between the parentheses of a literal string, in objects (titles, destinations, URIs) and in page contents (paragraph text and list markers), the characters backslash, "(" and ")" are preceded by exactly one backslash and no other character is altered by the escaping. In objects and in glyph codes a carriage return is escaped too. Text is converted to glyph codes before it is escaped, never after.',
  ['inputs'], 'every text, containing any mix of backslashes, parentheses, carriage returns and other characters, in every place that writes a literal string',
  SMOKE + 'The random test words are plain letters; one missed sink or a doubled escape corrupts only texts with special characters.',
  ['parser.py', 'text.py', 'utils.py', 'fonts.py'], [],
  [('object strings', 'parser.py: parse_obj'), ('page text', 'text.py: PDFTextBase.output_text'), ('glyph codes', 'fonts.py: PDFTrueTypeFont.encode_text')],
  ['literal strings in the output'])
P('C05', 'Page contents are always well-formed operator sequences',
  'Everything the library adds to a page is a sequence of PDF operators separated by white space, each with the number and kind of operands it takes, also where fragments added by different calls meet. Graphics-state saves and restores and text-object begin/end pairs are balanced and properly nested, text operators only occur in text objects, paths are painted where they are built, and numbers are written without exponent.',
  ['inputs'], 'every combination of text, links, images, fills, lines, borders, list markers and footnotes',
  SMOKE + 'Nothing parses the content streams.',
  ['text.py', 'utils.py', 'page.py', 'document.py', 'color.py'], ['page content fragments', 'paragraph text and graphics streams'],
  [('paragraph operators', 'text.py: PDFTextBase.add_line_to_stream, output_text, output_graphics'), ('lines and fills', 'utils.py: create_graphics'), ('assembly', 'utils.py: get_paragraph_stream'), ('images', 'page.py: PDFPage.add_image')],
  ['page content streams'])
P('C06', 'Graphics-state operators are only left out when they would be redundant',
  'Font, size, colour, rise, word spacing, line width and dash pattern are re-emitted whenever the value wanted differs from the value last emitted in the same text or graphics block, and the first use in a block always emits them. A setter is only omitted when the remembered value, which is updated at every emission, equals the wanted one.',
  ['inputs', 'histories'], 'every sequence of styled text parts, table borders and fills, in any order',
  SMOKE + 'Whether a redundant-looking operator may be dropped depends on the previous elements; a wrong omission only shows for particular sequences of styles.',
  ['text.py', 'utils.py', 'color.py'], ['last emitted font/size/colour/rise/spacing/width/dash'],
  [('text state comparison', 'text.py: PDFState.compare'), ('word spacing', 'text.py: PDFTextBase.output_text'), ('underline and background', 'text.py: PDFTextBase.output_graphics'), ('lines and fills', 'utils.py: create_graphics')],
  ['page content streams'])
P('C07', 'Stream dictionaries describe the bytes that follow them',
  'Each stream is written with a Length equal to the number of bytes between the stream and endstream keywords, and those bytes are the content encoded with exactly the filter the dictionary declares; data that is already encoded is not encoded again, and an unknown or unsupported filter is an error. Writing a stream leaves the object able to be written again with the same result.',
  ['inputs'], 'every stream, with or without filter, given as bytes or as page fragments, serialised any number of times',
  SMOKE, ['parser.py', 'encoders.py'], ['stream dictionary'],
  [('stream serialisation', 'parser.py: parse_stream'), ('filters', 'encoders.py: encode_stream')], ['serialised stream objects'])
P('C08', 'The page tree contains every page once, in order, with its own size',
  'Every page created is reachable from the catalog\'s page tree exactly once, in creation order, each with a Parent that lists it, a Count equal to the number of pages below each node, and a MediaBox of the page\'s own width and height.',
  ['inputs'], 'any number of pages, of any sizes',
  SMOKE, ['pdf.py'], ['list of pages', 'catalog'], [('tree construction', 'pdf.py: PDF._build_pages_tree')], ['page tree in the output'])
P('C09', 'The destination name tree is sorted, complete and correctly bounded',
  'Every label placed in the document appears exactly once in the name tree, paired with its own destination, in sorted order. Every node below the root carries limits equal to the first and last name under it, every node is linked from exactly one parent, and the root is registered in the catalog.',
  ['inputs'], 'any number of labels, with any names',
  SMOKE + 'The tests use fewer labels than it takes to build several levels.', ['pdf.py'], ['destinations'],
  [('tree construction', 'pdf.py: PDF._build_dests, PDF._build_dests_tree')], ['name tree in the output'])
P('C10', 'The outline tree is a well-linked image of the outlines declared',
  'Every outline item is written once, in declaration order, with its own title and destination, its parent, and links to the previous and next sibling; each parent links to its first and last child. The number of visible items is counted consistently: an item below the configured open level is written closed.',
  ['inputs'], 'any outline hierarchy, any configured number of open levels',
  SMOKE, ['pdf.py'], ['outline list'], [('tree construction', 'pdf.py: PDF._build_outlines, PDF._build_outlines_tree')], ['outline objects in the output'])
P('C11', 'Every font and image a page uses is declared in that page\'s resources',
  'Whenever page contents select a font or draw an image by name, that page\'s resources map exactly that name to the object of that font or image; this holds on every page a paragraph continues on and for list markers. A font or image used several times in a document is added once, and two different ones never share a name on a page.',
  ['inputs'], 'every document, with any mix of fonts, modes, list markers, images and page breaks',
  SMOKE + 'A missing resource only shows as substituted text in a viewer.', ['text.py', 'pdf.py', 'page.py', 'fonts.py'],
  ['fonts used by a paragraph', 'page resources', 'document fonts and images'],
  [('fonts used by each line', 'text.py: PDFTextBase.add_part, add_current_line, add_line_to_stream'), ('font registration', 'pdf.py: PDF._add_text, PDF._used_font, PDF._add_or_get_font'), ('image registration', 'pdf.py: PDF.add_image, page.py: PDFPage.add_image')],
  ['page Resources dictionaries'])
P('C12', 'Image files are closed on every outcome and caller streams are left open',
  'A file the library opens to read an image is closed again on every outcome, including unsupported types, bad arguments and unreadable or corrupt data. A stream supplied by the caller is never closed.',
  ['inputs', 'fault_sequences'], 'every image source, valid or not, and an exception at any point while it is read',
  'Exceptional exits at arbitrary points cannot be enumerated by sample images; no test looks at file handles.', ['image.py'], ['open file handle'],
  [('open/close', 'image.py: PDFImage.__init__')], ['file descriptors after the call'])
P('C13', 'Images keep their proportions',
  'Wherever the library derives an image\'s drawn width or height itself (page images with a missing dimension, images in content boxes, groups, shrunk images and images in table cells), the drawn width to height ratio equals the ratio of the image\'s pixel dimensions. Explicitly given dimensions are used as given.',
  ['inputs'], 'every image size, available width and height, and style',
  SMOKE, ['pdf.py', 'content.py', 'table.py'], [], [('sizing', 'pdf.py: PDF.add_image; content.py: PDFContentPart.process_image; table.py: PDFTable.process_image')], ['drawn image matrix'])
P('C14', 'Documents built in the same process do not influence each other',
  'Apart from the explicit, process-wide registration of font files, building one document changes nothing that another document built later or at the same time can observe: default styles, colour, font-width and page-size tables, default arguments and class-level tables are never modified by building documents.',
  ['histories'], 'any sequence of documents built in one process',
  'Each test builds one document; interference needs particular histories.', ['color.py', 'fonts.py', 'utils.py', 'text.py', 'content.py', 'table.py', 'document.py', 'pdf.py', 'encoders.py'],
  ['module-level tables', 'class attributes', 'default arguments'], [('font registry', 'fonts.py: PDFFont, PDFFonts'), ('default styles', 'text.py: TEXT_DEFAULTS'), ('colour table', 'color.py: parse_color')], ['output of a later document'])
P('C15', 'The caller\'s documents, contents and styles are never modified',
  'Dictionaries and lists handed to the library - whole documents, sections, contents, elements, styles, formats, tables, rows, cells, borders, fills - are left exactly as they were, so that the same object can be used again in another place or another document with the same meaning.',
  ['inputs', 'histories'], 'every content structure and every history of using it once or several times',
  'Tests build fresh random content for each run and never compare it afterwards.', ['pdf.py', 'content.py', 'table.py', 'text.py', 'document.py', 'utils.py'],
  ['caller-owned dictionaries and lists'], [('element normalisation', 'content.py: PDFContentPart.parse_element; table.py: PDFTable.get_cell_style; pdf.py: PDF._init_text'), ('document traversal', 'document.py: PDFDocument')], ['caller\'s data after the call'])
P('C16', 'A saved layout position captures everything needed to resume from it',
  'When a paragraph, table or content box is put back to a position it saved earlier (as happens when columns are balanced or a page is laid out again because of footnotes), it continues exactly as it would have from that position: everything its layout carries over from one page or column to the next is part of the saved position and is restored with it. A saved position is not altered by laying out further.',
  ['histories'], 'every history of interrupting, restoring and continuing paragraphs, tables and content boxes',
  SMOKE + 'Restores only happen for particular combinations of columns, footnotes and page breaks.', ['text.py', 'table.py', 'content.py'],
  ['position within paragraph/table/content box', 'delayed elements'],
  [('save/restore', 'text.py: PDFTextBase.get_state/set_state; table.py: PDFTable.get_state/set_state; content.py: PDFContentPart.get_state/set_state')], ['laid-out parts after a restore'])
P('C17', 'Links, labels, underlines and backgrounds sit on the text they belong to',
  'The horizontal position used for the link rectangles, destinations, underlines and backgrounds of a piece of text is the position at which that text is drawn, for every alignment, indent and list marker, on first and later lines. Their vertical position follows the same baseline the text is drawn on, and they are translated to the page by the paragraph\'s own origin.',
  ['inputs'], 'every paragraph: any alignment, indent, list indent, number of lines, first or continued block',
  SMOKE, ['text.py', 'pdf.py', 'utils.py', 'page.py'], ['pen position', 'line and part positions'],
  [('line placement', 'text.py: PDFTextBase.add_line_to_stream'), ('translation', 'pdf.py: PDF._add_text')], ['annotation rectangles, destinations and graphics in the output'])
P('C18', 'Output order never depends on hash order, addresses or time',
  'The order in which objects, running sections, fonts and other elements are processed and written is determined by the order in which the caller supplied them, never by the iteration order of an unordered collection, so building the same document in another process gives the same objects in the same order. Random or environment-dependent values are used only for the file identifier and for the names of anchors the caller did not name.',
  ['inputs', 'configurations'], 'every document, every hash seed, process and time',
  'A test run sees one hash seed; the order only differs between processes.', ['document.py', 'text.py', 'pdf.py', 'base.py'], ['sets of fonts and section names'],
  [('running sections', 'document.py: PDFDocument._process_section'), ('fonts used', 'text.py: PDFTextBase, pdf.py: PDF._add_text')], ['object order in the output'])
P('C19', 'Styles cascade in one consistent order and never leak',
  'At every level the style of an element is its parent\'s style, overridden by the short style string in its dot key, overridden by its own style (a dictionary or the name of a format), in paragraphs, content boxes, groups and table cells alike. A child\'s style never changes the style of its parent or its siblings.',
  ['inputs'], 'every nesting of styled elements',
  SMOKE, ['text.py', 'content.py', 'table.py', 'pdf.py', 'utils.py'], ['style dictionaries'],
  [('cascade', 'text.py: PDFText._recursive_content_parse; content.py: PDFContentPart.get_element_styles; table.py: PDFTable.get_cell_style; pdf.py: PDF._init_text')], ['styles of the text drawn'])
P('C20', 'Document-wide settings apply wherever the caller gives none',
  'The font family, size, colour, text alignment, line height and indent configured for a document are what paragraphs, tables and content boxes use when the call or element does not say otherwise, and an explicit value always wins, including values such as zero. A document description\'s style settings reach the document the same way.',
  ['inputs', 'configurations'], 'every configuration and every subset of explicitly given options',
  'The tests never combine configured defaults with omitted arguments and look at the result.', ['pdf.py', 'document.py'], ['document-wide settings'],
  [('defaults', 'pdf.py: PDF._default_paragraph_style, PDF._default_content_style, PDF._init_text, PDF.text'), ('document description', 'document.py: PDFDocument.__init__')], ['drawn text'])
P('C21', 'Elements mean the same in content boxes, groups and table cells',
  'Text, images, tables and content boxes are recognised by the same keys, and the paragraph options (alignment, line height, indent, list text, list indent, list style) and table options (widths, borders, fills) given in a style or element reach the paragraph or table in every container that accepts it. Every element kind has a handler in each container that documents it, and an element in text that is a number is treated as its text.',
  ['inputs'], 'every element kind in every kind of container',
  SMOKE + 'The tables of options are duplicated per container and can drift apart.', ['content.py', 'table.py', 'text.py', 'pdf.py'], [],
  [('content dispatch', 'content.py: PDFContentPart.process, process_group_element, parse_element'), ('cell dispatch', 'table.py: PDFTable.add_cell, get_cell_style'), ('option tables', 'content.py: PARAGRAPH_PROPERTIES, TABLE_PROPERTIES; table.py: PARAGRAPH_PROPS, TABLE_PROPS')], ['drawn elements'])
P('C22', 'Every new page starts from the settings in force, numbered and decorated',
  'A new page uses the size, orientation and margins given for it or else those in force, without changing the settings in force. It becomes the current page and the page-number variable takes its number (position plus offset, in the configured numbering style) before its running sections are drawn on it, all of them in order, and the cursor is at the top-left of the content area when the page is handed over.',
  ['inputs', 'histories'], 'every history of page additions with any subset of overrides, offsets, numbering styles and running sections',
  SMOKE, ['pdf.py', 'page.py', 'document.py'], ['current page', 'page-number variable', 'cursor'],
  [('page creation', 'pdf.py: PDF.add_page, PDF.page_index, PDF.get_page_number'), ('page geometry', 'page.py: PDFPage.__init__, go_to_beginning')], ['pages in the output'])
P('C23', 'Everything laid out is drawn exactly once, in the right stacking order',
  'The fills, lines and parts produced by each layout run of a table or content box, and the text, graphics, fonts and links of each paragraph run, are all drawn on the current page exactly once, and those of an abandoned trial layout are all discarded. Fills are drawn before lines, both before text and images, and a paragraph\'s backgrounds and underlines before its text.',
  ['inputs', 'histories'], 'every document and every number of layout passes per page or column',
  SMOKE, ['pdf.py', 'content.py', 'table.py', 'document.py', 'utils.py'], ['parts, lines and fills of a run'],
  [('flush', 'pdf.py: PDF._table, PDF._content, PDF._text, PDF._add_parts; document.py: PDFDocument._add_content'), ('collection', 'content.py: process_text, process_table, reset; table.py: process_*')], ['page content streams'])
P('C24', 'Content that does not fit is carried over, never dropped',
  'When a paragraph, image, group, table or content box does not fit in the space left, the unfinished remainder together with its position is handed on to the next column, page or row continuation, and layout goes on with new pages until everything is finished. Something is reported as finished only when nothing of it remains.',
  ['inputs'], 'every content structure and every available height',
  SMOKE + 'No test looks for missing content.', ['pdf.py', 'content.py', 'table.py', 'text.py', 'document.py'], ['finished flags', 'delayed elements'],
  [('continuation loops', 'pdf.py: PDF.text, PDF.table, PDF.content; document.py: PDFDocument._process_section'), ('delaying', 'content.py: PDFContentPart.process_text, process_image, process_table, process_group, add_delayed, add_elements; table.py: PDFTable.process_text, process_image, process_content, process_table, run')], ['text and images in the output'])
P('C25', 'Page sizes and margins are interpreted as documented',
  'A number is a square page, a name is looked up in the documented size table, and a pair is width and height. Margins given as one, two, three or four numbers follow the CSS order (top, right, bottom, left) with the documented repetition, a string or dictionary means the same as the equivalent numbers, and each side reaches the page side of the same name.',
  ['inputs'], 'every accepted form of page size and margin',
  'The tests only use a few of the accepted forms.', ['utils.py', 'pdf.py', 'page.py'], [],
  [('margins', 'utils.py: parse_margin'), ('page size', 'utils.py: get_page_size'), ('use', 'pdf.py: PDF.setup_page, PDF.add_page')], ['page geometry'])
P('C26', 'Colours are parsed to their components and written with the matching operator',
  'A colour given as a number, name, hexadecimal string or list of components always yields the same components in red, green, blue order in the range the form prescribes, an absent colour yields none, and anything else is an error. It is written with the grey operator for one component and the RGB operator for three, using the stroking variant exactly when it colours lines and the filling variant exactly when it colours text, backgrounds and fills.',
  ['inputs'], 'every colour specification and every use',
  SMOKE, ['color.py', 'text.py', 'table.py', 'utils.py'], [],
  [('parsing', 'color.py: parse_color'), ('operators', 'color.py: PDFColor.__str__'), ('roles', 'text.py: PDFTextBase.output_graphics; table.py: set_default_border, setup_borders, _setup_cell_fill')], ['colour operators in the output'])
P('C27', 'Short style strings accept every documented attribute form',
  'Each documented attribute (b, i, u with no value or 0/1, f, c, bg, s, r) sets exactly its own style entry to the value given, white space around names and values is ignored, and unknown attributes, unknown fonts or malformed values raise an error instead of being dropped.',
  ['inputs'], 'every style string',
  'The tests only use a few attribute forms.', ['utils.py'], [], [('parsing', 'utils.py: parse_style_str')], ['parsed style'])
P('C28', 'Footnote numbers, references and notes agree on every page',
  'On each page footnotes are numbered from 1 in the order their references appear in the page\'s final layout, the reference text and the number in front of the note are the same, and exactly the notes referenced on that page are drawn below its content. When notes shrink the page, the page is laid out again from the position it started at and the notes drawn are those of the second layout.',
  ['inputs', 'histories'], 'every distribution of footnotes over pages',
  SMOKE, ['document.py'], ['footnote list', 'reference variables', 'page layout position'],
  [('collection and numbering', 'document.py: PDFDocument._check_footnote, _get_footnotes_obj'), ('two-pass layout', 'document.py: PDFDocument._add_content')], ['page contents'])
P('C29', 'Text is measured, selected and encoded with one and the same font',
  'The font whose widths position a piece of text (or list marker) is the font selected in the page contents for it and, for embedded fonts, the font whose glyph numbering encodes it; a mode switched off explicitly counts as off. Characters that an embedded font lacks are drawn as its missing-glyph symbol, and the encoding, descriptor and character map written for a font describe that font.',
  ['inputs'], 'every combination of font family, bold/italic settings, list style and text',
  SMOKE, ['text.py', 'fonts.py'], ['selected font'],
  [('selection', 'text.py: PDFState'), ('encoding', 'text.py: PDFTextBase.output_text, add_line_to_stream; fonts.py: PDFTrueTypeFont.encode_text'), ('font objects', 'fonts.py: PDFStandardFont.add_font, PDFTrueTypeFont.add_font, PDFFonts.get_font')], ['font selection and text operators'])
P('C30', 'Table borders and fills cover exactly the cells they are declared for',
  'A position string selects the rows and columns that a Python slice or a list of indexes would. Every edge of the grid is drawn with the width, colour and style declared last for it (else those of the table), except inside a spanned cell or where the width is zero, and no other line is drawn; every cell is filled over exactly its rectangle with its own colour, else the one declared for its position; and the text of a cell lies between its edges, inside the margins. This also holds across row and column spans and for the parts of a table that continues on another page.',
  ['inputs'], 'every table position and width, span layout, declaration of borders and fills, and break',
  SMOKE, ['table.py'], ['border and fill records', 'row and column spans'],
  [('declarations', 'table.py: PDFTable.parse_pos_string, setup_borders, setup_fills'), ('drawing', 'table.py: PDFTable.process_borders, is_span, add_row, get_cell_dimensions'), ('continuation', 'table.py: PDFTable.run, get_rest')], ['lines and rectangles in the output'])
P('C31', 'Roman page numbers are the correct numerals',
  'The number of a page is its position, counted from 1, plus the numbering offset. The roman numbering style shows, for every number from 1 to 3999, the standard roman numeral; the arabic style shows the number in decimal digits.',
  ['inputs'], 'every page number from 1 to 3999, every offset', SMOKE, ['utils.py', 'pdf.py'], ['page numbering offset and style'], [('conversion', 'utils.py: to_roman'), ('page number', 'pdf.py: PDF.get_page_number')], ['page-number text'])
P('C32', 'No word is lost or repeated when text continues in the next column or page',
  'However a paragraph is divided over lines, columns and pages, by the same object or from its saved state, the words drawn are those of the content, in order, each exactly once; a word is not divided between lines, even where it is made of several pieces of different style. After a line break the text goes on in a new line, and lines without words appear only where the content has them. A part with room for the next line draws it.',
  ['inputs', 'histories'], 'every paragraph, width and sequence of available heights', SMOKE, ['text.py'], ['position reached in the content', 'words waiting for the next line'],
  [('resumption', 'text.py: PDFTextBase.run, add_part, add_current_line, get_state, set_state'), ('lines', 'text.py: PDFTextLine.add_word, add_accumulated')], ['words in the text operators'])
P('C33', 'Lines never exceed the paragraph width and justified lines fill it exactly',
  'A line of more than one word lies between the edges of its paragraph, after the indent of the first line and of the list marker. Left-aligned lines start at the left edge, right-aligned ones end at the right edge, centred ones are in the middle, and justified ones fill the width exactly unless they end the paragraph or stand before a break; their spaces are never narrower than the minimum factor, and are not stretched in other lines. A line ends only where the next word does not fit, and no line goes below the height available.',
  ['inputs'], 'every text, font, size, width, alignment, indent and list', SMOKE, ['text.py'], ['line being filled', 'height used'],
  [('line breaking', 'text.py: PDFTextLine.add_word'), ('placing', 'text.py: PDFTextBase.add_line_to_stream, add_current_line, init, setup_list')], ['text positions and word spacing'])
# declined (see DESIGN.md)
P('N03', 'Balanced columns have nearly equal heights',
  'When the last section of a multi-column box ends, its columns are balanced to within a small tolerance.',
  ['inputs'], 'every content and number of columns', SMOKE, ['content.py'], [], [('balancing search', 'content.py: PDFContentPart.run, reset')], ['positions of the parts'])
P('N04', 'Laying out any document terminates',
  'Building a document ends after finitely many pages, or raises an error, for every input.',
  ['inputs'], 'every document', SMOKE, ['content.py', 'table.py', 'pdf.py', 'document.py'], [], [('continuation loops', 'pdf.py: PDF.text, PDF.table, PDF.content')], ['number of pages'])
P('N07', 'Reading any byte sequence as an image ends promptly with an image or an error',
  'Reading any byte sequence as an image ends with an image or an error, in time and space proportional to the file.',
  ['inputs'], 'every byte sequence', SMOKE, ['image.py'], [], [('JPEG parsing', 'image.py: PDFImage.parse_jpg')], ['result of the call'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for o in OUT:
        assert len(o['title']) <= 80, o['id']
        f.write(json.dumps(o) + '\n')
