#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable).
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
TP="thermal_parser/src/"; TR="thermal_renderer/src/"

prop("C01","Any byte stream renders: no panic, no hang, well-formed output",
 "For every sequence of bytes, parsing it and rendering it (as image, as HTML, with or without a debug profile) terminates and returns normally, without panic, overflow or out-of-bounds access. It always yields at least one document; every image document has exactly width x height x 3 bytes, and every HTML document is complete and contains decodable images.",
 ["inputs"],"all byte streams: every sequence of commands, parameter values, truncations and garbage (image and page dimensions bounded so that the declared bitmap fits in memory)",
 "The tests render a dozen well-formed sample receipts; malformed, truncated, out-of-range and unusual command combinations, where arithmetic underflow and slicing go wrong, are never fed.",
 [TP+"parser.rs",TP+"commands",TP+"subcommands",TP+"graphics.rs",TP+"context.rs",TR+"renderer.rs",TR+"image_renderer",TR+"html_renderer"],
 [("length checks and saturating arithmetic in handlers",TP+"commands, "+TP+"subcommands"),("clipping and growing of the canvas",TR+"image_renderer/thermal_image.rs")],
 ["ImageRenderer::render","HtmlRenderer::render","parse_esc_pos"])

prop("C02","Command framing: a stream is partitioned exactly into its commands",
 "Parsing splits every byte stream into a sequence of commands whose bytes (opcode, parameters and data), concatenated in order, are exactly the input: nothing is lost, duplicated or reordered, even when the stream ends in the middle of a command. Every recognised command consumes exactly the parameter and data bytes its format (fixed count, NUL terminator, or declared length) prescribes and the next byte starts a new command; text runs are maximal, unknown commands are kept as unknown together with the bytes up to the next recognised command, and parsing begins with a begin-print and finishes with an end-print marker.",
 ["inputs"],"all byte streams up to a bounded number of commands/symbols, every prefix of them, and every parameter byte value",
 "Tests only print the parse of sample files; the framing of every one of the ~90 commands, of every truncation point and of garbage between commands is a property of all inputs.",
 [TP+"parser.rs",TP+"command.rs",TP+"commands",TP+"subcommands/mod.rs",TP+"command_sets/esc_pos.rs"],
 [("incremental prefix matcher",TP+"parser.rs"),("per-type byte acceptance",TP+"command.rs"),("custom length-declared acceptance",TP+"commands/*.rs push"),("two-level subcommand dispatch",TP+"subcommands/mod.rs")],
 ["parse_esc_pos","Parser::parse_bytes"],
 [("match_depth / command_buffer / current_command","progress of the incremental matcher",TP+"parser.rs")])

prop("C03","Converting a stream to the thermal text format and back is lossless",
 "For every byte stream, writing its parsed commands in the human-readable thermal format and reading that text back yields exactly the original bytes.",
 ["inputs"],"all byte streams: text with every byte value and quoting character, every command with every parameter value, binary payloads, unknown commands and truncated tails",
 "The tests never convert to the thermal format and back; quoting, control characters, non-UTF-8 text and payload headers only fail on particular bytes.",
 [TP+"thermal_file.rs",TP+"commands",TP+"subcommands/mod.rs"],
 [("cmds_to_thermal / parse_str",TP+"thermal_file.rs"),("get_command_bytes of commands holding parameters outside their data",TP+"commands/*.rs")],
 ["thermal_file::cmds_to_thermal","thermal_file::parse_str"])

prop("C04","The thermal text format is read exactly as documented",
 "Reading a thermal file yields, line by line and token by token, exactly the bytes the format documents: constants, 0x hex bytes, decimal bytes, quoted strings with escaped quotes and backslashes, bare words as raw text (including words that look like a hex or decimal byte but are none); comment lines, which begin with '//, and blank lines yield nothing. Lines end at LF or CRLF. Tokens are separated by whitespace or by a quoted string, each line is independent of the others, and no character of a token is lost.",
 ["inputs"],"all short texts over an alphabet that collides every delimiter (quotes, backslashes, whitespace, newlines, digits, comment prefix), and all short token sequences",
 "Two unit tests read a handful of hand-picked lines; escape and delimiter interplay needs exhaustive enumeration.",
 [TP+"thermal_file.rs"],[("parse_tokens scanner",TP+"thermal_file.rs"),("parse_str token interpretation",TP+"thermal_file.rs")],
 ["thermal_file::parse_str","thermal_file::parse_tokens"])

prop("C05","Every character is printed in exactly the style in force",
 "Every printed character carries exactly the style (font and cell size, magnification, bold, italic, underline, strikethrough, inversion, upside-down, colours, justification, code table) determined by the settings commands received before it, each command setting only the attributes it governs and out-of-range values being handled as the command defines. Changing a style never alters characters already received, and a setting stays in force until it is changed or the printer is initialised.",
 ["inputs","histories"],"all sequences of style commands up to a bounded depth (breadth-first over the reachable style states), every parameter byte value of every style command",
 "The typography samples set a few styles once; wrong bits, stale or crossed state show only for particular values and orders.",
 [TP+"commands",TP+"context.rs",TP+"text.rs",TR+"renderer.rs"],
 [("apply_context of each style command",TP+"commands/set_*.rs"),("TextSpan::new snapshots the style",TP+"text.rs")],
 ["OutputRenderer::render_text"],[("Context.text / Context.barcode","current style",TP+"context.rs")])

prop("C06","ESC @ returns the printer to its power-on state",
 "After an initialise command everything that follows is rendered (content, style, horizontal position) independently of what was received before it, exactly as after an initialise at the start of the job, except that the paper stays where it is: no style, spacing, tab, motion unit, barcode, 2D-code, colour, stored-graphic or page-mode state survives. Output already produced before the initialise is not altered by it.",
 ["histories"],"all command histories up to a bounded depth before the initialise, all observing continuations of a probe set after it",
 "Each sample initialises once at the beginning; whether any of the ~60 state fields leaks through a later initialise depends on the history.",
 [TP+"context.rs",TP+"commands/initialize.rs",TR+"renderer.rs"],[("Context::reset",TP+"context.rs")],
 ["OutputRenderer callbacks after Initialize"],[("Context.default","pristine copy the reset restores from",TP+"context.rs")])

prop("C07","Text layout: no character lost, wrapped, tabbed and justified correctly",
 "Every printable character of the decoded text appears exactly once, in order, in a cell of its own size; words move to the next line only when they do not fit in the printable width, overlong words are split to fill lines, and no character cell extends beyond the printable width unless a single cell is wider than the line. Line breaks advance by the greater of line spacing and tallest character of the line, tabs move to the next tab stop, and left, centre and right justification offset each whole line accordingly.",
 ["inputs"],"all texts up to a bounded length over an alphabet of word characters, spaces, tabs, CR and LF, at every magnification/font/justification/start position/printable width of a grid, split over spans at every position",
 "The samples contain short lines that rarely wrap; edge widths (exact fit, one over, wide characters, trailing spaces, tabs near the margin) are combinatorial.",
 [TR+"renderer.rs",TP+"text.rs",TP+"context.rs"],[("process_text",TR+"renderer.rs"),("break_into_words / break_apart",TP+"text.rs")],
 ["OutputRenderer::render_text"])

prop("C08","Raster and column images are decoded and placed dot for dot",
 "An image command paints exactly the dots its data sets (bit order, row or column order, padding, scaling, colour), at the position given by the current location and justification, and the print position then advances by the image's size as its flow prescribes. Data shorter than declared never shifts or invents dots: the image is reported as an error and nothing else changes.",
 ["inputs"],"all images of all bounded tiny dimensions with every bit pattern, all single-dot images for larger dimensions, all scalings/modes/colours, every truncation of the data",
 "Image samples are a few photographs; bit-order, padding and off-by-one errors at widths not divisible by 8, and short data, are not sampled.",
 [TP+"graphics.rs",TP+"commands/bit_image.rs",TP+"commands/raster_bit_image.rs",TR+"renderer.rs",TR+"image_renderer/mod.rs"],
 [("image_from_raster_bytes / image_from_column_bytes",TP+"graphics.rs"),("process_image",TR+"renderer.rs")],
 ["OutputRenderer::render_image","ImageRenderer::render"])

prop("C09","Stored graphics behave as a keyed store",
 "Printing a stored (non-volatile or download) graphic by key code shows exactly the graphic most recently defined under that key in that memory and not cleared since; unknown keys print nothing, redefinition replaces, clearing one key or all keys of one memory leaves every other entry and the other memory untouched. A definition whose parameters are incomplete is ignored; a stored graphic whose data cannot be decoded is reported each time it is printed. The print-buffer graphic is printed once with the stored colour layers and then cleared.",
 ["histories"],"all sequences of define/print/clear/store commands up to a bounded length over colliding keys, both memories and the buffer",
 "The graphics sample defines and prints two images once; replacement, clearing and cross-memory interference need operation histories.",
 [TP+"subcommands/gs_graphics",TP+"context.rs",TP+"graphics.rs"],[("stored_graphics map keyed by storage and key codes",TP+"context.rs"),("buffer_graphics cleared by a device command",TP+"subcommands/gs_graphics/print_buffer_graphics.rs")],
 ["OutputRenderer::render_image"],[("stored_graphics, buffer_graphics","the store",TP+"context.rs")])

prop("C10","QR symbols encode the stored data and are drawn whole and in place",
 "Printing a stored QR symbol draws exactly the module matrix of a valid QR code that encodes the stored data at the selected error-correction level and module size, at the justified position, without distortion, and advances below it. When data cannot be encoded nothing stale is printed and an error is reported, and settings apply to symbols stored after them.",
 ["inputs","histories"],"all sequences of model/size/level/store/print commands up to a bounded length, every parameter value, all short data and data lengths at capacity boundaries",
 "Samples print one QR code; capacity, level selection, stale storage and clipping depend on values and history.",
 [TP+"subcommands/gs_code2d",TP+"context.rs",TR+"renderer.rs"],[("qr_store encodes via qr_code crate",TP+"subcommands/gs_code2d/qr_store.rs"),("process_code_2d",TR+"renderer.rs")],
 ["OutputRenderer::render_graphics"],[("Context.code2d","selected settings and stored symbol",TP+"context.rs")])

prop("C11","Barcodes encode the data or are reported as errors",
 "For every supported symbology and data, the bars drawn decode back to the given data (with a correct check digit where the symbology has one), at the selected module width and height, justified, with human-readable text exactly where selected; data the symbology cannot represent draws no bars and is reported as an error instead. Check digits of UPC and EAN symbols are calculated, a given one is replaced (UPC-E: has to be right).",
 ["inputs","configurations"],"every symbology id, every data string up to a bounded length over a symbology-colliding alphabet, every width/height/HRI/justification setting",
 "The barcode sample prints one valid code per symbology; invalid lengths, characters, check digits and UTF-8 data are not exercised.",
 [TP+"commands/barcode.rs",TP+"utils/barcodes/upce.rs",TP+"utils/barcodes/codabar.rs",TP+"utils/barcodes/code93.rs",TR+"renderer.rs"],[("symbology dispatch and validation",TP+"commands/barcode.rs"),("process_barcode",TR+"renderer.rs")],
 ["OutputRenderer::render_graphics","RenderOutput.errors"])

prop("C12","Page mode composes the page in every direction and prints it in place",
 "Content sent in page mode is placed inside the selected print area in the selected direction (the page buffer is rotated so that each direction reads correctly), nothing reaches the paper before the page is printed, and printing places the whole page once at the current paper position and advances the paper past it. Text already composed keeps its place on the page when area or direction change, and leaving page mode restores standard-mode positioning unaffected.",
 ["histories"],"all sequences up to a bounded length of enter/area/direction/position/content/print/exit commands over small colliding areas",
 "Two page-mode samples use one layout each; rotation composition, area growth and position arithmetic depend on order of commands.",
 [TP+"context.rs",TP+"commands/page_mode_*.rs",TR+"renderer.rs",TR+"image_renderer/mod.rs"],[("apply_logical_area",TP+"context.rs"),("page_area_changed / render_page",TR+"image_renderer/mod.rs")],
 ["OutputRenderer callbacks","ImageRenderer::render"],[("PageModeContext","areas, direction and position",TP+"context.rs")])

prop("C13","Painting on the canvas is exact, clipped and never disturbs other pixels",
 "Every drawing operation on an image canvas sets exactly the pixels of its rectangle, bitmap or sub-image that lie inside the canvas (or grows a growing canvas downwards with paper colour) and leaves every other pixel unchanged; stored size always matches width x height. Rotations, flips, scaling and cropping are exact permutations or replications of pixels, and spans render with the colours, inversion, underline and strikethrough geometry of their style.",
 ["inputs","histories"],"all sequences of drawing operations up to a bounded length on tiny canvases with every position/size including partially and fully outside",
 "Nothing tests the canvas except by writing PNG files no assertion looks at.",
 [TR+"image_renderer/thermal_image.rs",TR+"image_renderer/mod.rs"],[("put_pixels / put_rect / draw_rect / rotate / crop",TR+"image_renderer/thermal_image.rs")],
 ["ThermalImage public API","ImageRenderer::render"])

prop("C14","HTML output shows the same content, safely escaped",
 "The HTML document contains every printed line with its text, style, size and position, every image dot for dot and every bar/module, in the same order as they are printed, and printed data can never be interpreted as markup, style or template syntax. Rows are positioned so that vertical distances equal those of the print.",
 ["inputs"],"all sequences of printed items up to a bounded length, all text over markup and template characters",
 "HTML tests write files and assert nothing; escaping and offsets depend on content.",
 [TR+"html_renderer/mod.rs",TR+"html_renderer/thermal_html.rs","thermal_renderer/resources/templates/thermal.html"],[("HtmlRow / template substitution",TR+"html_renderer/thermal_html.rs")],
 ["HtmlRenderer::render"])

prop("C15","Text bytes decode by the selected code page and character set",
 "Each text byte is shown as the character that the selected code table assigns to it, with the national replacement characters of the selected international character set; code table 255 decodes UTF-8. Bytes a table does not define yield no character. Decoding with the tables of single bytes does not depend on neighbouring bytes, and never on tables selected before.",
 ["inputs","configurations"],"every code table byte x every character set byte x every text byte, and all ordered pairs of tables/sets; all short UTF-8 sequences",
 "One sample prints code pages without comparing; a single wrong entry in ~30 tables of 128 entries is invisible.",
 [TP+"decoder.rs",TP+"commands/set_code_table.rs",TP+"commands/set_international_charset.rs"],[("get_codepage tables",TP+"decoder.rs"),("update_decoder",TP+"context.rs")],
 ["OutputRenderer::render_text"])

prop("C16","Rendering is deterministic and documents and jobs do not interfere",
 "Rendering the same bytes always gives the same documents and errors, independent of anything rendered or parsed before, of reuse of the parser object, of the other output formats and of the debug profile for text placement. A job's result depends only on its own bytes.",
 ["histories","schedules"],"all pairs/triples of streams of a probe set on reused and fresh parser objects, and concurrently on several threads",
 "Each test renders one file in a fresh process state and compares nothing.",
 [TP+"parser.rs",TR+"renderer.rs",TR+"image_renderer/mod.rs",TR+"html_renderer/mod.rs"],[("parser reset at end of parse_bytes",TP+"parser.rs"),("buffers swapped out per render",TR+"renderer.rs")],
 ["Parser::parse_bytes","ImageRenderer::render","HtmlRenderer::render"])

prop("C17","Paper movement and documents: feeds, positions and cuts",
 "Each feed, line-feed, positioning, line-spacing, motion-unit and cut command moves the print position by exactly the distance it specifies (never beyond the start of the paper when moving backwards), and content is printed where the position then is. Pending text is always printed before the movement takes effect, and every form feed in standard mode ends a document so that each content item belongs to exactly one document, in order.",
 ["histories","inputs"],"all sequences of movement commands up to a bounded depth interleaved with text, every parameter byte value",
 "Samples use few feeds and no positional assertions exist.",
 [TP+"context.rs",TP+"commands",TR+"renderer.rs"],[("feed / newline / offset_* / set_*_absolute",TP+"context.rs"),("process_device_commands",TR+"renderer.rs")],
 ["OutputRenderer callbacks","RenderOutput.output"])

prop("C18","Faulty commands are reported once and are isolated",
 "Every unknown command, undecodable image, unencodable barcode or 2D symbol produces exactly one error in the result, in order (stored graphics and symbols each time they are printed), and valid commands produce none. A faulty command has no other effect: everything around it is rendered exactly as if the faulty command were absent.",
 ["inputs","histories"],"all insertions of every faulty command of a catalogue at every position of all bounded sequences of valid commands",
 "No test feeds a faulty command and none reads the error list except to print it.",
 [TR+"renderer.rs",TP+"parser.rs",TP+"commands",TP+"subcommands"],[("error_buffer and GraphicsCommand::Error",TR+"renderer.rs")],
 ["RenderOutput.errors"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
