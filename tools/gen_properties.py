#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that wording stays in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("P01", "Streaming a deck to a writer is all-or-error",
  "Writing a presentation to a caller-supplied writer returns success only if the writer accepted every byte of a complete, valid package whose parts equal those of the in-memory build of the same input. Short writes and interrupted calls never change the result; any other write or seek error makes the call return an error, and the call never panics or hangs.",
  ["fault_sequences", "inputs"], "every deck content, and every sequence of short, interrupted and failing write/seek calls of the writer",
  "Tests write to a Vec or Cursor, which never fails, splits or interrupts a call; the quantifier is over all fault positions.",
  ["src/generator/builder.rs", "src/opc/package.rs", "src/api.rs"],
  [("create_pptx_to_writer / create_pptx_with_content_to_writer / create_pptx_lazy_to_writer", "src/generator/builder.rs"), ("Package::save_writer", "src/opc/package.rs")],
  ["the Result of the call", "the bytes the writer holds"])

p("P02", "Saving or exporting to a path is honest about success",
  "Every operation that writes a presentation or an export (PPTX, HTML, Markdown, PDF) to a path returns success only if the file at that path then holds the complete output that the same content yields without faults; if the file system refuses or fails any part of the write the operation returns an error. It never panics, and it changes, creates or leaves nothing at any other path than the one given (missing parent directories it is documented to create apart).",
  ["fault_sequences", "inputs", "configurations"], "every deck, every save/export entry point, and every placement of full disk, I/O error, permission error, short or interrupted write",
  "Tests save to a healthy disk; they never see ENOSPC, EIO, EINTR or short writes at any offset.",
  ["src/api.rs", "src/prelude.rs", "src/opc/package.rs", "src/export/html.rs", "src/export/md.rs", "src/export/pdf_export.rs", "src/oxml/editor.rs", "src/oxml/repair.rs", "src/opc/compress.rs", "src/cli/commands.rs"],
  [("save, save_as_html, save_as_markdown, save_as_pdf_via_pdfrs", "src/api.rs"), ("Package::save", "src/opc/package.rs")],
  ["the Result", "file contents in the simulated file system"])

p("P03", "A failed or crashed save never destroys the previous file",
  "When a presentation is saved or exported over an existing file and the operation fails, or the process or machine crashes at any instant during it, the path afterwards holds either the complete previous contents or the complete new contents, never a truncated or mixed file. A save that returned an error leaves the previous contents readable at the path and no stray temporary file beside it.",
  ["crash_points", "fault_sequences"], "every crash instant (with only durable data surviving) and every failing I/O call during a save over an existing file",
  "No test crashes or fails a save; there are as many crash points as system calls and as many durable states as orders of write-back.",
  ["src/opc/package.rs", "src/api.rs", "src/prelude.rs", "src/oxml/editor.rs", "src/oxml/repair.rs", "src/opc/compress.rs"],
  [("Package::save", "src/opc/package.rs"), ("Presentation::save", "src/api.rs")],
  ["durable and visible file contents after the crash or error"])

p("P04", "Opening and saving a package preserves every part",
  "A package that is opened and saved, with any edits made to individual parts in between, holds exactly the original parts with those edits applied: every untouched part is byte-identical, every added or replaced part has the new bytes, every removed part is gone and nothing else appears or is duplicated. This does not depend on the order or compression of the stored entries, on hash ordering, or on how reads and writes are split or interrupted.",
  ["histories", "fault_sequences", "inputs"], "every package (including unknown and binary parts), every edit history, every split of reads and writes, every hash seed",
  "Tests round-trip a few small generated packages once, with unsplit I/O and whatever hash seed that process drew.",
  ["src/opc/package.rs"], [("Package::open_reader, save_writer, add_part, remove_part", "src/opc/package.rs")],
  ["part names and bytes read back by an independent ZIP reader"])

p("P05", "Reading damaged or failing storage is an error, never wrong data",
  "When a stored presentation is truncated, has flipped bytes, or its storage returns an error or end of file early, every operation that reads it (open, inspect, import, edit, repair, compress, analyse, export, use as template) returns an error or answers from parts that are byte-identical to the stored originals. It never panics, hangs or allocates without bound, and a failed read is never reported as success with missing or altered content.",
  ["fault_sequences", "inputs"], "every truncation point, every small set of flipped bytes, every position of a failing, short or interrupted read",
  "Tests open intact files or a handful of obviously invalid ones; damage can be at any byte and a read can fail at any call.",
  ["src/opc/package.rs", "src/oxml/presentation.rs", "src/import/mod.rs", "src/oxml/editor.rs", "src/oxml/repair.rs", "src/opc/compress.rs", "src/generator/template.rs", "src/core/package_validation/mod.rs"],
  [("Package::open_reader (CRC-checked part reads)", "src/opc/package.rs"), ("import_pptx", "src/import/mod.rs")],
  ["the Result and the content returned"])

p("P06", "Editing history equals the same edits on a list of slides",
  "After any sequence of add, insert, update, duplicate, move and remove operations, saves, failed operations and reopenings, an edited presentation holds exactly the slides, in the order and with the content, that the same successful operations give on a simple list. An operation that returns an error changes nothing, out-of-range positions are errors, and every saved file reopens to the same slides.",
  ["histories", "fault_sequences"], "every operation history interleaved with failing saves and reopenings",
  "Tests apply one or two edits to one small deck and mostly check the slide count; histories are unbounded.",
  ["src/oxml/editor.rs"], [("PresentationEditor", "src/oxml/editor.rs")],
  ["slide count, titles and body text through the editor and through a reopened file"])

p("P07", "Every edited presentation stays a well-formed package",
  "After any sequence of successful edits, the saved presentation is a consistent package: every slide is listed exactly once with a unique identifier, every relationship identifier is unique and every internal relationship leads to a stored part, every stored part has a declared content type, and every declared override names a stored part. Parts belonging to slides that were not edited (notes, images, charts, media, layouts, themes, properties) are still present and still linked to the same slides, links between slides lead to the same slides, and everything the presentation keeps beside its slides (size, sections, fonts, masters, unknown parts) is unchanged.",
  ["histories", "inputs"], "every edit history on every starting deck the library can generate",
  "Tests check single edits on text-only decks; collisions and lost links need particular histories and part mixes.",
  ["src/oxml/editor.rs", "src/opc/xml_edit.rs"], [("edits of content types, slide list and relationships", "src/oxml/editor.rs")],
  ["independent package checker over the saved bytes", "per-slide relationship closure"])

p("P08", "Repair yields a valid package, keeps good parts and is stable",
  "Repairing a damaged presentation whose container is readable ends with a saved file in which no fixable issue is left: validating it again finds nothing that repair claims to fix, and repairing it again changes nothing. Parts that were intact keep their bytes or their content, every surviving slide stays listed in its original order, the issues and fixes reported match what was actually wrong and done, and a failing read or save is reported as an error.",
  ["fault_sequences", "histories", "inputs"], "every combination of lost, truncated, emptied, unescaped, misplaced and dangling parts, relationships, list entries and content types, and I/O failures while opening and saving",
  "Tests damage one part at a time in a fixed way; damage combines.",
  ["src/oxml/repair.rs"], [("PptxRepair", "src/oxml/repair.rs")],
  ["issues before and after", "parts of the repaired file"])

p("P09", "Validation never passes a damaged package",
  "Package validation reports at least one error for every package that lacks a required part, has a dangling internal relationship, a duplicate relationship or slide identifier, malformed XML, or a part that is unreadable because of damage or an I/O failure, and reports none for packages the library generates. It never panics or hangs on any input, and its verdict does not depend on read splitting, interruption or hash order.",
  ["fault_sequences", "inputs"], "every generated package, every single damage of a listed kind, and every read failure position",
  "Tests validate intact packages and a few hand-made faults; an unreadable part only occurs with an I/O fault or corruption.",
  ["src/core/package_validation/mod.rs", "src/core/powerpoint_compat.rs"], [("validate_package, validate_package_bytes", "src/core/package_validation/mod.rs")],
  ["the validation report"])

p("P10", "Compression keeps the deck's content and is safe when it fails",
  "Compressing a presentation yields a valid presentation with the same slides, texts, notes (unless their removal was asked for), charts and every picture or media file that any slide, layout or master uses, byte-identical; XML says the same, with whitespace kept wherever it is content. Options remove exactly what they name (unused media, properties, notes, comments) and leave no dangling reference. The input is never modified unless it is also the output, reported sizes are the true sizes, and on any fault the call returns an error without claiming a result.",
  ["inputs", "configurations", "fault_sequences"], "every deck, every option combination, every I/O fault position",
  "Tests compress tiny text decks and check that a file appears.",
  ["src/opc/compress.rs", "src/api.rs"], [("compress_pptx, compress_pptx_in_memory, analyze_pptx", "src/opc/compress.rs")],
  ["parts of input and output", "reported sizes"])

p("P11", "Concurrent callers never see each other's data",
  "When several threads of one process generate, compress, analyse, export, read, validate, repair or edit presentations at the same time, each call returns exactly what it would return if it ran alone. No interleaving makes one caller fail, block forever or receive another caller's content.",
  ["schedules", "inputs"], "every interleaving of concurrent calls, preempted at any system call, lock operation or allocation",
  "Tests run single-threaded (and must: several share fixed file names); schedules are not sampled at all.",
  ["src/opc/compress.rs", "src/export/image_export.rs", "src/generator/package_cache.rs", "src/api.rs"],
  [("temporary file naming", "src/opc/compress.rs"), ("OnceLock caches", "src/generator/package_cache.rs")],
  ["each caller's result against its solo result"])

p("P12", "No operation leaves temporary files behind",
  "Once an operation has returned, successfully or with an error, every temporary file or directory it created is gone, whatever failed on the way (a missing or failing external converter, a full disk, unreadable input). Nothing it did not create is deleted or overwritten, apart from the output it was asked to write.",
  ["fault_sequences", "schedules"], "every operation that uses temporary files and every fault position in it",
  "Tests do not look at the temporary directory and cannot fail individual calls.",
  ["src/opc/compress.rs", "src/export/image_export.rs", "src/api.rs"], [("temporary files under the system temporary directory", "src/api.rs")],
  ["the simulated file tree before and after"])

p("P13", "Unreliable image sources never yield an inconsistent package",
  "When the file or URL behind an image changes, vanishes, fails, or returns short reads at any moment while a deck is built, the build either returns an error or a consistent package: every image reference on a slide leads to a stored media part holding exactly the bytes of one complete read of that source, with a matching declared content type. Images that load are never lost or exchanged because another image failed.",
  ["fault_sequences", "schedules", "inputs"], "every fault sequence on the image sources of a deck",
  "Tests use in-memory or stable files; the builder reads each source more than once, so faults between reads matter.",
  ["src/generator/images.rs", "src/generator/builder.rs", "src/generator/media_registry.rs", "src/generator/package_cache.rs"],
  [("Image::get_bytes", "src/generator/images.rs"), ("media registry", "src/generator/media_registry.rs")],
  ["relationship closure and media bytes of the produced package"])

p("P14", "Lazy generation equals eager generation",
  "Streaming slides from a lazy source yields a package with the same parts as building from the list of the slides the source serves, however often and in whatever order slides are requested. A source that cannot supply a slide it announced makes generation fail with an error rather than produce a package that refers to missing slides.",
  ["inputs", "fault_sequences"], "every slide list and every failure pattern of the source",
  "Tests use tiny text-only sources that always succeed.",
  ["src/generator/builder.rs"], [("create_pptx_lazy_to_writer, LazySlideSource", "src/generator/builder.rs")],
  ["parts of both packages"])

p("P15", "Document timestamps are the real time, well-formed, at any clock",
  "Whatever the system clock shows, including leap days, year ends, dates before 1970, and jumps during the call, a generated package carries created and modified times that are valid UTC timestamps lying between the clock values at the start and end of the call, with created never after modified. Generation never panics because of the clock.",
  ["schedules", "fault_sequences"], "every clock value from 1900 to 2200 and every clock jump during generation",
  "Tests run at the present moment and only check that a timestamp is present.",
  ["src/generator/props_xml.rs", "src/parts/coreprops.rs"], [("current_timestamp", "src/generator/props_xml.rs")],
  ["docProps/core.xml"])

p("P16", "Output does not depend on hidden randomness",
  "Building, converting (from Markdown or HTML), exporting, editing, repairing and compressing the same input at the same clock time always gives the same result: the same parts with the same bytes, apart from the physical order of the entries in the container and from generated unique file names. It does not depend on hash seeds, thread identity, process state left by earlier calls, or directory listing order.",
  ["schedules", "histories", "inputs"], "every hash seed, every sequence of earlier calls in the process, every listing order",
  "Each test process draws one hash seed and compares nothing across runs.",
  ["src/cli/markdown/parser.rs", "src/generator/builder.rs", "src/generator/template.rs", "src/oxml/editor.rs", "src/opc/package.rs"],
  [("HashMap-backed package, template and diagram models", "src/opc/package.rs")],
  ["parts of the produced packages across seeds and histories"])

p("P17", "Web fetching is bounded and never mistakes a failure for a page",
  "Fetching a page returns the complete body of a final successful HTTP response, or an error: refused, reset, stalled or truncated connections, failing name lookups, non-success statuses and redirect loops are all errors. Every fetch ends within the configured timeout (plus scheduling slack), follows no more than the allowed redirects, and converting a page to a presentation succeeds only with a valid file built from that complete page.",
  ["fault_sequences", "schedules", "configurations"], "every behaviour of the remote server and network: delay, stall, reset, truncation, duplication of redirects, statuses",
  "Tests have no network and never run the fetcher against a server.",
  ["src/web2ppt/fetcher.rs", "src/web2ppt/mod.rs", "src/web2ppt/config.rs", "src/web2ppt/converter.rs"],
  [("WebFetcher", "src/web2ppt/fetcher.rs")], ["the Result, the simulated time taken, the requests the server saw"])

p("P18", "Remote and local images in Markdown/HTML are complete or absent",
  "Converting Markdown or HTML that refers to images always ends within a bounded time and yields a valid deck with all its text, whatever the image servers and files do. An image appears in the deck only as the complete bytes that its file or a successful response supplied, at its place; an image that cannot be loaded is left out or replaced by a placeholder and affects nothing else.",
  ["fault_sequences", "inputs"], "every failure behaviour of each referenced image source",
  "Tests use no server and only missing or present files.",
  ["src/cli/markdown/parser.rs", "src/import/html.rs", "src/generator/images.rs"],
  [("image loading during parsing", "src/cli/markdown/parser.rs")], ["slides and media of the produced deck"])

p("P19", "Importing a PDF keeps every page, in order, or fails",
  "Building a presentation from a PDF through the external page renderer yields one slide per page in page order, each holding that page's complete image even after the renderer's temporary files are gone, and the built file contains them. If the renderer is missing, fails, is killed or produces nothing, the call returns an error.",
  ["fault_sequences", "schedules", "inputs"], "every page count and naming width, every directory order, every failure of the external tool and of temporary storage",
  "The tool is not installed where tests run, so the path is never executed.",
  ["src/api.rs"], [("Presentation::from_pdf", "src/api.rs")], ["slides and media of the built deck"])

p("P20", "Image export returns each slide's picture exactly once, or fails",
  "Exporting slides to images through the external converter returns exactly the files that the converter made for this call, in slide order, all present on disk; exporting one slide gives that slide's picture at the requested path, and selecting one slide exports no other. Drawing the pages as PNG files gives every page's picture under its number. A missing, failing, killed or silent converter is an error, and files that were in the output directory beforehand are neither returned as results, renamed nor deleted.",
  ["fault_sequences", "schedules", "configurations"], "every number of slides, pre-existing directory content, listing order, and converter failure",
  "The converter is not installed where tests run; tests only accept an error.",
  ["src/export/image_export.rs", "src/api.rs"], [("export_to_images, export_slide_to_image, thumbnail", "src/export/image_export.rs")],
  ["returned paths", "files on the simulated disk"])

p("P21", "A saved deck imports back with its content",
  "A presentation that was saved successfully and is then imported or read back, under any split of I/O, has the same number of slides in the same order with the same titles, bullet texts, plain shapes (kind, text, position and size) and table cells, as far as the layout showed them. Building, saving and importing again any number of times does not lose or change that content, nor does another program's way of storing the same texts (part names, split runs).",
  ["histories", "inputs", "fault_sequences"], "every deck of supported content and every number of save/import generations under benign I/O faults",
  "Tests round-trip one small deck once.",
  ["src/import/mod.rs", "src/api.rs", "src/oxml/presentation.rs", "src/oxml/slide.rs"],
  [("import_pptx", "src/import/mod.rs"), ("PresentationReader", "src/oxml/presentation.rs")], ["slide list after import"])

p("P22", "Commands report failure through their result",
  "Each command-line command succeeds only if the file it was asked to write exists and is complete and valid, or, for inspection commands, only if the input could be fully read and judged; it fails for missing or unreadable input, invalid packages and failing output. A failed command never leaves an incomplete file that looks like its result.",
  ["fault_sequences", "inputs", "configurations"], "every command, input state and I/O fault position",
  "Tests run commands on healthy disks.",
  ["src/cli/commands.rs", "src/bin/pptcli.rs"], [("Create/FromMarkdown/FromHtml/Info/Validate commands", "src/cli/commands.rs")],
  ["command result", "output file"])

p("P23", "Operations on presentations are independent and repeatable",
  "An operation that failed part-way because of a fault can simply be retried on the same in-memory presentation, editor, package or template once the fault is gone, and then gives exactly the result it would have given without the failure. Reading operations (building, exporting, inspecting, validating) never change the object they are called on.",
  ["histories", "fault_sequences"], "every sequence of failing and succeeding operations on one object",
  "Tests call each operation once on a fresh object.",
  ["src/api.rs", "src/opc/package.rs", "src/oxml/editor.rs", "src/oxml/repair.rs", "src/generator/template.rs"],
  [("borrowed receivers, no cached partial state", "src/api.rs")], ["outputs before and after failures"])

p("P24", "Templates are applied identically and completely every time",
  "A deck built from a template file carries the template's master, layouts, theme and their media byte-identical and fully linked and declared, together with the given slides, in a consistent package with no part stored twice. A template that cannot be read completely is an error, and building twice from one template gives the same parts.",
  ["inputs", "fault_sequences", "configurations"], "every template the library can open, every deck and settings combination, every read fault",
  "Tests use one template generated by the library and check that a file results.",
  ["src/generator/template.rs", "src/generator/builder.rs"], [("PptxTemplate, create_pptx_with_template", "src/generator/template.rs")],
  ["independent package checker", "template parts versus output parts"])

# --- pure functions of their input: not simulation targets -------------------
def na(id, title, statement, files, mech):
    p(id, title, statement, ["inputs"], "every input value", "Tests sample a few values; the domain is unbounded.", files, mech, ["return value"])
na("N01", "Generated text is escaped exactly once", "Every text supplied by the user appears in the generated XML escaped so that an XML parser returns exactly that text, for all characters XML allows.", ["src/core/xml_utils.rs"], [("escape_xml", "src/core/xml_utils.rs")])
na("N02", "Dimension conversions are consistent", "Converting a length between units and back gives the same length up to rounding, and never overflows or changes sign.", ["src/core/dimension.rs"], [("Dimension", "src/core/dimension.rs")])
na("N03", "Colour parsing and blending stay within range", "Every accepted colour notation denotes one RGB value, invalid notations are rejected, and blending keeps every channel in range.", ["src/elements/color.rs", "src/helpers/colors.rs"], [("Color", "src/elements/color.rs")])
na("N04", "Table merges never overlap or leave the table", "Any accepted set of cell merges is disjoint and inside the table, and the generated spans cover each merged region exactly.", ["src/generator/table", "src/parts/table.rs"], [("table builder", "src/generator/table")])
na("N05", "Chart XML carries exactly the given series", "Every category and value of every series of a chart appears in the generated chart and its embedded data, in order.", ["src/generator/charts"], [("chart XML", "src/generator/charts")])
na("N06", "Markdown structure maps to slides", "Headings, lists, tables, code and quotes of a Markdown document each become their documented slide element, in document order and without loss of text.", ["src/cli/markdown"], [("parser", "src/cli/markdown/parser.rs")])
na("N07", "HTML structure maps to slides", "Headings, lists, tables and paragraphs of an HTML document become slide content in document order, and scripts and styles never do.", ["src/import/html.rs", "src/web2ppt/parser.rs"], [("HTML import", "src/import/html.rs")])
na("N08", "HTML and Markdown exports are injection-free", "Exported HTML and Markdown show user text literally; no text can introduce markup, script or attributes.", ["src/export/html.rs", "src/export/md.rs"], [("escaping", "src/export/html.rs")])
na("N09", "Shape placement stays on the slide", "Automatic layout places elements inside the slide and without overlap for every slide size.", ["src/core/placement.rs", "src/generator/layouts"], [("placement", "src/core/placement.rs")])
na("N10", "PDF export draws all text of all slides", "Every slide becomes one PDF page containing all of its text, within the page bounds.", ["src/export/pdf_export.rs", "src/export/slide_render.rs"], [("render", "src/export/slide_render.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
