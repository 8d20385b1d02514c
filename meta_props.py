DESIGN = {}
STATIC = "Rules are decided on type-checked MIR with resolved callees, for all inputs; operations the evidence lists as undecided are not judged. "
TESTS = "The tests sample a few documents; "

prop("P01", "User text can never become markup in a generated package",
     "Whatever text, name, colour, font, URL or identifier a caller supplies, each XML part the library writes carries it as character data or as "
     "an attribute value in which &, < and the delimiting quote are escaped, so the text can never open, close or alter an element or attribute. "
     "This holds for every public function that returns an XML fragment as well.",
     ["inputs"], "all strings in every caller-settable field, on every path of every XML producer",
     TESTS + "an unescaped field only shows with a value that contains a metacharacter in exactly that field.",
     ["src/generator", "src/parts", "src/oxml", "src/elements", "src/core/xml_utils.rs"],
     [("escaping at insertion", "escape_xml and friends called by every to_xml/generate function"), ("package writers", "src/generator/builder.rs")],
     "abstract interpretation of string construction on MIR with an XML-lexer text domain",
     STATIC + "Assumes std formatting behaves as documented; bytes of existing parts carried verbatim are not judged here.")

prop("P02", "Every XML part is well-formed: balanced tags, legal names, no repeated attribute",
     "Every XML part written into a package, and every XML fragment returned by a public producer, has properly nested and closed elements, "
     "quoted attributes and no attribute repeated on an element, for every combination of optional settings.",
     ["inputs", "configurations"], "all paths (optional fields present or absent, any loop counts) through every XML producer",
     TESTS + "a tag left open only under one combination of options is not sampled.",
     ["src/generator", "src/parts", "src/oxml", "src/elements"],
     [("string-built XML", "format!/push_str sequences in every producer")],
     "abstract interpretation of string construction on MIR with an element-stack text domain",
     STATIC + "Loops are analysed to a fixpoint of the element stack.")

prop("P03", "Every namespace prefix used in a part is declared in that part",
     "In each XML part written into a package, every prefix on an element or attribute, and every prefix listed in Requires or mc:Ignorable, is declared on that element or one of its ancestors in the same part.",
     ["inputs", "configurations"], "all paths through every part writer",
     TESTS + "an undeclared prefix in an optional element makes only those documents unreadable.",
     ["src/generator", "src/parts"], [("xmlns declarations", "root elements of each part writer")],
     "abstract interpretation of string construction on MIR with a namespace-scope text domain", STATIC)

prop("P04", "Elements follow the order and number the OOXML content models prescribe",
     "In each XML part written into a package and each fragment returned by a public producer, the children of DrawingML, PresentationML, chart and packaging "
     "elements appear in the order their ECMA-376 content model prescribes, non-repeatable children at most once, children that model does not know never, and "
     "children required exactly once on every path, for every combination of optional settings.",
     ["inputs", "configurations"], "all paths through every part writer and XML producer, any order and number of caller-supplied items",
     TESTS + "PowerPoint refuses a file with one misplaced child, and the misplacement only shows under one combination of options or one order of calls.",
     ["src/generator", "src/parts", "src/oxml"], [("string-built XML", "every to_xml/generate function"), ("package writers", "src/generator/builder.rs")],
     "abstract interpretation of string construction on MIR with content-model automata on the open-element stack",
     STATIC + "Content models are transcribed in lib/ooxml_schema.txt; elements not listed there (named in the evidence) are not judged, required children that a loop writes are not demanded.")

prop("P16", "Attributes are those the OOXML schema defines, with values of its enumerations",
     "In each XML part written into a package and each fragment returned by a public producer, every attribute on a DrawingML, PresentationML, chart or packaging element "
     "is defined for that element, its required attributes are present on every path, and every constant written as an enumerated, boolean or numeric "
     "attribute value (preset geometry, alignment, dash, transition direction and so on) is one of the values of the attribute's type.",
     ["inputs", "configurations"], "all enum values and option combinations, on all paths through every XML producer",
     TESTS + "one wrong token among some two hundred preset names makes only the files that use it unreadable.",
     ["src/generator", "src/parts", "src/oxml"], [("token tables", "as_str/preset/xml value functions of the enums"), ("attribute writers", "every to_xml/generate function")],
     "abstract interpretation of string construction on MIR, each attribute value checked against the schema's value set",
     STATIC + "Values taken verbatim from the caller (colours, typefaces) are not judged; elements without a definition are listed in the evidence.")

prop("P06", "The parts of a generated package agree: content types, relationships, ids",
     "In every package the generator writes: each part has the content type of the document it contains, through an Override or the Default of its extension; each Override "
     "and each internal relationship names a part that is written, with the numbers those parts have; some relationship names each part, with the type of that part; "
     "the ids within one relationships part differ; and each r:id, r:embed or r:link in a part names a relationship of that part of a fitting type.",
     ["inputs", "configurations"], "any number of slides, images, charts, notes, comments, masters and fonts, any combination of optional features",
     TESTS + "an id that is off by one only when a slide has both notes and two images, or an Override missing for one kind of part, corrupts only those files.",
     ["src/generator/builder.rs", "src/generator/package_xml.rs", "src/generator/slide_content", "src/generator/slide_xml"],
     [("package writers", "src/generator/builder.rs write_package_files, write_package_files_lazy"), ("relationship and content type parts", "src/generator/package_xml.rs"),
      ("references", "src/generator/slide_xml/content.rs, src/generator/charts.rs, src/generator/images.rs")],
     "abstract interpretation of the package writers on MIR: entry names, declarations and references as text with symbolic integers, linear normal forms decide agreement",
     STATIC + "Numbers that are no linear function of an iteration index, ids chosen by the caller and parts copied from a template are not judged; numbering is compared "
     "on decks where every collection has the same size of one to three and the optional features are all present or all absent.")

prop("P07", "Generation is deterministic",
     "Generating, exporting, validating or laying out the same in-memory content twice gives the same result: nothing in the output depends on the clock, "
     "random numbers, environment, addresses or hash-map iteration order. The only exceptions are the document created/modified timestamps, the "
     "file name given to an image when it is constructed, reported durations, and the names of temporary files.",
     ["inputs", "histories"], "all contents, all processes (hash seeds), all times",
     "Hash order and time differ between processes; a test that runs once per process cannot see it, and small maps often agree by luck.",
     ["src/generator", "src/opc", "src/core", "src/export", "src/parts"],
     [("ordered part maps", "src/opc/package.rs"), ("timestamps", "src/generator/props_xml.rs, src/parts/coreprops.rs"), ("diagram layout", "src/cli/markdown/mermaid")],
     "source-to-sink containment on the call graph plus order-insensitivity analysis of hash iteration on MIR",
     STATIC + "A sort after hash iteration is assumed to be a total order on what is observed.")

prop("P08", "Public functions have no side effects beyond their declared purpose",
     "Building, generating to bytes, parsing, reading, validating, repairing in memory and rendering to strings never write, rename or delete files, launch a "
     "process or change the environment; only save/export-to-path, PDF/PNG conversion and CLI commands do. Only functions that must fetch an image or page "
     "the caller referenced by URL contact the network.",
     ["inputs", "histories"], "all call paths from each public function of today's API",
     "A unit test observes a return value, not which files, processes or sockets a path touched.",
     ["src/api.rs", "src/generator", "src/opc", "src/oxml", "src/export", "src/import", "src/web2ppt"],
     [("effectful entry points", "src/api.rs, src/export/image_export.rs, src/opc/package.rs")],
     "interprocedural effect analysis (deny by default) on the resolved call graph",
     STATIC + "The declared effects per public function are the committed table lib/tables/effects.json; functions added later are judged through the listed ones that call them.")

prop("P09", "Files are only written where the caller asked or in temporary paths",
     "Every file or directory the library creates, replaces, renames or deletes is at a path derived from a path argument or option of the caller, or is a "
     "uniquely named temporary path; names found in an opened package, a parsed document or a downloaded page never choose a destination.",
     ["inputs"], "all documents, packages and pages, including hostile ones",
     "Escapes need a hostile entry name that no fixture contains.",
     ["src/api.rs", "src/opc/package.rs", "src/opc/compress.rs", "src/export", "src/cli/commands.rs", "src/core/temp.rs"],
     [("fs calls", "std::fs users in the listed files")],
     "interprocedural origin (taint) analysis of path operands on MIR", STATIC)

prop("P10", "No unsafe code, no shared mutable state, and all public types are thread-safe",
     "The library contains no unsafe code and keeps no mutable process-wide or thread-local state, so building one document never affects another; process-wide "
     "caches hold values that do not depend on who first asked. Every public type can be sent to and shared between threads.",
     ["schedules", "histories"], "all interleavings and orders of use of the library in one process",
     "Interference through shared state needs particular orders or schedules; sequential tests with fresh values never see it.",
     ["src/lib.rs", "src/generator/package_cache.rs"], [("once-initialised caches", "src/generator/package_cache.rs"), ("plain data types", "all modules")],
     "inventory of unsafe/static/thread-local/once-cell items and structural Send/Sync derivation over type-checked field types", STATIC)

prop("P12", "A failed CLI command exits with a non-zero status",
     "When any operation a command-line command needs fails (reading input, parsing, converting, validating, writing output), the process exits with a non-zero "
     "status; it never prints an error and exits 0. The validate command succeeds only when the package is reported valid.",
     ["inputs", "fault_sequences"], "every failing operation in every command",
     "The tests call library functions; exit statuses after each possible failure are not exercised.",
     ["src/bin/pptcli.rs", "src/cli/commands.rs"], [("error arms", "match arms ending in process::exit"), ("command results", "execute functions")],
     "error-edge path analysis on MIR control-flow graphs", STATIC)

prop("P13", "Temporary files are removed on every exit path and never collide",
     "Each temporary file or directory the library creates has a unique name and is removed on every way out of the function that created it, including "
     "early error returns and panics.",
     ["fault_sequences", "schedules"], "every failing step after a temporary path was created; any number of concurrent calls",
     "Leaks appear only when an external tool or a write fails midway, collisions only under concurrency.",
     ["src/core/temp.rs", "src/api.rs", "src/export/image_export.rs", "src/opc/compress.rs"], [("removal on drop", "src/core/temp.rs")],
     "ownership (RAII guard) and must-release path analysis on MIR",
     STATIC + "A guard value is released at scope exit by the compiler's drop elaboration, which the rule relies on.")

prop("P14", "A failed generation never leaves a truncated or partial output file",
     "An output file is opened or overwritten only after everything that can fail for a reason other than the writing itself has succeeded; if building or "
     "rendering the content fails, a file already at the destination is left as it was.",
     ["fault_sequences", "inputs"], "every error return of the content-producing functions",
     "Tests save valid content; they do not make generation fail after an existing file is in place.",
     ["src/api.rs", "src/opc/package.rs", "src/export", "src/prelude.rs", "src/cli/commands.rs"], [("generate then write", "save functions")],
     "typestate-style ordering analysis (create after last fallible step) on MIR", STATIC)

prop("P15", "A write failure is never reported as success",
     "If any write to an archive entry, a file or a stream fails while a package or export is produced, the function returns an error: no such result is "
     "dropped, defaulted or ignored, and each archive is completed (its directory written) before success is returned.",
     ["fault_sequences"], "failure of any single write, flush, create or finish call",
     "A failing disk or stream at each write point is not simulated by the tests.",
     ["src/generator/builder.rs", "src/opc", "src/oxml", "src/export"], [("? on every write", "all package writers"), ("finish", "src/generator/builder.rs, src/opc/package.rs")],
     "interprocedural error-propagation analysis on MIR (every Result of a writing call)", STATIC)

prop("P18", "Every content field and option takes effect in the output",
     "Every field of the slide content model (texts, runs, tables, cells, shapes, images, connectors, charts, code blocks, comments, settings) and of the export, "
     "import and compression options is used by the code that produces output, and an element's XML writer applies it whatever the other fields are, unless another "
     "option replaces it or is its precondition, and to every entry of a list. Every layout shows the slide's shapes, images, table, charts, connectors and code blocks, and a layout with a title "
     "applies its size, italic, underline and colour.",
     ["inputs", "configurations"], "all content and option fields, all combinations of the other fields, all layouts",
     "Tests set one option at a time on one layout; an option lost on another layout or in combination goes unseen.",
     ["src/generator", "src/export", "src/opc/compress.rs", "src/web2ppt"],
     [("XML writers", "generate_*_xml, to_xml in src/generator"), ("slide layouts", "src/generator/slide_xml/layouts.rs"), ("option readers", "src/export, src/opc, src/web2ppt")],
     "field-sensitive must- and may-dependency of every writer's output on the fields of its content, on MIR", STATIC)

prop("P19", "Constructors, builders, setters and accessors keep what they are given",
     "Every argument of a public constructor, builder step or setter reaches the object it returns or changes on every path; an argument or setter named like a "
     "field is stored in that field, unchanged except for conversion, scaling to the stored unit, clamping to a limit and colour normalisation. A builder step "
     "carries on everything set before it, and an accessor returns the field it is named after.",
     ["inputs", "histories"], "all public constructors, builder steps, setters and accessors; all argument values and call orders",
     "Tests set a few options once; a step that loses, swaps or alters an argument for some value or after another step goes unseen.",
     ["src/generator", "src/elements", "src/core", "src/parts", "src/api.rs", "src/export"],
     [("with_*/set_* methods", "src/generator"), ("constructors", "new/from_* of the model types"), ("accessors", "src/parts, src/elements")],
     "field-sensitive must-dependency analysis (meet over paths) on MIR", STATIC)

prop("P26", "HTML and Markdown exports never let text become markup",
     "Whatever the presentation's texts contain, the HTML export writes them with & < and the delimiting quote escaped and leaves no element open, and the Markdown "
     "export writes titles, bullets, table cells and notes with its special characters escaped, headings and table cells on one line, and | escaped inside tables. "
     "Code blocks and front matter of the Markdown export are excluded.",
     ["inputs"], "all titles, bullets, table cells, code, notes, file names; all option combinations",
     "Tests export plain words; the guarantee is about every character a text may contain, at every place it is written.",
     ["src/export"],
     [("HTML exporter", "src/export/html.rs"), ("Markdown exporter", "src/export/md.rs"), ("escape helpers", "escape_html, escape_markdown")],
     "abstract interpretation of the exporters' string building (MIR) with an HTML lexer and a Markdown line domain", STATIC)

prop("P27", "HTML and Markdown exports contain all of the presentation's text",
     "Both exports contain the title and, for every slide, its title, all bullets, all table cells, all code and its notes; no loop over them stops early or skips elements, and "
     "whether one of these texts is written depends only on the options and on whether it is there (cells covered by a merged cell may be left out). Notes are left out exactly when the option for them is off, switching an include_* option off only leaves things out, and every boolean option of these two exports "
     "makes a difference.",
     ["inputs", "configurations"], "all slides, all numbers of bullets, rows and blocks; all option combinations",
     "Tests export one or two slides with a bullet; a limit, a skipped element or a wrong option test goes unseen.",
     ["src/export"],
     [("HTML exporter", "src/export/html.rs"), ("Markdown exporter", "src/export/md.rs")],
     "provenance of every text reaching the export (MIR abstract interpretation), evaluated with each option off and on; loop-exit analysis", STATIC)

prop("P11", "Recursion over parsed documents is bounded",
     "No function recurses once per piece of its input: every cycle of the call graph either passes on a depth counter that is compared with a limit, or descends into "
     "the parts of an already built tree. Code that builds such trees (nested elements) from input refuses nesting beyond a fixed limit, so deeply nested or adversarial "
     "documents cannot overflow the stack.",
     ["inputs"], "all cycles of the library's and the binaries' call graphs; all documents",
     "Tests nest a few levels; a stack overflow needs thousands and aborts the process, so no test can catch it as a failure.",
     ["src"], [("WebParser::walk_element", "src/web2ppt/parser.rs"), ("XmlParser", "src/oxml/xmlchemy.rs"), ("mermaid and markdown parsers", "src/cli/markdown"), ("HTML import", "src/import")],
     "call-graph cycle analysis with guard and structural-descent rules on MIR", STATIC)

prop("P20", "Measurements keep their unit and their axis",
     "Inches, centimetres, points, pixels, percentages and ratios are converted to EMU (font sizes to hundredths, angles to sixty-thousandths) with the factor of that unit, a "
     "ratio being taken of the slide's width for horizontal and of its height for vertical measurements. A position or size argument is stored in the field it is "
     "named after, and offsets, extents, margins, crop edges, border and line widths, rotations, levels, spans and font sizes are written from the field they denote, never from another axis or side.",
     ["inputs"], "all conversion functions, all public functions taking x, y, width, height or Dimension arguments, all geometric attributes with a rule in the checker",
     "Tests use symmetric or equal values and one unit; a swapped axis or factor shows only for the others.",
     ["src/core", "src/elements", "src/generator", "src/parts", "src/prelude.rs"],
     [("Dimension, FlexPosition, FlexSize", "src/core/dimension.rs"), ("Position, Size, Transform", "src/elements/position.rs"), ("shape, image, table, connector writers", "src/generator"), ("parts", "src/parts")],
     "affine abstract interpretation of MIR", STATIC)

prop("P17", "Fixed vocabularies map every name to its own standard token, and back",
     "Each variant of the enums that stand for format tokens (shape presets, chart kinds, alignments, dashes, arrows, bullets, transitions, scheme colours, layout kinds, content and "
     "relationship types, media formats) is written as the OOXML, CSS or media-type token of that meaning. Reading an extension, preset or CSS colour name the code knows yields the value it stands for, "
     "the one that is written as the same token.",
     ["inputs"], "every variant of the enums and every key of the lookup functions named in the checker's tables",
     "Tests try a handful of the several hundred entries; a swapped or copied token produces a valid file that shows something else.",
     ["src/generator", "src/elements", "src/parts", "src/import", "src/export"],
     [("ShapeType::preset_name and the as_str/xml_value functions", "src/generator, src/elements, src/parts"), ("map_shape_type", "src/import/mod.rs"), ("css_named_color", "src/import/html.rs"),
      ("image_content_type", "src/generator/package_xml.rs"), ("from_extension", "src/generator/media.rs, src/parts/media.rs")],
     "conditional constant propagation on MIR, per variant and per key", STATIC)

prop("P21", "Odd input never makes a function panic: cuts, positions, divisions, unwraps",
     "Whatever text, list or option a public function is given (empty, one element, non-ASCII, missing marker, unclosed tag), text is cut only at character boundaries inside the text, list elements, insertions and removals are "
     "at positions that exist, nothing is divided by zero, no size is subtracted from a smaller one, and `unwrap`/`expect` meets a value when what is taken is the outcome of a search, the end of a list, an optional field, a parse "
     "or a reader's error. Positions a parser object keeps beside its text, lookups of keys stored before, explicit panics and overflow of additions and multiplications are outside this property.",
     ["inputs"], "every function with a text cut, list position, division, unsigned difference or unwrap",
     "Tests use tidy ASCII input with the expected markers; the panic needs an accented letter, an empty list or a missing marker at one place.",
     ["src/generator", "src/core", "src/cli", "src/import", "src/oxml", "src/opc", "src/helpers", "src/elements", "src/web2ppt"],
     [("HTML and Markdown parsers", "src/import/html.rs, src/cli/markdown/parser.rs, src/web2ppt/parser.rs"), ("XML readers", "src/oxml"),
      ("colour parsing", "src/elements/color.rs"), ("tables, charts and layout helpers", "src/generator, src/helpers")],
     "abstract interpretation of text positions and sizes on MIR (boundary and affine facts)", STATIC)

prop("P28", "Ids within a part are unique, and what refers to them exists",
     "In every part the generator writes, the ids of shapes (title, body, table, shapes, pictures, code blocks, connectors, charts, placeholders), of slides, of masters and layouts, and the "
     "indices and orders of chart series differ, however many elements of each kind there are (ids a caller gives a shape are the caller's). Slide ids and master or layout ids lie in the ranges the format "
     "reserves, and in each chart every axis reference names an axis declared there. Shapes that the Mermaid diagrams number differ from each other and from those already on the slide, and connectors follow.",
     ["inputs", "configurations"], "all parts, all numbers of elements of each kind, all options; the diagrams of the Markdown parser",
     "Two ids meet only for particular numbers of elements (twenty pictures, two diagrams on a slide); tests write decks with one or two of each, and PowerPoint repairs or refuses the file.",
     ["src/generator", "src/cli/markdown"],
     [("render_additional_content", "src/generator/slide_xml/content.rs"), ("slide and layout writers", "src/generator/slide_xml"), ("master footer placeholders", "src/generator/layout_parts.rs"),
      ("slide, master and layout ids", "src/generator/package_xml.rs"), ("chart series and axes", "src/generator/charts/xml.rs"), ("add_mermaid_diagram", "src/cli/markdown/parser.rs")],
     "abstract interpretation of part writers with symbolic ids; linear separation of ids over element counts", STATIC)

prop("P25", "The network is contacted only for explicit http(s) addresses",
     "Parsing HTML or Markdown, generating and exporting contact the network only for an address that was tested to be an http or https URL, or for an image or page "
     "the caller explicitly declared by URL; local paths, data URLs and other schemes never cause a request.",
     ["inputs"], "all addresses in all parsed documents",
     "Tests run offline and use no hostile schemes.",
     ["src/cli/markdown/parser.rs", "src/import/html.rs", "src/generator/images.rs", "src/web2ppt/fetcher.rs"],
     [("scheme tests", "callers of the download helpers"), ("explicit URL source", "src/generator/images.rs")],
     "path-sensitive interprocedural guard analysis on MIR", STATIC)

DESIGN["P01"] = """Roots: every value written into a zip entry (found by type: `ZipWriter` start_file/write_all/write_fmt pairs, through helpers) or stored with
`Package::add_part`, plus every public function whose returned text starts with `<`. Each hole in element text or an attribute value is asked which
dangerous characters it can still contain (a piece cut out of escaped text may end inside a reference, so it counts as unescaped; escape helpers, `replace` chains, char filters, numeric and enum formatting are understood)."""
DESIGN["P02"] = "Same run as P01; the domain keeps the open-element stack and attribute-name set per path and joins them at merge points; a mismatch, a repeated attribute, an unfinished tag at the end of a part or text outside the root is reported with the emission path."
DESIGN["P03"] = "Same engine restricted to complete parts; the domain keeps declared prefixes per open element. Text inserted into a finished document (a transition before </p:sld>) is judged against the prefixes in scope wherever that element is written. Found and fixed: ink content required the undeclared prefix p14."
DESIGN["P06"] = "Every zip entry write below the package writers is interpreted with the XML lexer of P01, keeping Default, Override, Relationship and r:* attributes as pieces of text and symbolic integers (parameters of helpers are replaced by the arguments of the call below that writer). Numbers are put into linear normal form over iteration indices, counts and flags: equal forms prove agreement, otherwise both sides are enumerated on uniform decks (1-3 elements per collection, options all on or all off), and what stays unknown is counted as undecided. Oracle: content type and relationship type per root element and extension, from ECMA-376 (tables in c_package.py). Found and fixed: missing Defaults for image extensions, missing Overrides in lazy packages, signature origin, unreadable images shifting ids, jumps as targets. Known finding: the relationship type of ink, pinned by a test. Over all sizes, entries must also agree in structure (`whole()`): an entry written only above a positive threshold of a count, or for at most a constant number of elements, while its part is not so limited; an entry in the `else` of an unrelated option; notes, ink, fonts and signatures decided by anything but their presence; and Overrides numbered by turn of a loop where the parts are numbered by how many came before."
DESIGN["P07"] = "Sources: clocks, Uuid::new_v4, RandomState, env, process id, thread id, pointer formatting. Each source's callers are climbed until a sanctioned producer (document-timestamp writer, Image construction, timing report, temp guard, CLI) or a public function (violation). Hash iteration: the iterator is followed through adaptors to its consumer; any/all/count/sum/min/max, collecting into a map/set, or collecting and sorting before any other use are accepted; loops over it may only touch unordered collections."
DESIGN["P08"] = "Effects are std::fs mutations, process launches, network requests, environment changes; reverse reachability from each effect site."
DESIGN["P09"] = "The path operand of each std::fs mutation is resolved to origins through helpers and callers; document fields, zip entry names, responses and parsed data are rejected."
DESIGN["P12"] = "Result fate (returned, matched, swallowed, dropped) for each fallible call, then forward path exploration from the Err edge to process::exit(nonzero), Err return or panic; flags and exit codes assigned on the way are followed as constants, so an error that is only remembered must decide the status at the end."
DESIGN["P13"] = "Guard types are found by their Drop reaching fs::remove_*; Drop must remove on all paths; names must be unique; direct temp_dir users must remove on each exit."
DESIGN["P15"] = "198 write results today. Writers are closed transitively over the call graph, so swallowing the Result of a helper that writes is seen too. A BufWriter/LineWriter must be flushed (or unwrapped) with the result checked before success is returned, and the count returned by write() must be used."
DESIGN["P18"] = "Content types are the closure of SlideContent, PresentationSettings, tables, comments and every *Options/*Config/*Settings struct. Three rules: the field is read outside the type's own constructors, steps and accessors; it is in the may-dependency of some writer of the type; it is in the must-dependency (every path) of some writer and of every public writer that uses it. Options that refine or replace each other are listed in COND with the reason. Slide writers are recognised by what they depend on, so extracting or renaming layouts does not matter. Known findings: media, and options nothing reads. Conditions (lib/conds.py): for every block that adds text, the switch edges each way to it goes through, reduced to (data, outcome) through merged booleans, predicates and Option::filter closures; an outcome of a field all of whose emissions also need one outcome of a sibling field hangs on that field (PAIRS lists the accepted replacements), and one that compares the field with a number hangs on its value. Collections: take/skip/step_by/constant slices/filters on numbers and breaks over what a writer is given leave entries out, unless take and skip (or two slices) split at the same place."
DESIGN["P19"] = "lib/depend.py: state maps (local, field) to the parameter fields it must depend on; summaries are composed through calls, &mut aliases and iterators are followed, joins intersect, loops are taken to run. Ignored argument, wrong field, lost receiver and misnamed accessor are reported from that; `altered` additionally compares the symbolic value of the field with the argument (negation, offset, slicing, case change, wrong axis of a Dimension). Arguments that only select which part is set are recognised by the may version of the same analysis. Clamp limits and unit factors are not judged here. `transparency` fields hold remaining opacity; that subtraction is part of the field's meaning."
DESIGN["P25"] = "Every send() site, the fetcher's own included, is climbed through callers; on every path a starts_with/scheme test with an http(s) literal (through bool helpers, closures, lists of literals and strip_prefix) or the explicit-URL image variant must hold. Constructing a URL image from parsed documents counts as a site."

DESIGN["P04"] = "The oracle is lib/ooxml_schema.txt, written from ECMA-376 and not from the code: sequence, choice and cardinality per element, definitions by parent where a name is reused. Loops over literal arrays are unrolled, so an order fixed by a table in the code is seen."
DESIGN["P16"] = "Same engine and oracle as P04; the value of each attribute is followed through enum-to-string matches in callees, so every token of every enum is enumerated."
DESIGN["P26"] = "checks/c_export.py runs the emission engine over every public function that takes a Presentation and returns HTML or Markdown text. HTML: the P01/P02 lexer in HTML mode, & included. Markdown: a domain that knows the start of the line (heading, table row, fence, front matter); the danger alphabet is the Markdown one, and replacing the backslash after other escapes re-activates them. Front matter and code fences are not judged (a longer fence cannot be recognised)."
DESIGN["P27"] = "The same runs record the data path of everything inserted (presentation.slides[].notes, ...); the required paths must be among them. The options parameter is then bound to a struct with one boolean fixed to false/true and the two sets of insertions and literals are compared. Loops: no skip/take/step_by (skip(1) after using first() is a table header) and no exit other than at the loop head. For every place where one of these texts is added, each branch in the function and in its callers of which one outcome can still reach the place within this turn of the loop and another cannot is a condition on the text; what the condition reads (through helpers, merged booleans, filter closures) must be an option, the presence of the same datum, or a cell's merge flags. Every `[]` of the data path must be covered by a loop, an iterator closure or a variable index over that collection."
DESIGN["P11"] = """Tarjan's algorithm on the resolved call graph (closures and trait calls included) of library and binaries lists every recursive cycle. A call inside a cycle is accepted when one of its integer
arguments is the caller's parameter stepped by a constant and a branch dominating the call compares that counter with a limit (or the counter is a `u8` stepped with `checked_add`), or when it is made on a strict part of a value of a
recursive type. Removing the accepted calls must break every cycle. Values of recursive types are dropped, cloned and walked recursively by compiler-generated code too, so every loop that nests one into another must
contain a branch that compares the number of open elements (or a counter) with a constant and leaves the loop. Limits above 5000 count as none. Two genuine defects found and fixed: `WebParser::walk_element`, and the XML tree builder."""
DESIGN["P20"] = """`lib/linear.py` interprets MIR over affine forms `c + sum(k * input)` with one symbol per argument field (alternatives are joined as sets, enum payloads keep the variant they came from). Over this domain: conversion
functions must be exactly `factor * argument`; `Dimension::to_emu*` is evaluated once per variant; gradient directions yield their angle; constructors and setters with arguments called x, y, width, height, cx, ... must store
`factor * argument` in the field of that name, the factor per `Dimension` variant and axis; functions returning a coordinate pair must compute the first from horizontal, the second from vertical inputs; image sizes in pixels are
times 9525. The XML emission analysis (as for P01-P04) records the value of every numeric attribute; for 40 element/attribute pairs a rule names the field that must supply it and the factor. Values that are not affine, or are joined beyond recognition
(layout helpers, estimated text heights), are listed as undecided in the evidence and never alarm. Genuine defect found and fixed: title and content sizes in three layout generators were written in points instead of hundredths."""
DESIGN["P17"] = """For every function from an enum to a token the checker runs `lib/linear.py` once per variant with the discriminant known: conditional constant propagation then leaves one string, whatever the shape of the `match`
(or table, or helper function) that produces it. The result must be the entry of a table transcribed from ECMA-376 (ST_ShapeType, ST_PresetLineDashVal, ST_LineEndType, ST_SchemeColorVal, ST_SlideLayoutType, chart element names, ...), from the
package conventions (content and relationship types) or, for shape presets, the variant's own name apart from 25 listed synonyms. Lookup functions on strings are run once per key of the vocabulary (media types by extension, CSS
colour names, preset tokens) with string comparison and case folding interpreted; keys the function does not know (same result as a nonsense key) are not judged. Preset tokens must be read as a shape type that is written as the same token."""
DESIGN["P21"] = """`lib/bounds.py` interprets the MIR of every function that cuts, indexes, divides, subtracts sizes or unwraps. Values are affine expressions over symbolic sizes and positions; a text is a view (root, start, end) on
a root text, so slices, trims, `strip_prefix`, `split`, `find`, `char_indices`, `as_bytes` and closures keep the link between a position and the text it belongs to. Facts are gathered on branches (lengths compared, emptiness, prefix tests, ASCII
tests, variants of options); loops are run to a fixed point with phi atoms that keep an invariant bound or boundary. Small crate functions are entered. Each site is an obligation, proved by the facts on all paths reaching it or judged: a
violation is reported only where the analysis understands every number involved and can name the reason (position not a boundary, list may be empty, divisor may be 0, ...); in a private function the callers' arguments decide. Anything else is listed as undecided
(13 of 404 sites on this tree). Found and fixed: non-ASCII colours, backwards cut in inline HTML, four image bytes, tables without columns, stacking zero shapes, and others (known_findings.json); known finding: `default_layout_xml(0)`. 58 safe rewritings
(bounds kept in another variable, `get`, `match` on the length, iterator forms, peeled loops) were run and stay quiet."""
DESIGN["P28"] = """The XML lexer domain is paired with the set of ids written so far on the path: `p:cNvPr/@id`, `p:sldId`, `p:sldMasterId`, `p:sldLayoutId`,
the `c:idx`/`c:order` of a series, and the axes of a chart. An id is a symbolic value (constants, counts of the slide's collections, loop positions, helper calls inlined).
Two ids that meet on one path are separated when the bounds of their difference over all counts and positions exclude zero; otherwise small decks (0, 1, 2, 5, 12, 40 elements of each kind) are
enumerated over the *formula* and a deck in which both are equal is the violation. An id met twice is one written in a loop: its values in all rounds must differ. A counter that is stepped through a
local needs an assignment between any two reads that reach each other. Where neither a separation nor a coincidence is found the pair is listed as undecided.
`Shape::id` set by the caller is outside (`unwrap_or` on it is judged by its default); ids the Mermaid code sets are judged in that code: a step of the counter between two shapes, all or none of a diagram's
shapes numbered, and id, start_shape_id and end_shape_id renumbered where a diagram joins a slide. Axis references are matched path by path against the declared axes of the chart.
Two genuine defects were found and repaired (subgraph background and title with the same id; two diagrams on one slide)."""

na("P30", "Generated layouts do not overlap or leave the slide",
   "For every list of bullets, table, diagram and title the generator lays out itself, shapes stay inside the slide and do not cover each other, and estimated text heights leave room for the text.",
   ["inputs"], "all texts, counts of bullets, tables and diagrams, all slide sizes",
   "Tests look at a few short decks; the overlap depends on text length, font size and number of elements together.",
   ["src/generator/slide_xml", "src/core/placement.rs", "src/generator/layouts"], [("render_additional_content", "src/generator/slide_xml/content.rs"), ("placement", "src/core/placement.rs")],
   "the positions are products of run-time text lengths and sizes, divided and rounded, and nothing in the source bounds them; P20 decides the linear part (which field supplies which coordinate, with which factor), a bound on the rest would have to compute layouts")
na("P31", "Reading a generated presentation back gives the content that was written",
   "Opening a generated file with the reader or importer yields the titles, bullets, tables and notes it was generated from, in the same order.",
   ["inputs"], "all presentations the writer can produce",
   "A round trip test compares the handful of decks it builds.",
   ["src/oxml", "src/import", "src/opc"], [("reader", "src/oxml/presentation.rs, src/oxml/slide.rs")],
   "equality of two run-time texts after writing, parsing and reinterpreting; the static shares are decided separately (P01/P02 well-formed and escaped on writing, P18/P21 every field written, P21 nothing panics on reading), while inverse-ness of the heuristics in the reader needs values")
na("P32", "Markdown and HTML input becomes slides that mean the same",
   "Each construct of the accepted Markdown and of web pages becomes the documented slide element with its full text, whatever it is nested in or followed by.",
   ["inputs"], "all Markdown and HTML documents",
   "The grammar is an informal one with nesting; the tests hold one document per construct.",
   ["src/cli/markdown", "src/web2ppt", "src/import"], [("Markdown parser", "src/cli/markdown/parser.rs"), ("page converter", "src/web2ppt")],
   "the oracle is the meaning of a document, which is not in the source: the parser is a state machine over run-time lines and a static rule could only repeat its transitions; P21/P11 decide that it neither panics nor overflows the stack and P26/P27 the export direction")
na("P33", "Mermaid layouts place nodes by their rank and connect the right ones",
   "Every node of a diagram is drawn once, edges join the nodes their source line names, and nodes are ranked along the declared direction.",
   ["inputs"], "all diagrams of the supported kinds", "Graph shapes are unbounded; tests have one small diagram per kind.",
   ["src/cli/markdown/mermaid"], [("flowchart and other layouts", "src/cli/markdown/mermaid")],
   "depends on keys and positions computed from the text at run time (hash maps from names to indices); no static relation between a node's name and its shape is expressible beyond what P28 decides about their ids")
na("P34", "Lazy and streaming generation stay within bounded memory",
   "Generating from a lazy source never holds more than a constant number of slides and the images they share, and profiling figures match what was used.",
   ["inputs", "histories"], "all numbers of slides", "Peak memory depends on allocator and data, and tests use decks that fit anyway.",
   ["src/generator/builder.rs", "src/generator/memory_profile.rs"], [("write_package_files_lazy", "src/generator/builder.rs")],
   "quantifies over run-time sizes; the writer itself gathers titles and media for the whole deck by design, so there is no structural rule (such as 'no collection of slides') whose violation is a defect")
na("P35", "Compression keeps the meaning of a package and removes what it promises",
   "PackageCompressor's output opens like its input: media nobody refers to, comments and white space go, everything else stays readable and referenced, and the reported sizes are those of input and output.",
   ["inputs", "configurations"], "all packages, all option combinations", "The tests compress two small decks and look at sizes.",
   ["src/opc/compress.rs"], [("PackageCompressor", "src/opc/compress.rs")],
   "which parts are unreferenced is decided by parsing relationship parts of the given file at run time; a package's entries are data here, not code, so no path or construct identifies a violation (panics there are P21's, lost write errors P15's). Read by hand: removing notes or properties leaves their relationships and overrides behind, and white space before a tag is dropped even when it ends a text; compression options `level` and `remove_comments` are not used")
