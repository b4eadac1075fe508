"""Regenerates properties.jsonl from the table below (kept for maintainability)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: anchors["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})

p("C01", "Opening a product reads only metadata, never its data objects",
  "Opening a product (PDS3, PDS4, FITS or desktop image) decodes only its label or format headers; no image, table, array, text or other data object is read or decoded until that object is asked for by item, attribute, load or load-all. "
  "PDS4 products are opened in lazy, unscaled mode, and importing or constructing never triggers a load of an indexed object.",
  ["inputs", "programs"], "Every product that can be opened, of any standard, with any label content.",
  "Tests open a handful of tiny products; laziness is a claim about every code path reachable from the constructor, including special cases for hundreds of datasets.",
  ["pdr/pdr.py", "pdr/loaders/handlers.py", "pdr/formats/checkers.py", "pdr/pil_utils.py"],
  [("constructor", "pdr/pdr.py Data.__init__"), ("lazy attribute access", "pdr/pdr.py Data.__getattribute__/__getitem__"), ("lazy PDS4 open", "pdr/pdr.py Data._init_pds4")])

p("C02", "A data object that cannot be loaded warns and falls back to metadata",
  "Outside debug mode, loading a PDS3 object that cannot be located or decoded, for whatever ordinary reason, does not raise: a warning is issued and the object takes its label metadata as its value. "
  "Asking to load a name the product does not have raises KeyError, loading an already loaded object without requesting a reload raises the already-loaded error, and keyboard interrupts are never swallowed. "
  "Load-all attempts every object except the ignored description files, and an object that is already loaded does not stop it.",
  ["inputs", "fault_sequences"], "Every PDS3 object and every exception any reader, query or special case can raise while loading it.",
  "The tests exercise successful loads of tiny synthetic products and no failing loader; the claim ranges over every exception raised anywhere in ~15k lines of readers.",
  ["pdr/pdr.py"],
  [("exception funnel", "pdr/pdr.py Data.load"), ("missing file default", "pdr/pdr.py Data._file_not_found"), ("load everything", "pdr/pdr.py Data.load_all")])

p("C03", "Reading a product never writes to the filesystem",
  "Opening a product and loading, viewing or scaling its objects never creates, modifies, renames or deletes any file or directory, and opens data files only for reading. "
  "Only an explicit browse export, and the load log that debug mode keeps, write to disk.",
  ["inputs", "programs"], "Every read-side operation on every product, through every special-case handler.",
  "A test sees only the files it happens to look at, for the products it happens to load; the claim is about the absence of writes on all paths.",
  ["pdr/pdr.py", "pdr/loaders", "pdr/formats", "pdr/browsify.py", "pdr/utils.py"],
  [("only writer", "pdr/browsify.py"), ("debug tracker", "pdr/pdr.py Data.__init__"), ("read-only opens", "pdr/utils.py decompress")])

p("C04", "Browse export writes only the files it was asked to write",
  "Every file a browse export writes is named by the requested output folder, prefix and object name followed only by a fixed suffix and extension, so distinct objects never overwrite each other and nothing outside the requested location is touched. "
  "When saving is disabled no image file is written, and showing an image writes nothing at all.",
  ["inputs", "configurations"], "Every object kind (image, burst image, table, record array, XML label, text) and every combination of export options.",
  "Tests export two arrays and one table with default names; the naming claim ranges over all object kinds and option combinations.",
  ["pdr/browsify.py", "pdr/pdr.py"],
  [("name construction", "pdr/pdr.py Data.dump_browse"), ("writers", "pdr/browsify.py browsify, _render_array, _browsify_recarray"), ("save flag", "pdr/browsify.py _render_array")])

p("C05", "Viewing, scaling and exporting leave loaded data unchanged",
  "Fetching a scaled copy, finding special constants, showing an image or exporting browse products never changes the values of the loaded object, unless the caller explicitly asks for in-place scaling or for purging. "
  "In-place and purging behaviour is off unless requested.",
  ["inputs", "histories"], "Every array or table and every sequence of view, scale and export calls.",
  "Tests never compare an object before and after viewing it; aliasing through views and in-place arithmetic depends on the path taken.",
  ["pdr/pdr.py", "pdr/_scaling.py", "pdr/browsify.py"],
  [("scaling", "pdr/_scaling.py scale_array, mask_specials, scale_pds4_tools_struct"), ("range normalisation", "pdr/browsify.py normalize_range, eightbit"), ("export", "pdr/pdr.py Data.dump_browse/show")])

p("C06", "Loading objects never alters the label metadata",
  "Loading objects, including every format-specific correction of label values, never changes the label metadata the product exposes, at any nesting depth. "
  "Corrections are made on copies, so the result does not depend on which objects were loaded before or on how often an object is reloaded.",
  ["inputs", "histories"], "Every product, every special case and every order and number of loads and reloads.",
  "Needs a product of each affected dataset and at least two loads of it; the repository ships no such data and the tests load each object once.",
  ["pdr/formats", "pdr/loaders/queries.py", "pdr/loaders/handlers.py", "pdr/bit_handling.py", "pdr/pdr.py"],
  [("metadata accessors that hand out label blocks", "pdr/pdr.py Metadata.metaget/metablock"), ("block corrections", "pdr/formats/*.py *_special_block"), ("block queries", "pdr/loaders/queries.py get_block")],
  state=[("label metadata", "the nested multi-mapping parsed from the label", "pdr/pdr.py Metadata")])

p("C07", "Label and data content is never executed or fetched",
  "Nothing read from a label, format file or data file is ever evaluated as code, unpickled, handed to a shell or used to reach the network: label values are interpreted as literals only. "
  "A URL given as a product name is rejected before anything is opened.",
  ["inputs", "programs"], "Every byte sequence a label or data file may contain.",
  "Absence of execution over all inputs cannot be sampled; the tests parse a few benign labels.",
  ["pdr/parselabel", "pdr/pdr.py", "pdr/formats", "pdr/loaders", "pdr/pds4_tools"],
  [("literal parsing", "pdr/parselabel/pds3.py literalize_pvl"), ("URL guard", "pdr/pdr.py Data.__init__")])

p("C08", "Every file handle the library opens itself is closed on every path",
  "Files that a load or label read opens directly are closed by the time the call returns or raises, including when decoding fails part way through. "
  "No handle is closed twice through its descriptor.",
  ["inputs", "fault_sequences"], "Every reader and every point at which it can fail.",
  "Leaks do not change results, and the error exits that leak are not exercised by any test.",
  ["pdr/utils.py", "pdr/loaders", "pdr/parselabel/utils.py", "pdr/formats"],
  [("read_image try/finally", "pdr/loaders/image.py"), ("with-blocks around decompress/open", "pdr/loaders/table.py, pdr/loaders/text.py"), ("label trimming", "pdr/parselabel/utils.py trim_label")])

p("C09", "Every special-case check answers in the one form its caller expects",
  "For every product, each special-case check returns a yes/no flag together with a replacement value, with no replacement when the flag is no, so that the caller can always unpack and act on the answer. "
  "Checks that only flag trivial objects always answer with a plain boolean.",
  ["inputs"], "Every combination of label identifiers, object name and file name.",
  "About 200 dataset-specific branches, none of which is covered by the shipped tests; a branch with the wrong return form fails only for that dataset.",
  ["pdr/formats/checkers.py", "pdr/formats", "pdr/func.py", "pdr/loaders/queries.py"],
  [("checker protocol", "pdr/formats/checkers.py module docstring"), ("consumer", "pdr/func.py specialize"), ("inline consumers", "pdr/pdr.py, pdr/bit_handling.py, pdr/pd_utils.py, pdr/loaders/handlers.py")])

p("C10", "Special-case handling applies exactly to the products it is written for",
  "Which format-specific correction, reader or trivial-object rule applies to an object is decided only by the documented combination of label identifiers, object name and file name for that dataset; a product that matches none of them is handled generically. "
  "Missing identifiers never select a special case.",
  ["inputs"], "Every combination of identifier values, object names and file names.",
  "The decision space is the product of some forty identifiers and names; tests cover none of the dataset gates.",
  ["pdr/formats/checkers.py", "pdr/loaders/dispatch.py"],
  [("gates", "pdr/formats/checkers.py check_special_*, check_trivial_case, special_image_constants"), ("pointer overrides", "pdr/loaders/dispatch.py special_pointer_dispatch")])

p("C11", "Internal references resolve and internal calls match their targets",
  "No load, scale, export or parse path can fail because an internal function, handler or module it refers to does not exist, because it is called with arguments it does not accept or without ones it requires, or because a local variable it reads was never assigned on that path.",
  ["inputs", "programs"], "Every call and every variable use on every path of the package outside the vendored reader.",
  "Python resolves names and arguments only when a line runs; most dataset-specific lines are never run by the tests.",
  ["pdr"],
  [("handler references", "pdr/formats/checkers.py formats.<module>.<function>(...)"), ("all internal call sites", "pdr/**/*.py")])

p("C12", "Every reader can always obtain the inputs it requires",
  "For each kind of loader, every input its reader and its queries require is provided by the product, the caller or another query of that loader that runs earlier, and each special-case check consulted along the way receives every input it requires. "
  "Each loader consults the special-case checks for block, offset and file position before its generic behaviour.",
  ["inputs", "configurations"], "Every loader class and every object it may be applied to.",
  "Inputs are matched by parameter name at run time, through kwargs filtering, so a renamed or newly required parameter breaks only the loaders that use it; tests drive two of them.",
  ["pdr/loaders/datawrap.py", "pdr/loaders/queries.py", "pdr/func.py", "pdr/formats/checkers.py"],
  [("query pipeline", "pdr/func.py softquery"), ("loader classes", "pdr/loaders/datawrap.py"), ("special-case preemption", "pdr/func.py specialize")])

p("C13", "Importing the package stays light and optional libraries stay optional",
  "Importing the package loads neither the array, table, FITS nor imaging libraries, and never requires an optional dependency. "
  "Missing optional dependencies only affect the operations that need them.",
  ["configurations"], "Every environment, with any subset of the optional dependencies installed.",
  "One test checks that two libraries are not loaded by the import; the environment in which tests run has every optional library installed.",
  ["pdr/__init__.py", "pdr/pdr.py", "pdr/utils.py", "pdr/loaders", "pdr/formats", "pyproject.toml"],
  [("deferred imports", "function-level imports throughout pdr"), ("dependency declaration", "pyproject.toml")])

p("C14", "PDS3 data types decode with the standard's byte order, width and kind",
  "Every PDS3 data type name maps to a numeric type with the byte order, signedness, kind and width in bytes that the PDS standard gives it, for every supported width. "
  "Type strings used to read binary data always have exactly the stated width, and unsupported widths are refused rather than misread.",
  ["inputs"], "Every PDS3 data type name and byte width, for images, qubes, tables and arrays.",
  "The test samples a few of the type names; a wrong order or width for another silently yields wrong numbers.",
  ["pdr/datatypes.py", "pdr/loaders/queries.py", "pdr/pd_utils.py", "pdr/bit_handling.py"],
  [("type table", "pdr/datatypes.py sample_types, integer_code, determine_byte_order"), ("uses", "pdr/loaders/queries.py im_sample_type, generic_qube_properties, parse_array_structure; pdr/pd_utils.py insert_sample_types_into_df")])

p("C15", "Special-constant tables are complete and representable",
  "Every numeric type an image can be loaded as has an entry in the table of implicit special constants, every constant in it is representable in that type, and both agree with the PDS3 standard's values. "
  "Constants are masked before any scale or offset is applied.",
  ["inputs"], "Every loadable array type and every label.",
  "Tests scale a single sample type.",
  ["pdr/datatypes.py", "pdr/_scaling.py", "pdr/pdr.py"],
  [("tables", "pdr/datatypes.py IMPLICIT_PDS3_CONSTANTS, PDS3_CONSTANT_NAMES"), ("masking", "pdr/_scaling.py find_special_constants, mask_specials"), ("order", "pdr/pdr.py Data.get_scaled")])

p("C16", "Compressed files are read transparently",
  "Every compression extension the library recognises when locating files is also decompressed when the file is opened, case-insensitively, and every stream it can yield is read through its decompressed contents. "
  "Generic readers of label, image, table, array and text data open files only through that transparent path.",
  ["inputs", "configurations"], "Every supported compression and every generic reader.",
  "No compressed product is in the tests.",
  ["pdr/utils.py", "pdr/np_utils.py", "pdr/loaders", "pdr/parselabel/pds3.py"],
  [("recognised extensions", "pdr/utils.py SUPPORTED_COMPRESSION_EXTENSIONS, stem_path"), ("opening", "pdr/utils.py decompress"), ("array reads", "pdr/np_utils.py np_from_buffered_io")])

p("C17", "Loaded text always has canonical line endings",
  "Whatever line endings a file uses, the label, header and text objects handed to the user contain only newline line endings.",
  ["inputs"], "Every label, header and text object, through every reader and special case.",
  "Shipped tests contain one line-ending style and no header or text object.",
  ["pdr/loaders/text.py", "pdr/loaders/_helpers.py"],
  [("canonicalisation", "pdr/loaders/_helpers.py canonicalized, canonicalize_line_endings"), ("text readers", "pdr/loaders/text.py")])

p("C18", "Tables and HDUs always get unique names",
  "Columns of a format definition that share a name are renamed apart before any table is built from it, repeated FITS column names are renamed apart before the data are touched, and repeated HDU or object names are indexed, so no object or column shadows another.",
  ["inputs"], "Every table, histogram, array and FITS product, including those loaded through special cases.",
  "No test product has repeated names.",
  ["pdr/loaders/queries.py", "pdr/pd_utils.py", "pdr/loaders/handlers.py", "pdr/parselabel/pds3.py", "pdr/formats"],
  [("PDS3 columns", "pdr/pd_utils.py reindex_df_values via read_table_structure"), ("FITS columns", "pdr/loaders/handlers.py reindex_dupe_names"), ("HDUs", "pdr/loaders/handlers.py unpack_fits_headers"), ("pointers", "pdr/parselabel/pds3.py index_duplicate_pointers")])

p("C19", "Padding never surfaces as table columns",
  "Pseudo-columns that stand for pad bytes, row prefixes and row suffixes never appear in a table handed to the user, and scale factors and offsets declared for columns are applied to every table the generic reader returns, after padding is removed.",
  ["inputs"], "Every text or binary table read by the generic reader.",
  "Tests read one small table without padding.",
  ["pdr/loaders/table.py", "pdr/loaders/queries.py", "pdr/pd_utils.py"],
  [("drop", "pdr/loaders/table.py _drop_placeholders"), ("creation", "pdr/loaders/queries.py create_placeholder_field; pdr/pd_utils.py compute_offsets")])

p("C20", "Images come out band-first, contiguous and without prefixes or suffixes",
  "Every image the generic reader returns, single-band or multi-band and whatever its band storage order, has its declared line prefixes/suffixes and side planes removed, VAX reals converted, its bands on the first axis and its memory C-contiguous. "
  "Combinations the reader cannot handle are refused before any bytes are read.",
  ["inputs"], "Every image or qube label: band count, storage order, prefix, suffix and side-plane layout.",
  "Two tests read tiny plain images.",
  ["pdr/loaders/image.py", "pdr/loaders/queries.py", "pdr/np_utils.py"],
  [("pipeline", "pdr/loaders/image.py process_single_band_image, process_multiband_image"), ("validity", "pdr/loaders/queries.py check_fix_validity, get_image_properties")])

p("C21", "Binary table columns are always fully decoded",
  "Every binary table the generic reader returns has all of its columns in native byte order with IBM and VAX reals converted, EBCDIC text decoded, booleans as booleans and bit strings expanded, in an order in which each conversion still sees the raw bytes it needs.",
  ["inputs"], "Every binary table definition and every mix of column types.",
  "The one binary-table test has no such columns.",
  ["pdr/loaders/table.py", "pdr/pd_utils.py", "pdr/bit_handling.py", "pdr/np_utils.py"],
  [("pipeline", "pdr/loaders/table.py _interpret_as_binary"), ("conversions", "pdr/pd_utils.py, pdr/bit_handling.py")])

p("C22", "Scaling is applied at most once, and only where it belongs",
  "Arrays that are delivered already scaled (FITS data and ordinary desktop images) are marked so on every loading path and are never scaled again, special constants are masked before scaling, and objects that are not arrays are refused rather than scaled.",
  ["inputs", "histories"], "Every array object of every standard and any sequence of scaled accesses.",
  "A single test scales one array.",
  ["pdr/pdr.py", "pdr/_scaling.py"],
  [("flag", "pdr/pdr.py Data._scaleflags in load_from_pointer, _load_primary_fits, _load_pds4"), ("consumer", "pdr/pdr.py Data.get_scaled")],
  state=[("prescaled flag", "object delivered already scaled", "pdr/pdr.py Data._scaleflags")])

p("C23", "Loaded objects have the documented types",
  "Whatever the source format, tables are delivered as data frames, arrays and images as plain arrays (an empty array for an empty HDU, never nothing), FITS headers as mappings, and multi-channel desktop images with the channel axis first. "
  "No element, field or channel is lost, moved or renamed on the way. "
  "A FITS data object is always accompanied by its own header (never that of another HDU or file), a header never displaces another object, and header cards the FITS reader refuses neither keep a product from being opened nor cost its data.",
  ["inputs"], "Every FITS, PDS4 and desktop-image object.",
  "The tests check a few formats; the type rule must hold on each branch of each format handler.",
  ["pdr/loaders/handlers.py", "pdr/pdr.py", "pdr/pd_utils.py"],
  [("FITS", "pdr/loaders/handlers.py handle_fits_file"), ("desktop images", "pdr/loaders/handlers.py handle_compressed_image"), ("PDS4", "pdr/pdr.py Data._load_pds4")])

p("C24", "Using the library leaves process-wide state alone",
  "Apart from disabling the imaging library's size limit (and its truncated-file check for the one camera that needs it), no read, load, scale or export changes process-wide settings: warning filters and numeric error modes are changed only within a restored scope, and working directory, environment, random seeds, locale and other libraries' options are never touched.",
  ["inputs", "histories"], "Every operation on every product, in any order and in any host program.",
  "Leaked global state shows up in some other part of the host program; no test looks for it.",
  ["pdr"],
  [("scoped warning filters", "pdr/_scaling.py, pdr/browsify.py, pdr/parselabel/pds3.py, pdr/loaders/queries.py"), ("documented exceptions", "pdr/loaders/handlers.py, pdr/utils.py, pdr/formats/msl_edr.py")])

p("C25", "Every object name is routed to a reader by the documented precedence",
  "For every object name and file extension exactly one kind of reader is chosen, by the documented precedence (trivial, label, external image or FITS library, special override, text, description, array, table, header, image, file extension), and a name that matches nothing gets the explicit not-yet-supported reader. "
  "Routing never fails and never returns nothing.",
  ["inputs"], "Every object name, data file extension and identifier set.",
  "The choice is a priority list over substrings of arbitrary names; tests touch two of the outcomes.",
  ["pdr/loaders/dispatch.py", "pdr/loaders/utility.py"],
  [("dispatch", "pdr/loaders/dispatch.py pointer_to_loader, image_lib_dispatch, file_extension_to_loader"), ("extension tables", "pdr/loaders/utility.py")])

p("C26", "Equivalent front doors behave identically",
  "The module-level read, open and fastread functions pass every argument they accept on to the product constructor unchanged, and fastread differs only in skipping the existence check and using the given path as label. "
  "The product's metadata accessors give exactly what the metadata object's own accessors give, and the quiet variants differ only in not warning; a default of any kind is given back as it is for a key the metadata does not hold.",
  ["inputs", "configurations"], "Every argument combination and metadata key.",
  "Tests call read with default arguments only.",
  ["pdr/__init__.py", "pdr/pdr.py"],
  [("front doors", "pdr/__init__.py read, fastread, open"), ("accessors", "pdr/pdr.py Data.metaget*/metablock*, Metadata.metaget*/metablock*")])

p("C27", "PVL parsing keeps every statement at the depth where it was written",
  "Every assignment in a PVL label appears exactly once in the parsed mapping, inside the block that encloses it, repeated names included, and the flat list of parameter names lists each of them; a stray block end at top level is ignored and an unclosed block is reported with a warning rather than an error. "
  "A value that cannot be interpreted is kept as its original text.",
  ["inputs"], "Every PVL text.",
  "Tests parse a few well-formed labels.",
  ["pdr/parselabel/pds3.py"],
  [("block stack", "pdr/parselabel/pds3.py BlockParser"), ("value fallback", "pdr/parselabel/pds3.py literalize_pvl")],
  state=[("block stack", "names, aggregations and parameters of the open blocks", "pdr/parselabel/pds3.py BlockParser")])

p("C28", "Reading always terminates: every scanning loop makes progress or stops",
  "Every open-ended loop that scans a label or data stream stops at end of input and otherwise consumes input or shrinks its work on each pass, so a truncated, empty or malformed file cannot hang a read.",
  ["inputs"], "Every file content, including empty and truncated files.",
  "A hang needs a malformed file that no test provides.",
  ["pdr/parselabel/utils.py", "pdr/loaders", "pdr/formats", "pdr/bit_handling.py"],
  [("label scan", "pdr/parselabel/utils.py _scan_to_end_of_label"), ("fixed-width scan", "pdr/loaders/table.py read_strictly_fixed"), ("loops in special readers", "pdr/formats")])

p("C29", "Failures while decoding are never swallowed inside a reader",
  "An unexpected failure while locating, parsing or decoding an object always reaches the loading call, which reports it; readers, queries and special-case handlers recover only from the specific errors they name, and never turn an arbitrary failure into ordinary-looking data.",
  ["inputs", "fault_sequences"], "Every failure at any point of any reader or handler.",
  "Needs faults injected inside readers; tests inject none.",
  ["pdr/loaders", "pdr/formats", "pdr/parselabel", "pdr/pdr.py", "pdr/func.py"],
  [("error propagation", "pdr/loaders/datawrap.py Loader.__call__"), ("named recoveries", "pdr/loaders/text.py, pdr/loaders/queries.py")])

p("C30", "Files named in labels are found regardless of letter case or compression",
  "Whenever the library opens a data, label or format file whose name comes from a label, it first resolves that name against the product's search paths ignoring letter case and compression suffix, and a name that resolves to nothing yields a file-not-found outcome, never a different file from outside those paths' folders.",
  ["inputs", "configurations"], "Every file name a label can give, on case-sensitive file systems.",
  "Test labels name their files exactly.",
  ["pdr/pdr.py", "pdr/utils.py", "pdr/loaders/queries.py", "pdr/formats"],
  [("resolution", "pdr/utils.py check_cases"), ("paths", "pdr/pdr.py Data._target_path, get_absolute_paths"), ("format files", "pdr/loaders/queries.py load_format_file")])

p("C31", "Corrections computed while loading always take effect",
  "No reader, query or special-case handler computes a corrected table, array, block or string and then discards it: results of non-mutating operations are used, and in-place corrections are applied to the object itself rather than to a temporary copy of part of it.",
  ["inputs", "programs"], "Every correction on every path of the readers and special cases.",
  "A lost correction only shows for the products that need it, none of which the tests contain.",
  ["pdr/loaders", "pdr/formats", "pdr/pd_utils.py", "pdr/bit_handling.py"],
  [("array start bytes", "pdr/loaders/queries.py parse_array_structure"), ("format-definition fixes", "pdr/formats/*.py")])

p("C32", "Every table column comes from the bytes its label gives it",
  "For every layout of a row that PDS3 labels can describe with columns, multi-item columns (evenly spaced or not), gaps, row prefixes and suffixes, unused bytes and (repeated) containers, each column of the table the generic reader returns holds exactly the bytes the label gives that column, item or repetition, under a name of its own; records are as long as the row with its prefix and suffix; and every declared row is read.",
  ["inputs"], "Every row layout of text and binary tables.",
  "The one binary-table test has adjacent plain columns; offsets in containers, items and prefixes are computed by code no test runs.",
  ["pdr/pd_utils.py", "pdr/loaders/queries.py", "pdr/loaders/table.py"],
  [("offsets", "pdr/pd_utils.py compute_offsets"), ("structure", "pdr/loaders/queries.py read_format_block, parse_table_structure, table_position"), ("reading", "pdr/loaders/table.py read_table")])

p("C33", "Objects are read from the exact byte range the label describes",
  "For every record length, position and size that a PDS3 label gives, what is read of the data file for an image, qube, binary or text table, binary array, histogram or text header is exactly the bytes of the object: those that start where its pointer says (in bytes, in records of the file the object is in, or at the start of the file), and as many as the label's dimensions, item sizes, prefixes, suffixes and planes add up to, in plain and compressed files, attached and detached, alone or beside other objects. Text placed by counting lines is the lines the label counts. (Headers are read up to 80000 bytes.)",
  ["inputs"], "Every label position and size specification.", "Tests use offsets of zero and files that hold nothing but the object.",
  ["pdr/loaders/queries.py", "pdr/loaders/_helpers.py", "pdr/loaders/image.py", "pdr/loaders/table.py", "pdr/loaders/text.py", "pdr/np_utils.py", "pdr/utils.py"],
  [("positions", "pdr/loaders/queries.py data_start_byte, table_position, get_identifiers"), ("sizes", "pdr/loaders/queries.py get_image_properties, _table_length, get_array_num_items"), ("reads", "pdr/np_utils.py np_from_buffered_io; pdr/loaders/image.py, table.py, text.py")])

# --- properties that matter, but that this family cannot decide -------------
p("C34", "Scaled values are exact or widened, never silently wrapped",
  "Applying a label's scale and offset (one for the array, or one per plane) never overflows silently: the result type is widened enough to hold every scaled value, integers stay exact or become double precision, masked special constants do not get in the way, and scaling fails only where no type holds the values.",
  ["inputs"], "Every array content, element type, scale and offset, in place or not, masked or not.",
  "One scale test.",
  ["pdr/_scaling.py", "pdr/pdr.py"], [("overflow handling", "pdr/_scaling.py overflow_wrap, fit_to_scale"), ("scaling", "pdr/_scaling.py _copy_scale, _inplace_scale, scale_pds4_tools_struct")])
p("C35", "A product offers exactly the objects that are there",
  "The names a product offers (its keys, its length, membership, its list of unloaded objects) are, in order, its label and each data object its PDS3 label points to, at any depth and whether or not it is defined there, except TIFF tags, structures and internal objects; line prefix tables that only their image describes; every HDU of a FITS file, every structure and the label of a PDS4 product, every frame of a desktop image. Each is offered exactly once, nothing else is, and loading an object never drops, repeats or reorders names, and adds only names of objects it delivers.",
  ["inputs", "histories"], "Every label, HDU list, structure list and frame count, before and after any load.",
  "Tests look at the keys of one or two products.",
  ["pdr/pdr.py", "pdr/loaders/utility.py", "pdr/parselabel/pds3.py"], [("finding objects", "pdr/pdr.py Data._find_objects, _associate_prefix_tables, _init_pds4, _init_primary_format, _add_loaded_objects"), ("trivial objects", "pdr/loaders/utility.py is_trivial"), ("pointers", "pdr/parselabel/pds3.py get_pds3_pointers, index_duplicate_pointers")])
p("C36", "Metadata lookups answer with what the label says",
  "The metadata of a product is its label's: each statement and block of a PVL label, each element of a PDS4 label (repeated or not, nested or not), each card of each header of a FITS file that can be read (with its comment), each attribute and tag of a desktop image is in it, in order, and nothing else is. A lookup by name gives the value of that name, outermost and first, even if that is zero or empty; the default it is given if the label has no such name or no value for it; a block only if it is one. It warns exactly when there are several of that name and it was not asked to be quiet. The identifiers used to recognise products hold what the label says of them.",
  ["inputs", "histories"], "Every label, name, default and order of lookups.",
  "Tests look up a handful of names in one or two labels, none of them repeated, empty or zero.",
  ["pdr/pdr.py", "pdr/parselabel/pds4.py", "pdr/parselabel/pds3.py", "pdr/loaders/handlers.py", "pdr/pil_utils.py"], [("lookups", "pdr/pdr.py Metadata.metaget, metablock, _metaget_factory, _metablock_factory, _init_identifiers"), ("labels", "pdr/parselabel/pds4.py unpack_to_multidict, reformat_pds4_tools_label; pdr/parselabel/pds3.py multidict_dig_and_edit"), ("headers and tags", "pdr/loaders/handlers.py handle_fits_header, unpack_fits_headers; pdr/pil_utils.py skim_image_data, get_image_metadata, unpack_xml, paramdig")])
p("C37", "PDS4 tables and arrays are decoded from the bytes their labels give",
  "For every PDS4 label of a binary, character or delimited table or of an array, the values delivered (unscaled) for each field or element are those that the bytes at the place the label gives stand for in its data type: byte order, width and kind of the type; every repetition of a field in groups, nested or not, with or without gaps, in order and in the shape of its groups; each delimited value whole, without its quotes, and masked if it is an empty number; arrays from their offset, their axes in the order of their sequence numbers. Fields are delivered under their names, in order, with as many records as declared.",
  ["inputs"], "Every type, nesting of groups, offset, gap, delimiter, line ending, quoting, axis order, with and without decoding of text.",
  "The tests read one small PDS4 product; groups, delimited tables and most types are read by code no test runs.",
  ["pdr/pds4_tools/reader", "pdr/pds4_tools/utils"], [("tables", "pdr/pds4_tools/reader/read_tables.py read_table_data, _extract_fixed_width_field_data, _extract_delimited_field_data, _get_delimited_records_and_start_bytes; table_objects.py TableManifest"), ("arrays", "pdr/pds4_tools/reader/read_arrays.py, array_objects.py"), ("types", "pdr/pds4_tools/reader/data_types.py")])
p("N02", "Decoded pixel and cell values equal the encoded ones",
  "Numeric values delivered to the user equal the values encoded in the file, including IBM and VAX reals, bit fields and compressed camera frames.",
  ["inputs"], "Every file content.", "Tests compare a few tiny arrays.",
  ["pdr/np_utils.py", "pdr/bit_handling.py", "pdr/formats/mgs_moc.py", "pdr/formats/msl_edr.py"],
  [("conversions", "pdr/np_utils.py ibm_to_np; pdr/formats/mgs_moc.py")])
p("N04", "Memory and time stay proportional to the object read",
  "Reading an object takes memory and time proportional to its size, independent of the size of the file it is embedded in.",
  ["inputs"], "Every file size and object position.", "Tests use files of a few bytes.",
  ["pdr/np_utils.py", "pdr/utils.py"], [("bounded reads", "pdr/np_utils.py np_from_buffered_io; pdr/utils.py head_file")])
p("N05", "Text tables parse to the same values by either text parser",
  "A fixed-width text table yields the same values whether it is read by delimiter or by column positions.",
  ["inputs"], "Every text table.", "One table test.",
  ["pdr/loaders/table.py"], [("fallback parsers", "pdr/loaders/table.py _read_table_from_stringio")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
