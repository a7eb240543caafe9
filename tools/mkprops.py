#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script only to make the text easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "XML export reproduces every live record and every field value",
 "For every well-formed database, the XML export of a table (-eax, -ex) contains the table's field list and exactly one record element per record that is not marked deleted, each field holding exactly the stored value in its documented presentation (or an empty element for null). Nothing is dropped, duplicated, shifted to another column or record, or truncated, whatever the field types, lengths, nullability, hidden version columns, BLOB sizes, format version, page size or number of records. For values representable in XML 1.0 every generated file is well-formed XML, with markup characters in values escaped.",
 ["inputs", "configurations"],
 "all table schemas (11 field types x length x precision x nullability, with or without record versions), all record counts and deleted-record patterns, all values, every file format version (8.1.0, 8.2.0, 8.2.14, 8.3.8 and the read-only 8.0 ones) and page size 4K..64K",
 "The unit tests check one decimal, one GUID and one numeric presentation; no test exports a table to XML. Field layout is computed from the schema and the values come from raw bytes, so only generated schemas and values reach the offset, length and null handling.",
 ["src/tool1cd/Table.cpp", "src/tool1cd/Field.cpp", "src/tool1cd/FieldType.cpp", "src/tool1cd/BinaryDecimalNumber.cpp", "src/tool1cd/TableRecord.cpp", "src/ctool1cd/App.cpp"],
 [("field layout from the schema text", "Table::init"), ("per type presentation", "FieldType.cpp get_presentation / get_XML_presentation"), ("record loop and escaping", "Table::export_to_xml")],
 observe=["the .xml files written by -eax / -ex"])

prop("C02", "XML export lists records in primary index order, completely",
 "When a table has a primary index, its XML export lists the records in the order of that index's leaf chain; otherwise in physical order. Whatever the depth of the index tree, the key length, the bit widths chosen for the packed leaf entries and the number of leaf pages, each indexed live record appears exactly once.",
 ["inputs"],
 "all index shapes: one to several tree levels, unique/non unique, primary or not, key lengths, packed entries of every bit-width combination, several indexes in one index file, record numbers in any permutation",
 "No test reads an index. Leaf pages are bit-packed with page-dependent widths, so an error shows only for particular key/record-number combinations or on the second and later leaf pages.",
 ["src/tool1cd/Index.cpp", "src/tool1cd/Table.cpp"],
 [("leaf chain walk", "V8Index / Index::get_num_records, get_numrec, create_recordsindex"), ("choice of the ordering index", "Table::export_to_xml")],
 observe=["order of <Record> elements in exported XML"])

prop("C03", "Binary export of tables returns the exact stored bytes",
 "For every well-formed database, binary export of a table (-eb) writes the table's description, record data, BLOB storage and index storage byte for byte as stored, with exactly the stored lengths, and, where the format stores descriptions as objects of their own (before 8.3.8), the description text the database holds. This is independent of the size of the storage (single page, multi-page, two-level allocation), the page size, the physical placement of pages, the allocation order and how many pages were read before.",
 ["inputs", "configurations"],
 "all object lengths around page and allocation-table boundaries, all physical page permutations (including fragmented and reversed), all page sizes and format versions, any number of tables read in one run (page cache eviction included), any passage of wall-clock time between reads",
 "No test reads an object longer than a few pages; allocation level 1, second allocation pages and cache eviction are not reached by the small fixture files.",
 ["src/tool1cd/V8Object.cpp", "src/tool1cd/MemBlock.cpp", "src/tool1cd/Class_1CD.cpp", "src/tool1cd/Table.cpp"],
 [("logical to physical page mapping", "V8Object::get_data / get_fileblock"), ("page cache", "MemBlock::get_block, garbage"), ("per table export", "Table::export_table")],
 observe=["root, data, blob, index, descr files written by -eb"])

prop("C04", "Binary import restores a table exactly and harms nothing else",
 "After a table is exported in binary form from one database and imported (-ib) into a database with the same table, every later export of that table from the target returns exactly the imported content, even when the imported storage is larger, smaller, empty or absent compared to what the target held. All other tables keep exactly their content, the database file stays structurally sound (every page owned by at most one object, free pages chained, header length equal to the file size), and the tables the imports did not name stay untouched.",
 ["histories", "inputs", "configurations"],
 "all sequences of imports of growing, shrinking and empty data/BLOB/index storages crossing page and allocation-level boundaries, from one or several source databases, on writable format versions",
 "No test imports a table. Growing and shrinking storage rewrites allocation tables and the free list; defects appear only after particular sequences of sizes and show up as damage to other tables.",
 ["src/tool1cd/Table.cpp", "src/tool1cd/V8Object.cpp", "src/tool1cd/Class_1CD.cpp", "src/tool1cd/MemBlock.cpp"],
 [("file import", "Table::import_table"), ("allocation growth and shrink", "V8Object::set_len, set_data"), ("free page list", "V8Object::set_block_as_free, get_free_block"), ("write back", "MemBlock::write, T_1CD::flush")],
 observe=["database file after -ib, read by an independent structural reader"])

prop("C05", "Reading commands never modify the database",
 "Every command except binary import leaves the database file byte for byte unchanged, and performs no write or truncation on it at all; this holds for valid and damaged files, alone or in any combination and order of commands. With the read-only option not even binary import alters the file.",
 ["histories", "inputs", "configurations"],
 "all command combinations and orders, all format versions, valid and damaged databases, with and without the read-only option",
 "The tests never compare the database before and after; a dirty page or a repaired structure written back by a reading command destroys a production base.",
 ["src/tool1cd/Class_1CD.cpp", "src/tool1cd/V8Object.cpp", "src/tool1cd/MemBlock.cpp", "src/ctool1cd/App.cpp"],
 [("changed flag of cached pages", "MemBlock::get_block_for_write"), ("read-only open", "T_1CD::T_1CD"), ("write gate", "MemBlock::write")],
 observe=["database bytes and write system calls of the tool"])

prop("C06", "Configuration dumps contain the stored configuration exactly",
 "Dumping the database configuration (-ddc) yields a container holding exactly the current stored configuration files with their exact stored content, with dynamic updates resolved to the effective version, and dumping the main configuration (-dc) yields exactly the configuration being edited: base files overlaid by the saved changes, with removed files absent. Nothing is lost, duplicated, renamed, truncated or taken from a stale version, for any number and size of files and for parts stored in several records; every entry carries the creation and modification times of the stored file.",
 ["inputs", "configurations", "histories"],
 "all sets of configuration rows: names with and without dots and GUIDs, sizes from 0 to several MB (also around storage page sizes), packed or not, multi-part files, dynamic updates, deleted markers, main storage with and without a saved overlay, every format version",
 "The existing tests only assert that the dump call returns; they never read the produced container.",
 ["src/tool1cd/TableFiles.cpp", "src/tool1cd/ConfigStorage.cpp", "src/tool1cd/Table.cpp", "src/tool1cd/cfapi/V8Catalog.cpp", "src/tool1cd/TableFileStream.cpp", "src/tool1cd/UZLib.cpp"],
 [("collection of files from the table", "TableFiles"), ("dynamic update resolution and overlay", "ConfigStorageTableConfig, ConfigStorageTableConfigSave"), ("container writing", "ConfigStorageTable::save_config, V8Catalog")],
 observe=["the .cf files written by -ddc and -dc, read by an independent reader"])

prop("C07", "Vendor configurations and extensions are dumped exactly",
 "Dumping vendor configurations (-dvc) writes one container per vendor configuration stored in the database, named after its name and version, holding exactly the stored vendor configuration; dumping all configurations (-dac) writes the main, the database and every vendor configuration, each with exactly its stored content. Reading an extension configuration through the library (ConfigStorageTableConfigCas, and ConfigStorageTableConfigCasSave for its edited state) gives exactly the files stored for that extension, each with exactly its content; reading a single file of any configuration through the library adapters, also one nested in another by its path, gives exactly its unpacked content. No vendor configuration or extension file is skipped, mixed up with another, or truncated.",
 ["inputs", "configurations"],
 "any number of vendor configurations and extensions (0..n), names with any characters allowed in file names, any content size, all supported format versions",
 "One test checks that a single vendor dump does not crash; the content, several vendors, and extensions are not checked.",
 ["src/tool1cd/SupplierConfig.cpp", "src/tool1cd/SupplierConfigBuilder.cpp", "src/tool1cd/Class_1CD.cpp", "src/tool1cd/ConfigStorage.cpp", "src/tool1cd/cfapi/V8Catalog.cpp"],
 [("vendor list", "T_1CD::find_supplier_configs, SupplierConfigBuilder"), ("extension storage", "ConfigStorageTableConfigCas, ConfigStorageTableConfigCasSave"), ("dump", "SupplierConfig::save_to_file")],
 observe=["container files written by -dvc and -dac"])

prop("C08", "Dumping a repository version reproduces that version",
 "For a configuration repository database, dumping version N (-drc N; 0 or negative counting back from the last) writes one container equal to the configuration as it was in version N: for every object the last revision not later than N, objects removed by then absent, each content exact, wherever that content is stored (database BLOB, separate object file, or pack file). A non-existing version is reported and produces no container.",
 ["histories", "inputs", "configurations"],
 "all repository histories (objects added, changed, removed, re-added, renamed externals over any number of versions), all repository format versions (5, 6, 7), content in BLOBs, object files or packs, all N",
 "The tests dump one version of three small fixture repositories and assert only that the call does not fail.",
 ["src/tool1cd/save_depot_config.cpp", "src/tool1cd/PackDirectory.cpp", "src/tool1cd/Packdata.cpp", "src/tool1cd/Class_1CD.cpp", "src/ctool1cd/App.cpp"],
 [("history to version selection", "T_1CD::save_depot_config"), ("content lookup by hash", "PackDirectory, Packdata"), ("version number resolution", "T_1CD::get_ver_depot_config")],
 observe=["v<N>.cf and its content"])

prop("C09", "Partial repository dumps contain exactly the changed objects",
 "Dumping a range of repository versions (-dpc from:to, or a single version) writes every object and every external file of an object whose content after version `to` differs from what it was before version `from`, with exactly its decompressed content as of version `to` (a container as a directory of its files), wherever that content is stored. The file `deleted` lists exactly the objects that existed before the range and no longer exist after it. Nothing is written for objects and files that did not change in the range. The bounds given on the command line (absolute, or counted back from the last version) are the bounds used; a range with a version that does not exist is reported and writes nothing.",
 ["histories", "inputs"],
 "all repository histories and all ranges (single version, first:last, open to the latest), all repository format versions",
 "The existing tests assert only that the call does not fail; no test looks at which files were written or at their content.",
 ["src/tool1cd/save_part_depot_config.cpp", "src/ctool1cd/App.cpp"],
 [("range parsing", "App::save_depot_config_part"), ("history comparison", "T_1CD::save_part_depot_config")],
 observe=["files and deleted list in the output directory"])

prop("C10", "Container files behave as a persistent map from names to bytes",
 "A configuration container (.cf/.cfu/.epf) edited through the library - files created, written, overwritten with longer or shorter content, appended, renamed, deleted, nested containers edited, in any order and across any number of close and reopen steps - always reads back as exactly the resulting set of names, contents and times. The saved file is a valid container for an independent reader, with no block shared between live entries or between a live entry and the free list.",
 ["histories", "inputs"],
 "all sequences of container operations, all content sizes (empty, around the 512 byte page, large), nested containers, zipped and plain ones, any reopen points",
 "No test touches the container library at all.",
 ["src/tool1cd/cfapi/V8Catalog.cpp", "src/tool1cd/cfapi/V8File.cpp", "src/tool1cd/cfapi/TV8FileStream.cpp", "src/tool1cd/cfapi/APIcfBase.cpp", "src/tool1cd/cfapi/V8Time.cpp"],
 [("block chains and free list", "V8Catalog::read_block, write_block, free_block, get_nextblock"), ("table of contents", "V8Catalog::flush, initialize, delete_file"), ("file open/close/write", "V8File")],
 observe=["library return values and the saved container file"])

prop("C11", "Bracket notation parsing and writing are inverse, errors rejected",
 "Every well-formed text in the platform's bracket notation parses to the tree it denotes - nesting, order, strings with doubled quotes and line breaks, numbers, GUIDs, binary and link values keep their text and kind - and writing that tree and parsing it again gives the same tree. Text with unbalanced brackets or quotes or stray values is reported as malformed, whether it comes as a text or as a stream, without crash or endless loop.",
 ["inputs"],
 "all texts: any nesting depth and width, all value kinds, embedded quotes, line breaks, BOM, any mutation of a valid text",
 "The tests parse two small fixed strings; they never write a tree back, nor try strings with quotes or malformed text.",
 ["src/tool1cd/Parse_tree.cpp", "src/tool1cd/Parse_tree.h"],
 [("state machine parser", "parse_1Ctext, parse_1Cstream"), ("value classification", "classification_value"), ("writer", "tree::outtext / outtext")],
 observe=["tree structure and serialised text through the library"])

prop("C12", "Value conversions are exact and mutually inverse",
 "Conversions between stored bytes and presentations - GUIDs, packed decimals, packed dates, UTF-8/UTF-16 text, hexadecimal, Base64, deflate compression, checksums - yield exactly the value defined by the format for every input, and converting back yields the original. No input value reads or writes outside its buffer.",
 ["inputs"],
 "all GUID values, all decimals of every length and precision and sign, all valid dates, all Unicode text including supplementary characters, all byte strings of any length (including lengths at internal buffer multiples)",
 "Each conversion is tested with one or two constants; length-dependent code (final Base64 group, odd digit counts, buffers that are an exact multiple of the chunk size) is not reached.",
 ["src/tool1cd/BinaryGuid.cpp", "src/tool1cd/BinaryDecimalNumber.cpp", "src/tool1cd/Base64.cpp", "src/tool1cd/Common.cpp", "src/tool1cd/UZLib.cpp", "src/tool1cd/CRC32.cpp", "src/tool1cd/SystemClasses/String.cpp", "src/tool1cd/SystemClasses/System.SysUtils.cpp", "src/tool1cd/cfapi/V8Time.cpp"],
 [("GUID byte orders", "BinaryGuid"), ("packed decimal", "BinaryDecimalNumber, BinaryDecimalDate"), ("chunked inflate/deflate", "ZInflateStream, ZDeflateStream"), ("text conversion", "String, TEncoding")],
 observe=["return values through the library"])

prop("C13", "Damaged databases never crash, corrupt memory or hang the tool",
 "Whatever the bytes of the database file - truncated, bit-flipped, with wrong lengths, out-of-range or cyclic page references, broken descriptions or indexes - every command ends in bounded time and memory with an error report or partial output. It never reads or writes outside its memory, never executes undefined behaviour, and never ends by a signal or an uncaught exception.",
 ["inputs", "configurations"],
 "all damaged variants of all databases under all reading commands",
 "The tests open only intact fixtures.",
 ["src/tool1cd/Class_1CD.cpp", "src/tool1cd/V8Object.cpp", "src/tool1cd/Table.cpp", "src/tool1cd/Index.cpp", "src/tool1cd/TableFiles.cpp", "src/tool1cd/ConfigStorage.cpp"],
 [("header and object validation", "T_1CD::T_1CD, V8Object::init"), ("description parsing", "Table::init"), ("per command exception guard", "App::run")],
 observe=["sanitizer reports, exit status, run time and memory of the tool"])

prop("C14", "Damaged containers and streams never crash or corrupt memory",
 "Whatever the bytes of a configuration container, of a compressed stream, of a bracket-notation text or of a repository pack file, reading it ends in bounded time with an error or partial data. It never reads or writes outside its memory, never executes undefined behaviour, and a damaged or truncated compressed stream is never taken for a complete one.",
 ["inputs"],
 "all damaged variants of containers (headers, block chains, tables of contents), deflate streams, texts and packs",
 "The tests contain no damaged container, stream or pack.",
 ["src/tool1cd/cfapi/V8Catalog.cpp", "src/tool1cd/cfapi/V8File.cpp", "src/tool1cd/UZLib.cpp", "src/tool1cd/Parse_tree.cpp", "src/tool1cd/PackDirectory.cpp", "src/tool1cd/Packdata.cpp"],
 [("block header validation", "stBlockHeader, V8Catalog::read_block"), ("inflate loop", "ZInflateStream"), ("pack index reading", "Packdata, PackDirectory")],
 observe=["sanitizer reports and results through the library and the tool"])

prop("C15", "The command line does what its documentation says",
 "Every documented option, in short and long form and in any order and combination, runs exactly the documented action on exactly the tables selected by its list and wildcards, and output files get the documented names. Errors - missing database, unreadable database, failed commands, bad parameters - are reported, logged when a log file is requested, and reflected in a non-zero exit code; a successful run exits with zero.",
 ["inputs", "configurations"],
 "all option sequences, all table filters (lists, wildcards, mixed separators and letter case), all quoting forms of paths, quiet/log modes, success and failure outcomes",
 "No test runs the command line program.",
 ["src/ctool1cd/App.cpp", "src/ctool1cd/ParseCommandLine.cpp", "src/ctool1cd/cTool_1CD_Main.cpp", "src/tool1cd/Messenger.cpp"],
 [("option parsing", "CommandParse"), ("dispatch", "App::run"), ("table filter", "App::get_table_filter"), ("exit code from logged errors", "Messenger::getHasError")],
 observe=["exit status, stdout, log file, produced files"])

prop("C16", "Failures to read or write files are never reported as success",
 "If any read of an input or any creation, write or extension of an output fails (permission, missing directory, full disk, I/O error, truncated source), the run reports an error and exits with a non-zero code. A run that reports success has written every output completely.",
 ["fault_sequences", "configurations"],
 "every single failing open, read, write, seek or mkdir call in every command, with each error kind, and sequences of them",
 "No test injects an I/O failure; stream classes swallow stream state bits.",
 ["src/tool1cd/SystemClasses/TFileStream.cpp", "src/tool1cd/SystemClasses/TStream.cpp", "src/tool1cd/Class_1CD.cpp", "src/tool1cd/MemBlock.cpp", "src/tool1cd/Messenger.cpp", "src/ctool1cd/App.cpp"],
 [("stream state checks", "TWrapperStream, TFileStream"), ("error reporting", "Messenger, App::run")],
 observe=["exit status and completeness of outputs under injected faults"])

prop("C17", "Lost objects are found exactly and saved exactly",
 "The search for lost objects (-slo) finds every object in the file that no table and no system structure refers to, writes each one's exact content to its own file in the given directory, and reports nothing for objects that are in use. The database is not changed.",
 ["inputs", "configurations"],
 "any number, placement and size of unreferenced objects among used and free pages, all format versions and page sizes",
 "No test runs the search.",
 ["src/tool1cd/Class_1CD.cpp", "src/tool1cd/V8Object.cpp", "src/ctool1cd/App.cpp"],
 [("scan of all pages", "T_1CD::find_and_save_lost_objects"), ("object validity check", "V8Object")],
 observe=["files written by -slo"])

prop("C18", "BLOB export to files writes every value to its own file",
 "With BLOB export to files (-bf yes), each IMAGE value that is neither null nor empty is written to its own file with exactly its content (unpacked when unpacking is on and the value is packed), and the exported record refers to that file; two values never share a file. Without it the value is embedded in the XML as exact Base64; TEXT values are always embedded.",
 ["inputs", "configurations"],
 "all numbers of BLOB columns and records, all content kinds (text, binary, packed, containers, empty), with and without unpacking, with and without a primary index, equal keys and empty keys",
 "No test exports BLOBs.",
 ["src/tool1cd/Table.cpp", "src/tool1cd/Field.cpp"],
 [("file naming from key or number", "Table::get_file_name_for_record"), ("BLOB reading and unpacking", "Field::save_blob_to_file, Table::readBlob")],
 observe=["files in <table>.blob and references in the XML"])

prop("C19", "Concurrent runs do not disturb each other",
 "Any number of runs of the tool at the same time, on the same or different databases, each produce exactly the output they produce when run alone. No run deletes or overwrites another run's temporary or output files.",
 ["schedules"],
 "all interleavings of two or more concurrent processes running any reading commands with different output directories",
 "The tests run in a single process, one at a time.",
 ["src/tool1cd/TempStream.cpp", "src/tool1cd/SystemClasses/System.IOUtils.cpp", "src/tool1cd/Class_1CD.cpp"],
 [("temporary file naming and removal", "TTempStream"), ("shared read open", "T_1CD::T_1CD")],
 observe=["outputs of each process; temporary files"])

prop("C20", "Output stays inside the requested directory",
 "Every file the tool creates, changes or removes lies inside the output paths named on the command line (and its own temporary directory), whatever names, keys or version strings the database contains. A name that would lead outside is refused or made harmless.",
 ["inputs"],
 "all table names, configuration file names, vendor names and versions, repository external names and record keys, including '..', absolute paths, separators and device characters",
 "No test uses a name with a separator or '..' in it.",
 ["src/tool1cd/cfapi/V8Catalog.cpp", "src/tool1cd/Class_1CD.cpp", "src/tool1cd/save_part_depot_config.cpp", "src/tool1cd/Table.cpp", "src/ctool1cd/App.cpp"],
 [("file names from database content", "SupplierConfig::save_to_file, App::export_to_xml, Table::get_file_name_for_record, save_part_depot_config")],
 observe=["file system changes outside the output directory (system call log)"])

prop("C21", "The table size report is exact",
 "The table size report (-sts) has one line per table in the database with exactly its name, its record count (record slots of the data storage, deleted ones included) and the exact stored sizes of its data, BLOB and index storage; absent storages count as zero.",
 ["inputs", "configurations"],
 "any number of tables, with and without data, BLOB and index storage, any sizes, every format version and page size",
 "No test produces the report.",
 ["src/ctool1cd/App.cpp", "src/tool1cd/Table.cpp", "src/tool1cd/V8Object.cpp"],
 [("report writing", "App::save_tables_stats / Table file lengths")],
 observe=["the file written by -sts"])

prop("C22", "The graphical tool shows exactly what is stored",
 "What the graphical tool shows and saves is the content of the opened file: every table with its record length and storage sizes, every field with its description, every record (all slots without an index, the live ones in index order with an index, deleted ones marked) with every value, texts as texts, bracket texts and containers as their exact trees, packed binary values unpacked; saved values, storages, configurations and exports equal what the command line tool writes. A file that is neither a database nor a container is refused with a message. Neither browsing nor saving changes the opened file or ends the program.",
 ["inputs", "histories"],
 "all databases, infobases and containers, all sequences of opening windows, choosing indexes, selecting values and opening elements, values of every type incl. null, empty, packed and nested ones, storages over 2 GB",
 "The graphical tool has no tests.",
 ["src/gtool1cd/models/table_data_model.cpp", "src/gtool1cd/table_data_window.cpp", "src/gtool1cd/BlobViewer/blob_viewer.cpp", "src/gtool1cd/models/skobka_tree_model.cpp", "src/gtool1cd/models/v8catalog_tree_model.cpp", "src/gtool1cd/models/tables_list_model.cpp", "src/gtool1cd/models/fields_list_model.cpp", "src/gtool1cd/mainwindow.cpp", "src/gtool1cd/configurations_window.cpp", "src/gtool1cd/starter.cpp"],
 [("shown values", "TableDataModel::data, getBlobStream, dumpBlob; TableDataWindow::dataView_selection_changed; BlobViewer::setStream, setText"), ("trees", "SkobkaTreeModel, V8CatalogTreeModel"), ("lists", "TablesListModel, FieldsListModel, VendorConfigurationsTableModel")],
 observe=["the models behind the visible windows (offscreen) and the content of the viewer's tabs", "files saved by the windows"])

prop("C23", "Results depend only on the inputs",
 "For the same database and the same command line every run gives the same output files, imported database, exit code and messages, whatever the locale, working directory, directory for temporary files, environment, standard input, umask, the content of memory that was never set, or the compiler's treatment of it. No run of the tool and no use of the library reads a value that was never set, passes such a value to a file, or touches freed or foreign memory. Only the new identifiers and current times inside a configuration dumped from a repository may differ.",
 ["inputs", "configurations", "histories"],
 "all databases, intact and damaged, all command lines, all library operations, all surroundings of the process",
 "A test runs once, in one environment, where unset memory tends to be zero; a wrong result that depends on it passes.",
 ["src/tool1cd/V8Object.cpp", "src/tool1cd/Class_1CD.cpp", "src/tool1cd/Table.cpp", "src/tool1cd/Index.cpp", "src/tool1cd/Field.cpp", "src/tool1cd/ConfigStorage.cpp", "src/tool1cd/cfapi/V8Catalog.cpp", "src/tool1cd/cfapi/V8File.cpp", "src/tool1cd/save_depot_config.cpp", "src/tool1cd/save_part_depot_config.cpp", "src/ctool1cd/App.cpp"],
 [("members set on construction and opening", "V8Object::init, Table::init, Index, Field, V8Catalog, V8File"), ("buffers written to files", "V8Catalog, TStream, Table::export_table"), ("temporary directory", "TTempStream")],
 observe=["output files, database, exit code, messages and log of pairs of runs", "memcheck's reports"])

prop("C24", "The cost of a run grows in proportion to the data",
 "For valid input, the processor work, the number of bytes and calls to the system for files, and the peak memory of a run grow in proportion to the input: when the number or length of the rows, values, texts, images, tables, indexes, fields, configuration files, edited, deleted or updated files, vendor configurations, repository objects or versions, lost objects, container files or bracket values doubles, the cost doubles at most, apart from a constant and small logarithmic parts; it never grows with the square of the input. Exempt are products of two independent lists (tables times names asked for), many distinct externals of one repository object, and deletion of files from a container.",
 ["inputs"],
 "all sizes of all kinds of valid input",
 "Tests use inputs so small that a quadratic step is not seen; databases in use have millions of rows and tens of thousands of configuration files, for which a quadratic step means hours.",
 ["src/tool1cd/Table.cpp", "src/tool1cd/Class_1CD.cpp", "src/tool1cd/V8Object.cpp", "src/tool1cd/TableFiles.cpp", "src/tool1cd/ConfigStorage.cpp", "src/tool1cd/Parse_tree.cpp", "src/tool1cd/cfapi/V8Catalog.cpp", "src/tool1cd/cfapi/V8File.cpp", "src/tool1cd/save_depot_config.cpp", "src/tool1cd/save_part_depot_config.cpp", "src/tool1cd/SystemClasses/String.cpp"],
 [("lookups by name", "TableFiles, ConfigStorage, V8Catalog::files, T_1CD::find_table"), ("export of rows and BLOBs", "Table::export_to_xml, Table::unique_file_name"), ("import", "Table::import_table"), ("text handling", "StringReplace, parse_1Ctext, outtext")],
 observe=["instructions executed", "bytes and calls of file operations", "peak resident memory"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
