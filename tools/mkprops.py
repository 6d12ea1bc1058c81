#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

prop("C01", "Versions are totally ordered, numerically, and consistently",
 "For any two version values (patch, RADS or generic; canonical dotted numbers or integer tuples) exactly one of <, ==, > holds, <=, >= and != agree with it, and the order is the componentwise numeric one (9.10 is after 9.9). Equal versions have the same text and hash and also equal their own text form and tuple form, the text and tuple forms denote the same numbers, patch versions keep only their first two numbers and `main` equals only itself. Patches, elements, solutions, projects and their versions are equal, with equal hashes, exactly when their kind, name and version are. Sorting solution versions, project versions or patches puts the newest first (projects and solutions by name first).",
 ["inputs"], "all pairs/triples of version values of every class, built from text or from tuples, with 1..4 components of any magnitude",
 "Tests compare about ten hand-picked pairs; a total order is a statement about every pair and triple (digit-count boundaries, prefixes, mixed construction).",
 ["cdtb/storage.py", "cdtb/rads.py"],
 [("BaseVersion/PatchVersion comparison and hashing", "cdtb/storage.py:BaseVersion, PatchVersion"), ("RadsSolutionVersion/RadsProjectVersion/Patch ordering", "cdtb/rads.py, cdtb/storage.py:Patch.__lt__")],
 observe=["BaseVersion, PatchVersion, RadsVersion operators", "sorted() over versions/patches"])

prop("C02", "Patch history lists every patch exactly once, newest first",
 "For every storage history (patcher releases or RADS solution versions) in which the patch version of each element never decreases over time, the elements are generated from the latest version to the oldest, every one of them once, and the patches generated are exactly the distinct patch versions present, each exactly once, in strictly decreasing order. Each listed patch holds, for each element name available at that version, the element of the newest release (or solution version) that carries it. Listing stored patches never contacts the network for update information and never changes already stored releases.",
 ["histories"], "every finite sequence of releases with per-element non-decreasing versions, including releases missing an element and releases whose two elements are at different versions",
 "Storage tests only list RADS versions from a mocked listing; no test builds a release history or calls patches().",
 ["cdtb/storage.py", "cdtb/patcher.py", "cdtb/rads.py"],
 [("Storage.patches grouping", "cdtb/storage.py:Storage.patches"), ("PatcherStorage.iter_releases/patch_elements", "cdtb/patcher.py"), ("RadsStorage.patch_elements merge", "cdtb/rads.py")],
 state=[("releases", "release directories with release.json", "cdtb/patcher.py:PatcherStorage.iter_releases")],
 observe=["Storage.patch_elements()", "Storage.patches()", "cdtb versions"])

prop("C03", "A component or version selects exactly what it names",
 "Looking up a patch or an element by version returns the newest one with exactly that name and version, and nothing when there is none; without a version it returns the latest one, and nothing when the storage is empty. Component strings `patch=`, `game=`, `client=` followed by nothing, X.Y, X.Y. or main follow the same rule, other numbers select nothing or are refused, and every other string is rejected as invalid. The `files` and `versions` commands print exactly the files of the selected elements and the versions of the patches having an element of the requested type.",
 ["inputs", "histories"], "all component strings over the documented grammar and near-misses of it, against all storage histories",
 "No test calls parse_storage_component, patch() or patch_element(); the tests stub patch_elements with four fixed versions.",
 ["cdtb/storage.py", "cdtb/__main__.py"],
 [("Storage.patch/patch_element", "cdtb/storage.py"), ("parse_storage_component", "cdtb/storage.py"), ("command_files/command_versions", "cdtb/__main__.py")],
 observe=["Storage.patch()", "Storage.patch_element()", "parse_storage_component()", "cdtb files/versions output"])

prop("C04", "Release tracking records each advertised update exactly once",
 "Checking for updates stores a new release, holding exactly the advertised client and game manifest locations for the configured patchline, if and only if that pair differs from the most recently recorded release of that patchline; otherwise nothing is stored or changed. A recorded release is never modified or removed afterwards, a new release is listed before all older ones, and patchlines sharing a storage never affect each other. The client manifest is the one of the configured file or URL (`clientconfig_data`) when there is one. If the check fails (request or write error) no release is recorded, or only a complete one.",
 ["histories", "fault_sequences"], "every sequence of advertised (client, game) manifest pairs, failing requests and update checks, on one or two patchlines",
 "No test touches the patcher; the statement is about whole sequences of update checks, repeats and failures.",
 ["cdtb/patcher.py"],
 [("PatcherStorage.fetch_latest_update", "cdtb/patcher.py"), ("PatcherStorage.latest_timestamp/iter_releases", "cdtb/patcher.py"), ("get_latest_client_manifest/get_latest_game_manifest", "cdtb/patcher.py")],
 state=[("release.json", "recorded manifest URLs per release", "cdtb/releases/{patchline}/{timestamp}/release.json"), ("latest.timestamp", "last recorded release", "cdtb/releases/{patchline}/latest.timestamp")],
 observe=["storage directory", "Storage.patch_elements(stored=False)"])

prop("C05", "A completed patcher download holds every selected file, intact",
 "After downloading an element succeeds, every selected non-link file of its manifest exists at the path reported for it and its content is exactly the concatenation, in order, of the file's decompressed chunks, whatever earlier operations, completed or not, left in the storage and whether or not files are shared through symlinks. Files that share all their chunks share storage, files that differ never do, and re-extracting or downloading one release never changes the files of another. The reported filesystem and relative paths correspond one to one, relative paths are lowercased, and every reported path of a downloaded element exists. Downloading and extracting a whole release does so for all of its elements. A manifest is only ever retrieved from its identifier or from a manifest location of the CDN; other locations are refused without request.",
 ["inputs", "histories"], "all manifests (shared chunks, several bundles, empty files, repeated chunks, directories) and all sequences of downloads over several releases, with either symlink setting",
 "No test covers the patcher; the property quantifies over manifest shapes and histories of downloads sharing one file store.",
 ["cdtb/patcher.py"],
 [("PatcherStorage.extract_file/load_chunk", "cdtb/patcher.py"), ("PatcherFile.hexdigest", "cdtb/patcher.py"), ("PatcherReleaseElement.extract/is_extracted_file", "cdtb/patcher.py")],
 state=[("cdtb/files/", "shared extracted files", "cdtb/patcher.py:PatcherStorage"), ("releases/.../files/", "files of a release (links or copies)", "cdtb/patcher.py")],
 observe=["storage directory after PatchElement.download()", "PatchElement.paths()/fspaths()/relpaths()"])

prop("C06", "Language selection picks exactly the requested files",
 "Selecting all languages yields every file; selecting none yields exactly the files without a locale flag; selecting one language, or a list of languages, yields exactly the files flagged with one of them, ignoring case. Download, of an element or a whole release, extraction and the reported paths of an element all honour the same selection, link entries are never downloaded, and the bundles fetched are exactly those needed by the selected files that are not yet extracted.",
 ["inputs", "configurations"], "all flag assignments to files and all language selectors (False, True, one language, list), any set of already extracted files",
 "No test covers language filters or bundle selection.",
 ["cdtb/patcher.py", "cdtb/storage.py"],
 [("PatcherFile.langs_predicate", "cdtb/patcher.py"), ("PatcherManifest.filter_files", "cdtb/patcher.py"), ("PatcherReleaseElement.bundle_ids", "cdtb/patcher.py")],
 observe=["bundle_ids()", "requests made", "extracted files", "paths()"])

prop("C07", "No failure or crash leaves a truncated file that is later trusted",
 "If a download, an extraction or a recorded version is cut short at any point (failed request, corrupt chunk, failed write, exception, interrupt or kill of the process), no file under its final name in the storage has incomplete or wrong content, and files that were complete before and are not being replaced are untouched. Running the same operation again without faults then succeeds and gives the same storage content as an undisturbed run.",
 ["crash_points", "fault_sequences"], "every file-system operation and request of the operation as the failing or last one, followed by a rerun",
 "Tests inject no fault; one has to enumerate every point at which the operation can stop, and then rerun it.",
 ["cdtb/tools.py", "cdtb/storage.py", "cdtb/patcher.py", "cdtb/rads.py"],
 [("write_file_or_remove / write_dir_or_remove", "cdtb/tools.py"), ("Storage.download", "cdtb/storage.py"), ("PatcherStorage.extract_file", "cdtb/patcher.py"), ("patch_version cache", "cdtb/patcher.py, cdtb/rads.py")],
 state=[("final file names", "presence of a file is taken as proof that it is complete", "Storage.download, extract_file, RadsProjectVersion.extract")],
 observe=["storage directory after the fault and after the rerun"])

prop("C08", "Parallel bundle download fetches each needed bundle exactly once",
 "Downloading an element's bundles requests each needed bundle that is not stored exactly once, requests no other bundle, and returns only after all of them are completely stored, for every interleaving of the parallel requests. If some requests fail, the failure is reported to the caller, no failed bundle is left in the storage, and bundles whose request succeeded are complete.",
 ["schedules", "fault_sequences"], "all completion orders of the parallel requests and all subsets of failing requests, with any subset of bundles already stored",
 "No test runs the parallel download; the claim ranges over thread schedules and failing subsets.",
 ["cdtb/patcher.py", "cdtb/storage.py"],
 [("ThreadPool map in download_bundles", "cdtb/patcher.py:PatcherReleaseElement.download_bundles"), ("Storage.download skip-if-present", "cdtb/storage.py")],
 observe=["request log", "channels/public/bundles/ at return"])

prop("C09", "Manifest decoding recovers the described files exactly",
 "Decoding a well-formed release manifest, whatever its table layout, gives exactly the described files: full path through all parent directories, size, link, flag names, and chunks with their bundle and their offset in it (the sum of the compressed sizes of the preceding chunks of the bundle). Input that does not start with the manifest magic or has an unsupported version is rejected with an error.",
 ["inputs"], "all manifests with any number of bundles, chunks, flags, nested directories and files, with optional fields present or absent and any placement of field tables",
 "There is no manifest in the test suite.",
 ["cdtb/patcher.py"],
 [("PatcherManifest.parse_rman/parse_body and table parsers", "cdtb/patcher.py"), ("PatcherBundle.add_chunk offsets", "cdtb/patcher.py")],
 observe=["PatcherManifest.files/bundles/chunks/flags"])

prop("C10", "RADS package extraction gives each file its own bytes",
 "Extracting a RADS project version gives every requested file that was not already present exactly its byte range of its package, decompressed when the entry is marked compressed, however the files are ordered in the manifest, spread over packages, and however the network stream is cut into blocks. Files already present are neither fetched nor changed, packages without needed files are not requested, and a stream that ends early or fails raises an error and leaves no partial file.",
 ["inputs", "schedules", "fault_sequences"], "all package layouts (gaps, empty files, adjacent ranges), all stream block boundaries, all subsets of files present, any truncation point",
 "The only related test parses a five-line manifest; no test streams package data.",
 ["cdtb/rads.py", "cdtb/storage.py"],
 [("RequestStreamReader.copy/skip_to", "cdtb/storage.py"), ("RadsProjectVersion.extract", "cdtb/rads.py"), ("BinPackageFile", "cdtb/rads.py")],
 observe=["storage directory", "request log"])

prop("C11", "RADS solutions resolve to the right projects and files",
 "The projects of a solution version for a language selection are exactly those listed in its solution manifest: only the required ones for no language, the ones of the language for a single language, the union without duplicates for several languages, and all required and language projects for all languages. The files of the element are exactly those of these projects, with storage path and lowercased export path in correspondence, and a malformed or mismatching solution manifest is rejected.",
 ["inputs", "configurations"], "all solution manifests (required/optional projects, languages sharing projects) and all language selectors",
 "Tests cover listings and comparison operators of RADS objects but no solution manifest.",
 ["cdtb/rads.py"],
 [("RadsSolutionVersion.dependencies/projects", "cdtb/rads.py"), ("RadsPatchElement paths", "cdtb/rads.py")],
 observe=["projects()", "fspaths()/relpaths()/paths()"])

prop("C12", "Patch version detection is right and its cache is transparent",
 "The patch version of an element is the one stated by its own version file (system.yaml branch for the client; for the game, content metadata with the patcher and version of the executable with RADS), reduced to its first two numbers, and is always `main` on the PBE. Asking again, in the same or another process, gives the same answer without fetching anything, and the remembered answers of different releases, patchlines and elements are never mixed up.",
 ["inputs", "histories"], "all version file contents in the documented formats, all sequences of queries over several releases and elements",
 "No test reads a version file or exercises the cache.",
 ["cdtb/storage.py", "cdtb/patcher.py", "cdtb/rads.py"],
 [("get_system_yaml_version/get_content_metadata_version/get_exe_version", "cdtb/storage.py"), ("PatcherReleaseElement.patch_version", "cdtb/patcher.py"), ("RadsSolutionVersion.patch_version", "cdtb/rads.py")],
 state=[("patch_version.{elem}", "cached version", "cdtb/patcher.py"), ("_patch_version", "cached version", "cdtb/rads.py")],
 observe=["PatchElement.version", "request log"])

prop("C13", "WAD decoding returns each entry's stored content",
 "For every supported WAD version the entry list has exactly the stored hashes, sizes, types and checksums, and reading an entry returns exactly its stored bytes, decompressed according to its type: raw, gzip, zstd, or a sequence of subchunks located by the subchunk table, each either compressed or stored. Redirections carry no content; an entry whose subchunks do not match the table is reported as unreadable without affecting any other entry, reading an entry of an unknown type is an error, and files that are not a supported WAD are rejected.",
 ["inputs"], "all archives over versions 1 to 3.4, entry types, subchunk layouts (first index, count, compressed or stored), presence of the table, and single corruptions of data or table",
 "There is no WAD file in the test suite.",
 ["cdtb/wad.py"],
 [("Wad.parse_headers/load_subchunk_toc/read_file_data", "cdtb/wad.py"), ("WadFileHeader.read_data", "cdtb/wad.py")],
 observe=["Wad.files", "Wad.read_file_data()", "extracted files"])

prop("C14", "WAD extraction writes each file under its own right name",
 "Extracting a WAD writes every readable entry, and nothing else, under the output directory: entries with a known hash under their known path, unknown ones under unknown/ named by their 16-digit hash plus the guessed extension; names without extension get the .cdtb marker and over-long names are shortened to a unique valid name that keeps the extension. Selecting by pattern or by known/unknown extracts exactly the matching entries, listing prints every entry once with its hash, and a lazy extraction leaves existing files untouched while writing the missing ones. An entry whose subchunks are not valid or whose name is unusable is skipped without preventing the others, and an entry that cannot be read or written never leaves a partial file.",
 ["inputs", "configurations", "fault_sequences"], "all archives and hash lists, every combination of options, any prior content of the output directory",
 "No test extracts or lists a WAD.",
 ["cdtb/wad.py", "cdtb/__main__.py"],
 [("Wad.resolve_paths/sanitize_paths/set_unknown_paths/guess_extensions/extract", "cdtb/wad.py"), ("command_wad_extract/command_wad_list", "cdtb/__main__.py")],
 observe=["output directory of wad-extract", "wad-list output"])

prop("C15", "A full export leaves exactly the patch's files in the output",
 "After exporting a patch without symlinks or previous patch, the output directory contains exactly the files the patch exports, each with the content (or converted content) of that patch, plus the generated cdragon directory, whatever earlier exports or stray files and links the directory contained before. Nothing outside the output directory is created, changed or removed, stray links are removed without touching what they point to, and directories emptied by this clean-up are removed.",
 ["inputs", "histories"], "all patches (plain files and archives, overlapping directories) and all prior contents of the output directory, including those left by exports of other patches",
 "Tests only check the path reduction helper; no test runs an export.",
 ["cdtb/export.py"],
 [("CdragonRawPatchExporter.process", "cdtb/export.py"), ("Exporter.export/clean_output_dir/walk_output_dir", "cdtb/export.py")],
 observe=["output directory tree"])

prop("C16", "Exporting with symlinks is equivalent to a full export",
 "When a patch is exported with symlinks to the previous patch's export, every file the patch exports resolves, through the links, to exactly the content a full export of that patch would give, no other file is visible in the output, and every changed or new file is a regular file. The previous patch's directory and any older one are never modified, links never point inside the patch's own output, and this holds along chains of successive patches and when a patch is exported again after its content changed.",
 ["histories", "inputs"], "all pairs and chains of patches differing by added, removed, modified and moved files in nested directories, repeated exports in any order that exports a previous patch first",
 "Tests call reduce_common_paths on two examples; equivalence is over all pairs of patches and prior output states.",
 ["cdtb/export.py"],
 [("process: changed paths, clean, export, link", "cdtb/export.py:CdragonRawPatchExporter"), ("Exporter.filter_exporter", "cdtb/export.py"), ("reduce_common_paths", "cdtb/export.py")],
 state=[("output tree", "regular files and symlinks of a patch's export", "cdtb/export.py"), ("previous output tree", "link targets", "cdtb/export.py")],
 observe=["resolved view of the output directory", "previous output directory"])

prop("C17", "Export index files describe the export exactly",
 "After an export, cdragon/files.exported.txt lists, sorted and without duplicates, exactly the paths of the files of the exported patch (converted names, linked or not), cdragon/files.unknown.txt lists exactly the hashes of the patch's archive entries whose path is unknown, as 16 hexadecimal digits in increasing order, and cdragon/files.links.txt lists exactly the symlinks present in the output when links were created. Guessing tools that reload the unknown list get back exactly these hashes.",
 ["inputs", "histories"], "all patches and previous patches, any hash list, exports repeated over older outputs",
 "No test runs an export or reads these files.",
 ["cdtb/export.py", "cdtb/hashes.py"],
 [("process: writing of cdragon/files.*.txt", "cdtb/export.py"), ("HashGuesser.unknown_from_export", "cdtb/hashes.py")],
 observe=["cdragon/files.*.txt", "output directory"])

prop("C18", "Exports are repeatable; lazy exports only fill gaps",
 "Exporting the same patch twice gives the same tree as exporting it once, whatever happened to be removed or overwritten in between, when overwriting is enabled. In lazy mode a file whose outputs are all present is left exactly as it is and all the outputs of every other one are written with the right content.",
 ["histories"], "all sequences of normal and lazy exports with arbitrary deletions and modifications of exported files in between",
 "No test runs an export, much less a sequence of them.",
 ["cdtb/export.py"],
 [("Exporter.export overwrite handling", "cdtb/export.py"), ("FileConverter.converted_paths_exist", "cdtb/export.py")],
 observe=["output directory tree after each export"])

prop("C19", "A file that cannot be converted never harms the export",
 "When a file cannot be read (subchunks without their table), cannot be converted (invalid image, texture, bin, mesh or string table data) or cannot be written because its name is too long, the export continues, all other files are exported correctly, and no partially converted or outdated output of that file remains. When an export stops on another error (such as a full disk or an interrupt), the file being written is removed and every file present is complete, so that exporting again gives the correct result.",
 ["inputs", "fault_sequences", "crash_points"], "all mixtures of valid and invalid files of every converted type; every write of the export as the failing one",
 "No test converts a file or injects an error.",
 ["cdtb/export.py", "cdtb/tools.py"],
 [("FileConverter implementations and FileConversionError", "cdtb/export.py"), ("write_file_or_remove/write_dir_or_remove", "cdtb/tools.py")],
 observe=["output directory tree", "log warnings"])

prop("C20", "Common path reduction is exact and maximal",
 "For all path lists where the first is contained in the second, the reduced list covers every path of the first list exactly once (itself or through one of its directories), never covers a path of the second list that is not in the first, never returns a directory containing an excluded path, and never returns two entries where their common directory could have been returned instead; the root itself is never returned.",
 ["inputs"], "all pairs of path sets (first within second) and exclude sets over trees of bounded size",
 "Two examples are tested; exactness and maximality are statements over all trees.",
 ["cdtb/export.py"],
 [("paths_to_tree/reduce_common_trees/reduce_common_paths", "cdtb/export.py")],
 observe=["reduce_common_paths()"])

prop("C21", "Export selects and places files by the documented rules",
 "Executables and libraries are never exported, plain description.json files are not exported, entries of game archives are exported under game/ (under game/<lang>/ for language archives from patch 14.4 on, and on main) and only when they are images, meshes, text, string tables, JSON, fonts or bin files other than split skin bins. Unknown client entries go to their plugin's unknown directory and other unknown ones to unknown/, file redirections are ignored, image files are exported as PNG and bin, string table and skin data get their JSON or mesh companions.",
 ["inputs", "configurations"], "all archive names, entry names, extensions and patch versions around the 14.4 boundary",
 "No test exercises the selection rules.",
 ["cdtb/export.py"],
 [("_transform_exported_files", "cdtb/export.py"), ("Exporter.add_path/filter_export_paths/converted_exported_paths", "cdtb/export.py")],
 observe=["files.exported.txt", "output directory"])

prop("C22", "Patch export commands choose the right patches and predecessors",
 "Exporting one patch compares it with the requested previous patch, with none when a full export is asked for, and otherwise with the next older stored patch, and writes to a directory named after the patch. Updating a directory of exports handles exactly the stored patches that already have a directory there and are not older than the given first one, from the oldest to the newest, each compared with the next older of them (directories of unknown versions are ignored or refused); unknown versions and contradictory or missing arguments are refused.",
 ["inputs", "histories"], "all stored patch histories, sets of version directories (with unrelated entries) and argument combinations",
 "Tests cover three argument lists with one fixed history and never the multi-patch update.",
 ["cdtb/__main__.py", "cdtb/export.py"],
 [("command_export", "cdtb/__main__.py"), ("CdragonRawPatchExporter.from_directory", "cdtb/export.py")],
 observe=["exporters created and processed, in order"])

prop("C23", "Hash guessing only adds true matches and loses nothing",
 "In any sequence of guessing operations, a path is added to the known hashes exactly when it is tried and its hash is one of the unknown ones; the recorded path always hashes to its key. Known and unknown hashes stay disjoint, an unknown hash disappears only by becoming known, already known entries are never changed or dropped, and a guesser starts with exactly the hashes of its archives that are not known.",
 ["histories", "inputs"], "all sequences of checks over any known and unknown sets, including repeated and colliding candidates",
 "The hashes module is not tested at all.",
 ["cdtb/hashes.py"],
 [("HashGuesser.check/check_iter/is_known/_add_known", "cdtb/hashes.py"), ("HashGuesser.from_wads", "cdtb/hashes.py")],
 state=[("known", "hash to path map", "cdtb/hashes.py:HashGuesser"), ("unknown", "set of unresolved hashes", "cdtb/hashes.py:HashGuesser")],
 observe=["guesser.known/unknown", "hash file after save"])

prop("C24", "Hash lists survive saving, loading and updating unchanged",
 "Saving a hash list and loading it again gives exactly the same hash-to-path mapping, with zero-padded lower-case hashes and lines sorted by path. Loading is cached until forced, and fetching hash lists replaces a local list exactly when the server's copy is newer or the local one is missing, leaving an up-to-date list untouched; a save or a fetch which fails or is killed never leaves a truncated list, and a failed request leaves the list as it was. Archives use the list of their kind by default, and default lists are in the configured directory (`CDTB_HASHES_DIR`, `CDRAGON_DATA`), or else in the user's data directory.",
 ["inputs", "histories", "fault_sequences"], "all mappings (paths with spaces, any hash width), all interleavings of load, modify, save, forced load, and of server and local timestamps",
 "The hashes module is not tested at all.",
 ["cdtb/hashes.py", "cdtb/__main__.py"],
 [("HashFile.load/save", "cdtb/hashes.py"), ("update_default_hashfile", "cdtb/hashes.py")],
 observe=["HashFile.load()", "file content", "request log"])

prop("C25", "Each guessing method finds every path it promises to find",
 "Each guessing method tries at least all the variants it is documented to try: every number in range in place of a number of a known basename, every known basename in every known directory, every known extension, word, plugin, language, region, character, suffix, prefix or skin in place of the one present in a known path, every group of skins and their chromas, and every path mentioned in scanned archive content in the documented forms. If such a variant is an unknown hash's path, it is known after the method has run. In a terminal, an interrupt shows the progress of a method and loses nothing; a second one stops it, and keeps what has been found.",
 ["inputs"], "all sets of known paths and target variants per method",
 "No guessing method is tested.",
 ["cdtb/hashes.py"],
 [("HashGuesser.substitute_* / check_basenames / directory_list", "cdtb/hashes.py"), ("LcuHashGuesser/GameHashGuesser methods, grep_wad, grep_file", "cdtb/hashes.py")],
 observe=["guesser.known after a method"])

prop("C26", "BIN decoding reproduces the stored data in every format version",
 "Decoding a BIN file gives exactly its linked files, entries, patch entries and nested values of every type (numbers, vectors, strings, hashes, paths, links, lists, options, maps, structures) for every format version, with type codes interpreted according to the patch version given. Its JSON and text forms contain the same data, with names in place of known hashes and {hex} for unknown ones and with each structure's type; field access by name or hash finds exactly the field with that hash, and a hashed value is equal to its hash and to its name (the known one; any text with that hash when it is not known). Files without the magic code, cut anywhere, or with an entry whose length does not match its content are rejected.",
 ["inputs"], "all value trees over all types, format versions and type numbering eras, and corrupted files",
 "There is no BIN file in the test suite.",
 ["cdtb/binfile.py"],
 [("BinReader", "cdtb/binfile.py"), ("BinFile.to_serializable", "cdtb/binfile.py"), ("parse_bintype", "cdtb/binfile.py"), ("BinObjectWithFields lookups", "cdtb/binfile.py")],
 observe=["BinFile object", "bin-dump --json output"])

prop("C27", "String table decoding returns every entry's text under its hash",
 "Decoding a string table of any supported version gives exactly its entries, with the key hash width of that version and game version, its font configuration, and the text (or base64 of the encrypted data) stored for each entry; undecodable bytes never make it fail. Looking up by name or by number finds exactly the entry whose truncated hash matches, the exported JSON names entries whose key is known and uses the {hex} form for others, and unsupported files are rejected.",
 ["inputs"], "all tables over versions 2 to 5 and game versions around the boundaries, with shared, overlapping and encrypted strings",
 "There is no string table in the test suite.",
 ["cdtb/rstfile.py", "cdtb/export.py"],
 [("RstFile.parse_rst/__getitem__", "cdtb/rstfile.py"), ("RstConverter.convert", "cdtb/export.py")],
 observe=["RstFile.entries and lookups", "converted JSON"])

prop("C28", "Mesh, atlas and skin info conversions keep the data",
 "Converting a skin mesh gives one OBJ file per submesh holding exactly its vertices in order and its triangles with indices relative to that submesh and starting at 1, for every mesh format version. Converting atlas information (string based or hash based) and champion skin information gives exactly the stored records, with the paths of atlases rewritten to their exported names. Files which are cut or of another format are rejected.",
 ["inputs"], "all meshes over versions 0, 1, 2 and 4 and submesh partitions; all atlas and skin info tables",
 "There is no such file in the test suite.",
 ["cdtb/sknfile.py", "cdtb/export.py", "cdtb/tools.py"],
 [("SknFile", "cdtb/sknfile.py"), ("AtlasInfoConverter.parse_atlasinfo", "cdtb/export.py"), ("ChampionSkinInfoConverter", "cdtb/export.py")],
 observe=["skn-extract output", "converted JSON"])

prop("C29", "TFT and Arena data are complete, resolved and translated",
 "The generated TFT and Arena data contain one file per requested language (by default all available ones), holding exactly the enabled items, augments, traits, champions and sets of the game data with their references resolved to the referenced objects' names, and with every translatable text replaced by that language's string when there is one and kept otherwise. Generating one language never affects another one's output.",
 ["inputs", "configurations"], "all game data graphs of items, traits, sets, champions and augments with present or missing references, any set of languages and string tables",
 "Neither transformer is tested.",
 ["cdtb/tftdata.py", "cdtb/arenadata.py", "cdtb/tools.py"],
 [("TftTransformer", "cdtb/tftdata.py"), ("ArenaTransformer", "cdtb/arenadata.py"), ("stringtable_paths", "cdtb/tools.py")],
 observe=["generated JSON files"])

prop("C30", "A storage location resolves to the configured storage",
 "A storage path given as a configuration file, a directory with a configuration file, a directory with the patcher layout (or a new one, for a patcher storage), or a type:path string gives a storage of the configured type at the configured location (relative to the configuration file), with every configured option of its type in effect, and anything else is refused with an error. The patchline option applies to patcher storages only, and its absence leaves the configured patchline in effect.",
 ["inputs", "configurations"], "all combinations of location kinds, configuration contents and command-line options",
 "Tests construct storages directly and never resolve a location.",
 ["cdtb/storage.py", "cdtb/patcher.py", "cdtb/rads.py", "cdtb/__main__.py"],
 [("storage_conf_from_path/load_storage_conf/guess_storage_conf", "cdtb/storage.py"), ("from_conf_data", "cdtb/patcher.py, cdtb/rads.py"), ("parse_storage_args", "cdtb/__main__.py")],
 observe=["Storage.from_path() result attributes", "CLI storage selection"])

prop("C31", "Textures and images are exported as the picture they hold",
 "Exporting a texture of any supported format (TEX with DXT1, DXT5, BC5, BC7 or BGRA8 blocks, with or without smaller levels; DDS; TGA) gives a PNG picture with the dimensions and the pixels of its largest level, whatever its dimensions. Textures which are too short for their largest level, without the expected magic or with an unknown format give no picture and do not prevent other files from being exported.",
 ["inputs"], "all textures over formats, dimensions (also not multiples of a block), level counts and block contents, cut at any point",
 "There is no texture in the test suite.",
 ["cdtb/export.py"],
 [("TexConverter", "cdtb/export.py"), ("ImageConverter", "cdtb/export.py")],
 observe=["exported PNG files, decoded"])

prop("C32", "RADS components designate what they name and get exactly its files",
 "In a RADS storage, the versions of a project or solution are exactly those of the server's listing (solutions newest first) or, for stored ones, those present in the storage, and the projects and solutions listed are those with files stored. A component string (a name with an optional s: or p: prefix, alone, with a version, or with an empty one for the newest) designates exactly that project, solution or version, other strings are refused, and designated objects are equal exactly when their kind, name and version are. Downloading one of them stores exactly the files of its versions for the selected languages with their content, requests nothing already stored, and fails without damage when something is missing.",
 ["histories", "inputs"], "all servers of projects and solutions, any sequence of queries and downloads with missing resources, any component string",
 "Tests cover neither RADS downloads nor component strings.",
 ["cdtb/rads.py"],
 [("RadsStorage.list_projects/list_solutions", "cdtb/rads.py"), ("RadsSolution/RadsProject and their versions", "cdtb/rads.py"), ("parse_rads_component", "cdtb/rads.py")],
 observe=["objects returned", "files in the storage", "requests made"])

prop("C33", "Commands refuse what they cannot do, and write only where told",
 "A command given something missing or of the wrong kind (input file, hash list, component or patch, version, guessing method, output which is or lies under a file), without its required arguments, or unknown, fails and leaves files, hash lists and the storage as they were, printing nothing on its standard output; several components are downloaded only if all of them exist. Otherwise it succeeds with exactly its documented effect: extractions and exports write at the given output (the default one is the input without its last extension, or `CDTB_EXPORT` or `export`) and nowhere else, never change their inputs, use the given hash list or the default one for the kind of archive, dry runs, listings and dumps change nothing, and a command sees what earlier ones have left (known hashes, downloaded components, existing files).",
 ["inputs", "histories", "configurations"], "all sequences of commands with any arguments over any working directory",
 "The tests of the command line parse a few argument lists; none looks at the effects of a command, let alone of several ones.",
 ["cdtb/__main__.py"],
 [("command_* functions", "cdtb/__main__.py"), ("parse_component_args/parse_storage_args", "cdtb/__main__.py"), ("default_hashfile", "cdtb/hashes.py")],
 state=[("working directory", "files given to commands and written by them", ""), ("storage", "downloaded components", ""), ("hash lists", "known hashes", "cdtb/hashes.py:HashFile")],
 observe=["exit status", "standard output", "files after each command"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
