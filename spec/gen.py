"""Source of properties.jsonl and MANIFEST.json: python3 /verif/spec/gen.py"""
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, level, technique, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]},
                  _level=level, _technique=technique, _note=note, _na=na))


ENUM = 'exhaustive bounded enumeration on the real code against a reference model'
BFS = 'explicit-state breadth-first search whose transitions are the real operations, against a reference model'
FAULT = 'exhaustive fault/kill-point enumeration on the real code (every request and every file-system effect)'

prop('C01', 'A failed transfer leaves no truncated file, and a retry completes it',
     'When a download, extraction or hash refresh is hit by a refused request, an HTTP error, a connection lost in mid-body, a write error or Ctrl-C at any of its steps, the failure reaches the caller and every file present under its final name is complete: the new content or the content it had before. '
     'Repeating the same operation without faults then succeeds and ends with the same files and contents as a run which was never interrupted.',
     ['fault_sequences'], 'every single fault, and every pair (fault, then a fault during the retry), at every request, body position class and file-system effect of: patcher download (shared store and plain), RADS download, version discovery, release tracking, hash refresh',
     'The tests only run the fault-free path; a fault matters at one specific write or request out of dozens.',
     ['cdtb/tools.py', 'cdtb/storage.py', 'cdtb/patcher.py', 'cdtb/rads.py', 'cdtb/hashes.py'],
     [('write then remove on error', 'tools.write_file_or_remove'), ('download', 'storage.Storage.download'), ('extraction', 'patcher.PatcherStorage.extract_file, rads.RadsProjectVersion.extract'), ('retry skips what is complete', 'patcher.PatcherReleaseElement.is_extracted_file')],
     'fault_enumeration', FAULT, 'All single faults and, in the thorough tier, all pairs of faults over two successive runs, in small releases. Real code above requests\' transport adapter and above os-level file operations; torn writes are modelled as half of a buffer.')

prop('C02', 'A run killed at any instant is repaired by the next run',
     'If a download process is killed at any instant (nothing after that instant executes, buffered data is lost), running the same command again succeeds and ends with exactly the files and contents of a run which was never killed. '
     'No later run ever trusts a truncated bundle, manifest, extracted file, release description or cached version left by the killed one.',
     ['crash_points'], 'every kill point (before, in the middle of and after each file-system effect) of patcher downloads with and without the shared store, RADS downloads, version discovery, release tracking and hash refreshes, and kill points of the repair run itself',
     'Tests never kill the process; each effect of a run is a different crash state.',
     ['cdtb/tools.py', 'cdtb/storage.py', 'cdtb/patcher.py', 'cdtb/rads.py', 'cdtb/hashes.py'],
     [('complete-or-absent files', 'tools.write_file_or_remove'), ('skip what exists', 'storage.Storage.download, patcher.PatcherStorage.extract_file'), ('version cache', 'patcher.PatcherReleaseElement.patch_version, rads.RadsSolutionVersion.patch_version')],
     'fault_enumeration', FAULT, 'Processes are really ended (os._exit in a fork) at every numbered effect; two kills in sequence in the thorough tier. Kernel-level reordering of unsynced data (power loss) is outside of the model.')

prop('C03', 'Downloading a release yields exactly the files of its manifest',
     'Downloading an element of a release, for all languages, none, one language or a list of them, creates every selected regular file with exactly the bytes of its chunks in order, and no other file; files which are links are not created. '
     'Only bundles holding chunks of selected files which are not yet extracted are requested, each at most once, and the paths listed for the element are those of the selected files, in pairs (path on disk, lowercased relative path).',
     ['inputs', 'configurations'], 'all manifests up to 3 files x 3 chunks x 2 bundles over the sharing/empty/link/flag/directory alphabet, every language selection, shared store on and off',
     'The tests never download from a patcher release.',
     ['cdtb/patcher.py', 'cdtb/storage.py'],
     [('language filter', 'patcher.PatcherFile.langs_predicate'), ('chunk extraction', 'patcher.PatcherStorage.load_chunk, extract_file'), ('bundle selection', 'patcher.PatcherReleaseElement.bundle_ids')],
     'exploration', ENUM, 'Every manifest in the stated bound is encoded by an independent encoder, served by a fake CDN, downloaded by the real code and compared file by file.')

prop('C04', 'Storage converges over any history of downloads of several releases',
     'After any sequence of downloads of releases sharing chunks and files, with any language selections, every file of a downloaded selection reads as its release says, whatever was downloaded before or since and even once the storage directory is moved; files stored once are never altered in place. '
     'Repeating a download whose files are all present makes no bundle request and changes nothing; with overwriting requested the extracted files are restored even if they were damaged in their release directory.',
     ['histories'], 'all sequences up to depth 3 (quick) / 4 (thorough) of {download release 1..3 with language selection, re-extract with overwriting, remove or truncate an extracted path} in both storage layouts',
     'A test runs one fixed sequence; damage comes from the interplay of releases through the shared content store.',
     ['cdtb/patcher.py', 'cdtb/storage.py'],
     [('content store and links', 'patcher.PatcherStorage.extract_file'), ('content identity', 'patcher.PatcherFile.hexdigest'), ('skip rule', 'patcher.PatcherReleaseElement.is_extracted_file')],
     'model_checking', BFS, 'States are the full directory snapshots; every transition executes the real download code and is compared with a dictionary model.')

prop('C05', 'Parallel bundle downloads give the sequential result under every schedule',
     'Bundles are downloaded in parallel: whatever the order in which requests and file creations of the workers interleave, the resulting files are the same complete files as with one worker and each bundle is requested exactly once. '
     'A failure of one request is reported to the caller, and the bundles already complete stay usable by the next run.',
     ['schedules', 'fault_sequences'], 'all interleavings of 2 workers (and 3 up to a deviation bound) at request, response and file-system points, with and without one failing request',
     'Tests run no parallel download; one run shows one interleaving.',
     ['cdtb/patcher.py', 'cdtb/storage.py', 'cdtb/tools.py'],
     [('thread pool', 'patcher.PatcherReleaseElement.download_bundles'), ('directory creation races', 'tools.write_file_or_remove')],
     'model_checking', 'stateless exploration of real worker threads under a controlled scheduler (deviation-bounded)', 'The real ThreadPool workers are blocked at every request and file-system effect and released one at a time; interleavings inside one effect are not explored (the interpreter holds its lock).')

prop('C06', 'Release tracking records each published pair once and never loses one',
     'Polling the CDN creates a new release exactly when the published (client, game) manifest pair differs from the latest recorded one; otherwise it writes nothing. '
     'Recorded releases keep their pair forever, the latest one is always the last pair seen, listing is from latest to oldest, and patchlines sharing a directory never mix.',
     ['histories'], 'all sequences up to depth 5 (quick) / 7 (thorough) of {publish a new client, publish a new game, roll back, poll on a patchline, failed poll} with a strictly increasing clock',
     'Tests do not reach release tracking; losses depend on the order of publications and polls.',
     ['cdtb/patcher.py'],
     [('poll', 'patcher.PatcherStorage.fetch_latest_update'), ('listing', 'patcher.PatcherStorage.iter_releases')],
     'model_checking', BFS, 'The clock and the HTTP answers are owned by the explorer; releases fetched within the same second are excluded.')

prop('C07', 'Patches are listed from the latest, complete and without duplicates',
     'Listing patches yields each patch version exactly once, from the latest to the oldest, holding for each element (game, client) the most recent release of it with that version; elements whose version is unknown are left out on RADS storages. '
     'Looking up a patch or element by version, or the latest one, returns the first match of that list, or nothing if there is none.',
     ['histories', 'inputs'], 'all histories of up to 4 releases over monotone (client version, game version) pairs including one element being ahead of the other, for patcher and RADS storages, all lookups',
     'Tests use one hand-written ordering of elements.',
     ['cdtb/storage.py', 'cdtb/patcher.py', 'cdtb/rads.py'],
     [('grouping', 'storage.Storage.patches'), ('patcher order', 'patcher.PatcherStorage.patch_elements'), ('RADS merge', 'rads.RadsStorage.patch_elements')],
     'exploration', ENUM, 'Release versions come from real manifests/solution files served by the fake CDN; version numbers never decrease for an element, as documented.')

prop('C08', 'RADS packages extract exactly, whatever the network fragmentation',
     'Extracting files from RADS packages yields exactly the bytes at the stated offset and size of the package, decompressed if stored compressed, for any layout of the package (gaps, empty files, any listing order, several packages) and any splitting of the HTTP body into pieces. '
     'Files already present are neither requested nor modified, and a package holding none of the wanted files is not requested.',
     ['inputs', 'schedules'], 'all layouts up to 3 files per package from a size/gap/compression alphabet, all listing orders, every fragmentation of bodies up to a bound and all subsets of present files',
     'The test streams one body; slicing bugs appear for pieces ending exactly at file boundaries.',
     ['cdtb/rads.py', 'cdtb/storage.py'],
     [('stream slicing', 'storage.RequestStreamReader'), ('package extraction', 'rads.RadsProjectVersion.extract')],
     'exploration', ENUM, 'Every composition of the body length (all cut positions up to the bound) is delivered to the real reader.')

prop('C09', 'RADS solutions resolve to the right projects for each language selection',
     'For a solution manifest, the language-independent projects, those of one language, of a list of languages and of all languages are exactly the ones its manifest states, whatever the number and order of projects and languages; file listings follow. '
     'A manifest with a wrong header, name or version is refused.',
     ['inputs', 'configurations'], 'all solution manifests up to 3 projects x 3 languages over required/optional and dependency alphabets, every selection, languages given as enumeration members or as codes',
     'Tests check one manifest.',
     ['cdtb/rads.py'],
     [('dependency parsing', 'rads.RadsSolutionVersion.dependencies'), ('selection', 'rads.RadsSolutionVersion.projects')],
     'exploration', ENUM, 'Reference selection computed from the abstract manifest, not from its text.')

prop('C10', 'Manifests are decoded faithfully',
     'Decoding a release manifest gives exactly its bundles, chunks (with offsets cumulated in order within their bundle), flags and files: full directory path, size, link target, language flags and chunk sequence, for any optional fields present or absent and any physical layout of the tables. '
     'Other magic codes and versions are refused; a path and an open file give the same result.',
     ['inputs'], 'all manifests in a bounded grammar: bundles x chunks, directory trees up to depth 3 (including absent roots), each optional field present or absent, masks over 64 bits, header and table paddings, both versions',
     'The tests never decode a manifest.',
     ['cdtb/patcher.py'],
     [('manifest', 'patcher.PatcherManifest'), ('field tables', 'patcher.PatcherManifest._parse_field_table')],
     'exploration', ENUM, 'Independent encoder of the format; offsets are 32-bit as in real manifests.')

prop('C11', 'Every WAD entry decodes to its original bytes, or is reported as undecodable',
     'For every WAD version supported and every storage kind (raw, gzip, zstd, redirection, subchunked with any mix of compressed and plain subchunks at any index of the table of contents), reading an entry returns exactly the original bytes; redirections return no data. '
     'A subchunked entry whose stored data does not match the table of contents is reported as malformed, never returned altered; unsupported versions, magic codes and storage kinds are refused.',
     ['inputs'], 'all (version, kind, size class, subchunk split, first index including those above 16 bits) combinations, archives up to 3 entries in any physical order, each corruption of each subchunk or table record',
     'The tests never open a WAD.',
     ['cdtb/wad.py'],
     [('headers', 'wad.Wad.parse_headers'), ('data', 'wad.WadFileHeader.read_data')],
     'exploration', ENUM, 'Archives come from an independent encoder; contents are taken from a size-class alphabet.')

prop('C12', 'WAD extraction writes each file once, at its path, with its bytes',
     'Extracting a WAD writes, for each entry which is not a redirection and can be decoded, one file with the original bytes: at its known path, or under "unknown" by 16-digit hash with a guessed extension; paths without extension get the ".cdtb" suffix, and names of 250 characters or more are shortened but keep hash and extension. '
     'Extraction without overwriting leaves existing files untouched and adds the missing ones; pattern and unknown-file filters of the command line select exactly the matching entries.',
     ['inputs', 'configurations'], 'all archives up to 3 entries over the (known/unknown, extension, basename length around 250, kind, magic number) alphabet, overwrite or not, all subsets of files already present, all filters',
     'The tests never extract a WAD.',
     ['cdtb/wad.py', 'cdtb/__main__.py'],
     [('extraction', 'wad.Wad.extract'), ('names', 'wad.Wad.sanitize_paths, set_unknown_paths, guess_extensions'), ('command', '__main__.command_wad_extract, command_wad_list')],
     'exploration', ENUM, 'Expected names come from a reference naming function; every magic number of the guessing table is a letter of the alphabet.')

prop('C13', 'Hash lists round-trip and guessing only ever adds true, missing hashes',
     'Saving then loading a hash list gives the same mapping, sorted by text, for any texts without line breaks, at both hash widths. '
     'Whatever guessing steps are run in whatever order, every known hash stays with its text, every added text hashes to an asked-for unknown value, found values leave the unknown set, and one missed candidate never hides another.',
     ['inputs', 'histories'], 'all lists up to 3 entries over a text alphabet (spaces, unicode, leading spaces, empty); all sequences up to depth 3 of guessing steps on small universes',
     'Tests never load, save or guess.',
     ['cdtb/hashes.py'],
     [('lists', 'hashes.HashFile'), ('guessers', 'hashes.HashGuesser')],
     'model_checking', BFS, 'States are (known, unknown) pairs; transitions are the public guessing methods.')

prop('C14', 'Guessing finds every hash within the neighbourhood it promises',
     'Each guessing strategy (numbers, extensions, basenames, words, added words, plugins, regions and languages, characters, skin numbers, suffixes, prefixes, content search) finds every unknown path which is one documented substitution away from a known path or textually present in a scanned file. '
     'This holds for every position of the substitution in the path and for files of any storage kind, and unreadable entries do not prevent scanning the others.',
     ['inputs'], 'for each strategy, every known path of a path grammar and every target of its documented neighbourhood; for content search each context (file type, prefix, length field) in each storage kind',
     'Tests never guess; a lost candidate is silent.',
     ['cdtb/hashes.py'],
     [('substitutions', 'hashes.HashGuesser._substitute_*'), ('content search', 'hashes.LcuHashGuesser.grep_wad, GameHashGuesser.grep_wad')],
     'exploration', ENUM, 'Neighbourhoods are computed by reference functions written from the documentation of each strategy.')

prop('C15', 'Hash refresh keeps the local lists in step with the published ones',
     'After a refresh, the local list equals the published one if it was absent or older than it, and is untouched (nothing transferred but headers) if it is at least as recent; a failed refresh changes nothing. '
     'The directory used is the first configured among the two environment variables, the user data directory and the home directory.',
     ['histories', 'configurations'], 'all histories up to depth 4 of {publish, refresh, failing refresh, local removal, local touch} and all combinations of environment variables set, empty, relative or absent',
     'Tests never refresh; the decision depends on relative times of two histories.',
     ['cdtb/hashes.py', 'cdtb/__main__.py'],
     [('refresh', 'hashes.update_default_hashfile'), ('directory', 'hashes._default_hash_dir')],
     'model_checking', BFS, 'File times are set by the explorer; the published time is an HTTP header with a resolution of one second.')

prop('C16', 'BIN files decode to the values they encode, for every type and patch era',
     'Decoding a BIN file (plain or patch variant, any header version) gives exactly its linked files, entries, types and values for every value type, arbitrarily nested, with the type numbering of the stated game patch; the JSON form holds the same values, with hashes shown by name when known and as braced hexadecimal otherwise. '
     'Field lookup by name or hash finds the first field with that hash, and only it; assignment replaces or appends.',
     ['inputs', 'configurations'], 'all types x nesting to depth 2 (3 thorough) x patch eras around each renumbering, all containers with 0..2 elements, all header versions, all lookups over known and unknown names',
     'Tests never decode a BIN file.',
     ['cdtb/binfile.py'],
     [('reader', 'binfile.BinReader'), ('lookups', 'binfile.BinObjectWithFields'), ('serialization', 'binfile.*.to_serializable')],
     'exploration', ENUM, 'Independent encoder and independent JSON expectation.')

prop('C17', 'String tables decode to their texts and answer lookups by key',
     'Decoding a string table of any supported version, for any game patch, maps each hash to exactly its text (shared texts, empty texts, encrypted texts as base64, undecodable bytes replaced), and a lookup by key finds the text whose truncated hash matches, with the hash function of that patch. '
     'The JSON form lists every entry once, by key when known and by braced hash otherwise.',
     ['inputs', 'configurations'], 'all tables up to 3 entries over the text alphabet x versions 2..5 x patches around each format change x sharing x encryption flag',
     'Tests never decode a string table.',
     ['cdtb/rstfile.py', 'cdtb/export.py'],
     [('parsing', 'rstfile.RstFile.parse_rst'), ('hashing', 'rstfile.key_to_hash'), ('JSON', 'export.RstConverter')],
     'exploration', ENUM, 'Independent encoder; one table per case, served from memory and from disk.')

prop('C18', 'Skin models convert to OBJ files with the right geometry',
     'Decoding a model of any supported version gives, for each of its parts, exactly its vertices (position, texture coordinates, normal, weights, and color and tangent when present), and faces which refer to these vertices with 1-based indices. '
     'The OBJ text holds one vertex group per vertex in order and one well-formed face per triangle, in one file per part.',
     ['inputs'], 'all models up to 2 parts x 4 vertices x 2 triangles, versions 0..4, vertex types 0..2, parts starting at any vertex or index',
     'Tests never decode a model.',
     ['cdtb/sknfile.py', 'cdtb/export.py'],
     [('decoding', 'sknfile.SknFile'), ('OBJ', 'sknfile.SknFile.to_obj'), ('export', 'export.SknConverter')],
     'exploration', ENUM, 'The OBJ text is parsed back by a strict reader and compared with the abstract model.')

prop('C19', 'Textures convert to PNG with the right size and pixels',
     'Converting a texture gives a PNG with its dimensions whose pixels are those of its largest image, for every supported pixel format, with or without smaller copies stored along, whatever the dimensions (multiple of the block size or not). '
     'Textures of unsupported formats or with a wrong header are reported as not convertible, and nothing is left in the output.',
     ['inputs'], 'all (format, mipmaps, width, height) with sizes 1..9 (quick) / 1..33 (thorough) and every format code 0..255',
     'Tests never convert a texture.',
     ['cdtb/export.py'],
     [('conversion', 'export.TexConverter')],
     'exploration', ENUM, 'Pixels are checked exactly for uncompressed, and with solid-color blocks per position for block-compressed formats, using reference block encoders.')

prop('C20', 'A malformed asset never aborts an export nor leaves partial output',
     'Whatever the content of an exported asset (truncated anywhere, or with bytes changed), the export goes on: other files are exported exactly as if the asset were absent, and for the asset itself each output file is either complete (its raw copy, or a whole conversion) or absent. '
     'The failure is not turned into the failure of the whole export. Assets whose path has a component longer than what file systems allow are left out in the same way.',
     ['inputs', 'fault_sequences'], 'every truncation and every single-byte change (from a value alphabet) of one small valid file per converted format, both as plain file and as WAD entry',
     'Tests use no malformed file.',
     ['cdtb/export.py', 'cdtb/tools.py'],
     [('containment', 'export.Exporter._export_wad, _export_plain_file'), ('conversions', 'export.*Converter.convert')],
     'fault_enumeration', 'exhaustive corruption enumeration on the real exporter', 'All truncations and byte changes within the alphabet of small files; time per case is bounded.')

prop('C21', 'Path reduction links exactly the unchanged files',
     'Reducing the list of unchanged paths against the previous ones yields paths whose expansion covers every given path, and nothing else: no path of an excluded tree, no path which is only in the previous list, no path twice. '
     'A directory is used only when it is the same in both lists and holds no excluded path, and whenever it is so.',
     ['inputs'], 'all triples (given, previous, excluded) over all path trees up to 5 leaves (quick) / 6 (thorough) and depth 3',
     'Three examples are tested; the recursion depends on the tree shape.',
     ['cdtb/export.py'],
     [('reduction', 'export.reduce_common_paths')],
     'exploration', ENUM, 'Maximality and exactness are recomputed from set definitions.')

prop('C22', 'An export depends only on the patch, not on what was in the directory',
     'Exporting a patch into a directory holding files of a former export (older version, interrupted run, extra, missing or changed files, links) ends with exactly the same content as exporting into an empty one. '
     'Without overwriting, existing outputs of exported files are kept as they are, everything missing is created and everything extra is removed.',
     ['histories', 'configurations'], 'all subsets of pre-existing {right, wrong, extra, link, file where a directory goes} items x {overwrite, lazy} x {with/without previous patch, links or not}, and all sequences of two exports',
     'The tests export once in an empty directory.',
     ['cdtb/export.py'],
     [('clean-up', 'export.Exporter.clean_output_dir'), ('export', 'export.CdragonRawPatchExporter.process')],
     'model_checking', BFS, 'Outputs are compared as full directory snapshots; empty directories are not compared.')

prop('C23', 'An export linked to the previous patch reads the same as a full export',
     'Exporting a patch with links to the previous one gives, when read through the links, exactly the files and contents of a full export of that patch, and the previous export is left untouched. '
     'Links are relative, resolve to files reached through the previous export, and a file which differs between the patches is never linked; a file whose sources are the same in both is linked, not written again.',
     ['inputs', 'histories'], 'all pairs of patches over an alphabet of plain files and WADs (entries unchanged, changed, added, removed, moved between WADs, duplicated, with conversions), chains of three patches in the thorough tier',
     'Two small examples are tested.',
     ['cdtb/export.py'],
     [('comparison', 'export.Exporter.filter_exporter'), ('links', 'export.CdragonRawPatchExporter._create_symlinks')],
     'exploration', 'exhaustive bounded enumeration, differential (linked export against full export on the real code)', 'Entries with the same path in two WADs of one patch have the same content; all WAD versions with checksums, and version 1 without.')

prop('C24', 'The file lists of an export are accurate',
     'The list of exported files is sorted and names exactly the files of the export with their converted names; the list of unknown hashes has exactly the entries of the WADs whose path is not known, and the list of links has exactly the links of the export and is absent if there are none. '
     'Each list reflects the last export made in that directory.',
     ['inputs', 'histories'], 'the patches and histories of the export checks',
     'Tests do not read these lists.',
     ['cdtb/export.py'],
     [('lists', 'export.CdragonRawPatchExporter.process')],
     'exploration', ENUM, 'Lists are compared with the output tree and with the abstract patch; entries that cannot be converted are excluded.')

prop('C25', 'Updating several exported patches handles exactly the requested ones, in order',
     'Updating an export directory handles exactly the patches having a directory there, not older than the requested first one, from the oldest to the latest, each compared with the one before it among them; other directories are ignored and nothing is done without any. '
     'The command line exports a single patch against the requested previous one, or none if asked for, or the one before it in the storage, and reports an error when it cannot.',
     ['configurations', 'histories'], 'all subsets of up to 4 patches on disk and in the storage, all first versions, all extra directory names, all argument combinations of the export command',
     'One example is tested.',
     ['cdtb/export.py', 'cdtb/__main__.py'],
     [('selection', 'export.CdragonRawPatchExporter.from_directory'), ('command', '__main__.command_export')],
     'exploration', ENUM, 'Reference selection from the documentation; the export itself is observed through its outputs.')

prop('C26', 'Exports select and place files by the documented rules',
     'Executables and libraries are never exported; game archives are exported under "game" (in a language subdirectory for language archives from patch 14.4 and on the beta), restricted to images, models, texts, fonts, tables and binary data other than skin groups; client files keep their path, unknown ones go under their plugin. '
     'Each file is exported under the names of its conversion.',
     ['inputs', 'configurations'], 'all (archive name, path, extension, patch) combinations of the rule alphabet, patches on both sides of each threshold',
     'Tests use a few paths.',
     ['cdtb/export.py'],
     [('rules', 'export.CdragonRawPatchExporter._transform_exported_files'), ('converters', 'export.CdragonRawPatchExporter._create_exporter')],
     'exploration', ENUM, 'Reference rule function written from the rule comments.')

prop('C27', 'Localized TFT and Arena data are independent and fully translated',
     'Each language file is the untranslated data with every translatable name and description replaced by that language\'s text when it has one and kept otherwise; it does not depend on which other languages are exported or in which order. '
     'The newest string table format available is used, and Arena and TFT read their own tables. A patch exported without the data of one of them has no such file, and is exported otherwise.',
     ['configurations', 'inputs'], 'all subsets of translated keys per language, all orders and subsets of 3 languages, every string table location and format, patches around each format change',
     'Tests never export these data.',
     ['cdtb/tftdata.py', 'cdtb/arenadata.py', 'cdtb/tools.py'],
     [('translation', 'tftdata.TftTransformer.export, arenadata.ArenaTransformer.export'), ('tables', 'tools.stringtable_paths')],
     'exploration', ENUM, 'Reference translation of an abstract template.')

prop('C28', 'TFT and Arena data link champions, traits, items and sets faithfully',
     'The exported data hold each set with its named champions, traits, items and augments and no others, each champion with its own traits, ability and statistics, each item with its own components and traits, whatever the order of the entries, the presence of optional fields and which references dangle. '
     'Templates are left out; the old data layouts give the same links.',
     ['inputs'], 'all small entry graphs up to 2 sets x 2 champions x 2 traits x 3 items with each reference present, absent or dangling, each alternative field layout, all entry orders',
     'Tests never export these data.',
     ['cdtb/tftdata.py', 'cdtb/arenadata.py'],
     [('linking', 'tftdata.TftTransformer.parse_*'), ('augments', 'arenadata.ArenaTransformer.parse_augments')],
     'exploration', ENUM, 'Expected JSON is built from the abstract graph.')

prop('C29', 'Versions are totally and consistently ordered',
     'Versions compare numerically component by component, equality agrees with ordering and hashing, text and tuple forms of a version are interchangeable, patch versions keep their first two numbers, and the beta version compares with itself only and maps above every number. '
     'Malformed versions are refused. Patches, elements, solutions and projects are equal when their names and versions are, and sort by name, then from the latest version.',
     ['inputs'], 'all pairs and triples over components {0..2, 9..11, 99..101, 255..256} at lengths 1 to 4, and a grammar of malformed texts',
     'Tests compare a handful of versions.',
     ['cdtb/storage.py', 'cdtb/rads.py'],
     [('versions', 'storage.BaseVersion, PatchVersion')],
     'exploration', ENUM, 'Order laws and the numeric reference on every pair and triple.')

prop('C30', 'Storages and components named on the command line resolve as documented',
     'A storage argument (configuration file, directory with or without configuration, "type:path", plain path, environment variable or default) selects the documented type, directory, patchline and options; a component argument selects the documented patch or element, and anything else is reported as an error. '
     'The listing and download commands then act on exactly the selected elements and languages.',
     ['configurations', 'inputs'], 'all combinations of storage arguments, configuration contents, environment, patchline option and component texts over a grammar, on a storage with a known history',
     'Tests check a few of these.',
     ['cdtb/__main__.py', 'cdtb/storage.py'],
     [('storage', 'storage.storage_conf_from_path, __main__.parse_storage_args'), ('components', 'storage.parse_storage_component')],
     'exploration', ENUM, 'Reference resolution from the help text and the documentation.')

prop('C31', 'Atlas and champion skin tables convert to complete JSON',
     'The JSON of an atlas lists each of its textures with its own coordinates and the path of its own atlas, by path or by hash with known paths resolved and image extensions mapped to PNG; the JSON of the champion skin table lists each champion with each skin, name and prestige mark. '
     'Files with another magic code or version are not converted.',
     ['inputs'], 'all tables up to 3 atlases x 3 textures and 2 champions x 2 skins over name, index, hash and flag alphabets, both atlas formats',
     'Tests never convert these.',
     ['cdtb/export.py', 'cdtb/tools.py'],
     [('atlas', 'export.AtlasInfoConverter'), ('skins', 'export.ChampionSkinInfoConverter')],
     'exploration', ENUM, 'Independent encoders and expectations.')

prop('C32', 'An interrupted export leaves no truncated output and can be resumed',
     'If an export or a WAD extraction fails at any file-system step (write error, Ctrl-C), the failure is reported, each asset present in the output is complete, and resuming without overwriting ends with the same content as an uninterrupted run. '
     'If it is killed instead, running it again with overwriting does.',
     ['fault_sequences', 'crash_points'], 'every single fault and every kill point of exports (each converter, links, removal of extra files) and of WAD extractions',
     'Tests inject no fault.',
     ['cdtb/export.py', 'cdtb/wad.py', 'cdtb/tools.py'],
     [('outputs removed on error', 'tools.write_file_or_remove, write_dir_or_remove'), ('resume', 'export.FileConverter.converted_paths_exist')],
     'fault_enumeration', FAULT, 'All single faults and kill points of small exports, followed by a full comparison.')

prop('C33', 'RADS components designate, list, order and download what they name',
     'A RADS component text ([sp]:name, name=version, name=, patch=...) designates the project, solution, version or patch it names and is refused otherwise; projects, solutions and versions are listed completely, newest first, and compare and hash consistently. '
     'Downloading or listing the files of a project, a version, a solution or a patch handles exactly the files of what it names, in the selected languages.',
     ['configurations', 'inputs'], 'all component texts over a grammar, all sets of stored and published releases of up to 3 projects and 2 solutions, all pairs and triples of objects, each language selection',
     'Tests parse a few components and download nothing.',
     ['cdtb/rads.py', 'cdtb/storage.py', 'cdtb/__main__.py'],
     [('components', 'rads.parse_rads_component'), ('listing', 'RadsStorage.list_projects, list_solutions, RadsProject.versions, RadsSolution.versions'), ('download', 'RadsProject.download, RadsSolution.download, storage.Patch.download')],
     'exploration', ENUM, 'Reference resolution and listing on an abstract set of releases.')

prop('C34', 'Dump commands show the complete content of BIN and SKN files',
     'The text dump of a BIN file shows each linked file, entry, patch and field with its type, name or hash, and value, in the order of the file, and two files which differ have different dumps; its JSON dump holds the same data as the parsed file. '
     'The dump of an SKN file gives one object file per part, with its vertices and faces, in the requested form, and a file which is not valid is reported as an error.',
     ['inputs'], 'all leaf values, all containers of leaves, pairs of 18 values, header versions and patch sections, in 7 patch versions, as text and JSON, at each verbosity; SKN files up to 3 parts',
     'Tests never run these commands.',
     ['cdtb/__main__.py', 'cdtb/binfile.py', 'cdtb/sknfile.py'],
     [('bin-dump', '__main__.command_bin_dump, binfile.BinFile, format_binvalue'), ('skn-extract', '__main__.command_skn_extract, sknfile.SknFile.to_obj')],
     'exploration', ENUM, 'Independent encoders; the sequence of shown texts is compared, and dumps of different files are checked to differ.')


def main():
    with open(f"{VERIF}/properties.jsonl", 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks, na = [], []
    for p in P:
        if os.path.exists(f"{VERIF}/mc/checks/{p['id'].lower()}.py") and not p['_na']:
            checks.append({
                'property': p['id'],
                'quick_cmd': f"VERIF_TIER=quick bash /verif/check.sh {p['id']}",
                'thorough_cmd': f"VERIF_TIER=thorough bash /verif/check.sh {p['id']}",
                'evidence_file': f"evidence/{p['id']}.json",
                'technique': p['_technique'], 'level': p['_level'], 'level_note': p['_note'],
            })
        else:
            na.append({'property': p['id'], 'reason': p['_na'] or 'check not built yet'})
    with open(f"{VERIF}/MANIFEST.json", 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        assert len(re.findall(r'[.](?: |$)', p['statement'])) <= 3, p['id']
    print(len(P), 'properties', len(checks), 'checks')


if __name__ == '__main__':
    main()
