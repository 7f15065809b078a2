"""Source of DESIGN.md: python3 /verif/spec/design.py (after spec/gen.py)"""
import ast
import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# {property: (what is explored and monitored, oracle, why beyond the tests, cost of quick in seconds)}
TEXT = {
 'C01': ('Two passes: a recording run numbers every request and every file-system effect of a scenario (a command as a user runs it, or a call of the API); then one run per (step, fault) injects the fault there, checks what is on disk, and runs the command again without faults. Ctrl-C is moreover raised at the first execution of every line of the code (sys.settrace), which reaches windows between two effects.',
         'every file under a final name equals its former content or its content at the end of the fault-free run; the failure reaches the caller; the retry ends with the tree of the fault-free run',
         'a fault matters at one precise write or request out of dozens, and what it breaks only shows in the next run', 48),
 'C02': ('As C01 with kills: the run is a forked process which is ended by os._exit before, in the middle of (half of the data written) or after effect n, for every n; buffered data is lost. The next command runs in another process on the directory left behind. Thorough: a second kill at every point of the repair run.',
         'the repair run succeeds and the tree equals the one of a run never killed (temporary names starting with a dot are ignored)',
         'every effect is a different crash state; the defect only shows when the next run trusts what it finds', 37),
 'C03': ('All small manifests (encoded by mc/enc.py, served by a fake CDN below requests) x language selections x layouts x former downloads are downloaded by the real code; the log of requests is checked as well as the tree and the listings.',
         'a ten-line model: selected regular files, concatenation of their chunks, owners of the missing chunks',
         'no test downloads a release; selection, sharing of chunks and skipping interact', 28),
 'C04': ('Breadth-first search. A state is the full snapshot of the storage directory (names, kinds, contents, link targets) with the state of the model; each transition restores the snapshot, runs one real operation and compares. States are merged when equal, so all sequences up to the depth are covered. The storage is also read after having been moved, and is alternately given by an absolute and a relative path.',
         'a dictionary (release, path) -> bytes, updated by the rules of the statement; the content store and the bundles are append-only',
         'damage comes from the interplay of several releases through the shared store, three operations apart', 20),
 'C05': ('Stateless exploration: the real worker threads of the real ThreadPool are stopped at each request, each piece of response and each file-system effect, and a controlled scheduler releases one of them at a time; all interleavings of two downloads, deviation-bounded for more, with and without a failing request or write.',
         'the tree of the sequential run, each bundle requested once, the failure reported, complete bundles left usable',
         'a run shows one interleaving only', 32),
 'C06': ('Breadth-first search over publications, polls on two patchlines and failing polls, with a clock owned by the explorer.',
         'a list of recorded pairs per patchline; the directory must hold exactly them',
         'a lost or doubled release depends on the order of publications, polls and failures', 16),
 'C07': ('All histories of versions of both elements, as real releases (manifests, version files) or real RADS solutions served by the fake CDN, with missing elements, unknown versions, failures while they are retrieved; all lookups on each.',
         'sort and group by version of the abstract history',
         'the merge of two histories and the grouping go wrong for specific relative orders only', 28),
 'C08': ('All layouts of small packages x listing orders x present files x wanted files, and every fragmentation (composition of the body length) delivered by a fake transport to the real stream reader; packages cut at every position.',
         'slices of the package body; requests of packages predicted from what is missing',
         'slicing errors appear when a piece ends exactly on a file boundary', 26),
 'C09': ('All small solution manifests x selections, through projects(), listings and downloads; refused variants.',
         'sets computed from the abstract manifest, not from its text', 'one manifest is tested', 6),
 'C10': ('All manifests of a bounded grammar, encoded with independent physical layouts (table orders, paddings, shared or absent fields, both versions), every language bit and pair of bits; wrong magic codes and versions.',
         'the abstract manifest', 'no test decodes a manifest; optional fields and bit masks have many combinations', 5),
 'C11': ('All (format version, storage kind, content, subchunk sequence, first index) combinations; every corruption of a byte of the data or of the table, every truncation.',
         'the original bytes, or a report of the malformed entry', 'no test opens a WAD; the index of subchunks crosses 16 bits only in huge archives', 3),
 'C12': ('All archives of up to three entries over an alphabet of names, kinds and magic numbers, every subset of files already there, through the API and the command line with all filters.',
         'a reference naming function and the list of files expected; existing files must be untouched (content and date)', 'naming rules interact (length, extension, hash)', 5),
 'C13': ('All small lists saved and loaded; breadth-first search over (known, unknown) states under every guessing step, to the fixpoint; Ctrl-C at every candidate.',
         'set algebra with real xxh64 hashes', 'a broken step only shows after another one', 18),
 'C14': ('For each strategy, the sets of known paths of a path grammar; each documented neighbour is asked for, all at once and one at a time; content search over a table of texts x storage kinds x places of unreadable entries; the command line with all lists of methods.',
         'the neighbourhood computed by a reference generator written from the documentation', 'a neighbourhood has many positions, a test samples one', 7),
 'C15': ('All relations between the dates and contents of the local and published list (time zones included), each fault, each kill point; breadth-first search of publish / refresh / edit histories; all environments.',
         'a model of both dates and contents', 'depends on the clock, the time zone and the history', 14),
 'C16': ('All values of a typed grammar (every type, every container of every type, nested), in each patch era and header version, plain and patch files; all field lists x lookups and assignments; equality of hash objects.',
         'the abstract value given to an independent encoder', 'two thresholds renumber the types; a test file is of one era', 11),
 'C17': ('All small tables x versions x patches x sharing x encryption x font configuration; lookups of all keys; JSON form.',
         'the abstract table', 'the width of hashes and the hash function depend on version and patch', 14),
 'C18': ('All small models: versions, vertex types, index lists, part ranges with gaps, shared vertices and both orders.',
         'the abstract model, faces mapped back to vertices', 'index rebasing only shows with several parts', 5),
 'C19': ('All pixel formats x mipmaps x sizes 1..9 x 1..9; all format codes; wrong headers.',
         'the pixels given to the encoder (solid blocks, a different one at each position)', 'sizes which are no multiple of a block with smaller copies stored first', 3),
 'C20': ('An export of a WAD where one asset takes each malformed content: every truncation, every byte changed, each field changed, for each kind of asset; undecodable entries.',
         'the other files as without the asset; each output of the asset is whole or absent', 'any byte may be the one which escapes the handlers', 22),
 'C21': ('All labellings of all small sets of paths over small trees.', 'expansion of the result by set algebra; maximality of directories', 'tree shapes and excluded paths interact', 6),
 'C22': ('All former contents: exports of other patches of a family, lazily or not, with and without links, and directories built from all combinations of status of each output plus extra entries of each kind; exports linked before to another previous patch.',
         'the export of the same patch into an empty directory', 'what is wrong depends on what the directory held before', 47),
 'C23': ('All pairs of patches of families (same and different WADs, moved files, changed hashes, renamed exports at the patch thresholds), all chains of three.',
         'a full export of the same patch, read through links; the previous export byte for byte', 'a wrongly linked file needs a specific pair of patches', 44),
 'C24': ('All pairs of patches, then other exports in the same directory; all subsets of kinds of entries.', 'lists recomputed from the abstract patch and the tree', 'a stale list needs two exports', 42),
 'C25': ('All subsets of stored patches x existing directories x requested first patch, through the command line; all single exports; the exports themselves are recorded instead of run.', 'a reference choice of (patch, previous) pairs', 'the choice depends on which directories and patches exist', 24),
 'C26': ('The whole rule alphabet: archive names x paths x extensions x patches around each threshold.', 'a table of rules written from the documentation', 'thresholds and rules multiply', 8),
 'C27': ('All subsets of translatable texts, keys which are texts, orders of languages, formats of tables, patches.', 'substitution in the untranslated data', 'sharing between languages and between sets only shows with several of them', 15),
 'C28': ('All link relations between small sets of entities, all orders, dangling references, absent fields by pairs, old layouts.', 'the abstract relation', 'dozens of optional fields', 18),
 'C29': ('All pairs of versions over boundary components; all texts over a 12-letter alphabet up to 5 characters.', 'tuples of integers', 'consistency of order, equality and hash is a property of pairs', 4),
 'C30': ('All configurations x locations x options x environments; all component texts x storages; all language options of the commands.', 'a reference resolution written from the help and docstrings', 'sources of configuration combine', 6),
 'C31': ('All small tables of both atlas formats and of skins; all versions and flags.', 'the abstract table', 'each texture refers to another atlas', 16),
 'C32': ('Every file-system step of exports and extractions x 6 faults, each followed by the next run (without overwriting after errors, with it after kills).', 'the uninterrupted result; every present asset is whole', 'one precise write out of many', 16),
 'C33': ('All component texts x listings; all stored subsets; all triples of objects under order, equality and hash; downloads of all subsets of versions.', 'the text grammar and the abstract store', 'no test covers RADS components', 7),
 'C34': ('All small BIN and SKN files dumped through the command line, as text, JSON and OBJ, with all verbosities.', 'shown elements found in order; injectivity of the text over all files of a unit; the parsed file for JSON', 'information lost for one type in one place', 28),
}

HEAD = open(os.path.join(VERIF, 'spec/design_head.md')).read()
TAIL = open(os.path.join(VERIF, 'spec/design_tail.md')).read()


def constants(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('BOUNDS', 'RULE', 'ASSUMPTIONS', 'LEVEL'):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                out[n.targets[0].id] = None
    return out


def main():
    props = [json.loads(l) for l in open(f"{VERIF}/properties.jsonl")]
    known = [l.split(' ', 3) for l in open(f"{VERIF}/known_findings.txt") if l.startswith(('fixed:', 'finding:'))]
    seeded = {}
    for p in sorted(glob.glob(f"{VERIF}/seeded/*/meta.json")):
        meta = json.load(open(p))
        seeded.setdefault(meta['property'], []).append((os.path.basename(os.path.dirname(p)), meta))
    out = [HEAD, '## Per property\n']
    for p in props:
        what, oracle, why, cost = TEXT[p['id']]
        c = constants(f"{VERIF}/mc/checks/{p['id'].lower()}.py")
        bounds = c.get('BOUNDS') or {}
        out.append(f"### {p['id']} {p['title']}\n")
        out.append(f"Explored: {what}\n")
        out.append(f"Oracle: {oracle}.\n")
        if bounds:
            out.append(f"Bounds: quick: {bounds['quick']}. Thorough: {bounds['thorough']}.\n")
        out.append(f"Beyond tests: {why}. Cost: about {cost} s (quick, 8 cores).\n")
        if c.get('ASSUMPTIONS'):
            out.append(f"Assumptions: {'; '.join(c['ASSUMPTIONS'])}.\n")
        fixes = [k for k in known if k[1] == f"property={p['id']}"]
        if fixes:
            out.append(f"Genuine defects found: {len(fixes)} (repaired: {', '.join(k[2] for k in fixes if k[0] == 'fixed:')}).\n")
        if p['id'] in seeded:
            out.append(f"Planted bugs: {', '.join(n for n, _ in seeded[p['id']])}.\n")
    out.append('## Planted bugs\n')
    out.append('All of them are caught by the check of their property (quick tier).\n')
    out.append('| bug | property | what it needs to manifest |\n|---|---|---|')
    for pid, bugs in sorted(seeded.items()):
        for n, meta in bugs:
            out.append(f"| {n} | {pid} | {meta['needs']} |")
    out.append('')
    out.append(TAIL)
    with open(f"{VERIF}/DESIGN.md", 'w') as f:
        f.write('\n'.join(out))


main()
