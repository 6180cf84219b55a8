"""The property table: everything /verif/properties.jsonl, MANIFEST.json and the checks are generated from."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
_k = json.load(open(os.path.join(HERE, '..', 'known_findings.json')))
KNOWN = _k['findings']
PROPS = {}
NA = {}


def P(id, title, statement, over, text, why, files, mech, features, harnesses, bounds, note, state=None, observe=None, hook=None, assume=None, level='other'):
    PROPS[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=hook,
                                  **(dict(observe_at=observe) if observe else {})),
                     features=features, harnesses=harnesses, bounds=bounds, note=note, assume=assume or [], level=level)


def NAP(id, title, statement, over, text, why, files, mech, reason):
    NA[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None), reason=reason)


def H(name, covers=(), tier='both', **k):
    return dict(name=name, covers=list(covers), tier=tier, **k)


PS = 'crates/oro-package-spec/src/'
P('S01', 'Parsing a package specifier is total',
  'Parsing any string as a package specifier ends with a specifier or an error, never a panic. An error carries the input and a location inside it. '
  'A parsed git specifier always yields its clone URLs: https and ssh together for hosted repositories, a tarball URL exactly when a committish is given.',
  ['inputs'], 'every specifier string (any bytes from the command line, package.json or a lockfile)',
  'The tests parse a few dozen hand-written specifiers; totality quantifies over all strings, and slicing on byte offsets only fails on unusual ones.',
  [PS + 'lib.rs', PS + 'error.rs', PS + 'gitinfo.rs', PS + 'parsers/git.rs', PS + 'parsers/alias.rs', PS + 'parsers/npm.rs', PS + 'parsers/path.rs'],
  [('nom parsers', PS + 'parsers'), ('error location', PS + 'error.rs')], ['spec'],
  [H('h_spec_total_any', ['ok', 'err']), H('h_spec_total_tpl', ['ok', 'err']),
   H('h_spec_total_any_deep', ['ok', 'err'], 'thorough'), H('h_spec_total_tpl_deep', ['ok', 'err'], 'thorough')],
  'all strings of at most 4 bytes over "a1@/.:#~^*" (thorough: 6), and 20 structural prefixes (git+, git://, ssh://, github:, npm:, file:, alias@, semver: ...) followed by up to 3 (thorough: 4) bytes over "a1@/.:#%" and newline, and 3 non-ASCII prefixes',
  'bounded: holds for every string within the stated lengths and alphabets')
P('S02', 'A displayed specifier parses back to the same specifier',
  'For every specifier that parses (with a package name and tag not starting with a dot), printing it and parsing the result gives an equal specifier. '
  'The same holds for the name@requested form that lockfiles and manifests store.',
  ['inputs'], 'every parseable specifier', 'Display tests pin five constructed values; the round trip has to hold for every combination of alias, scope, host, committish and range.',
  [PS + 'lib.rs', PS + 'gitinfo.rs', PS + 'parsers/git.rs', PS + 'parsers/alias.rs'],
  [('Display', PS + 'lib.rs'), ('Display', PS + 'gitinfo.rs')], ['spec'],
  [H('h_spec_rt_any', ['dir', 'npm', 'git']), H('h_spec_rt_tpl', ['dir', 'npm', 'git']), H('h_spec_words', ['ok', 'dir', 'npm', 'git']), H('h_spec_words_deep', ['ok', 'dir', 'npm', 'git'], 'thorough'),
   H('h_spec_rt_any_deep', ['dir', 'npm', 'git'], 'thorough'), H('h_spec_rt_tpl_deep', ['dir', 'npm', 'git'], 'thorough')],
  'all strings of at most 4 bytes over "a1@/.:#x" (thorough: 6), and 26 structural prefixes followed by up to 3 (thorough: 4) bytes over "a1@/.:#-"; and any word of 1-10 letters a-z (thorough: 16) as name, scope, tag, committish or path',
  'bounded: holds for every string within the stated lengths and alphabets')
P('S03', 'Hosted git specifiers name exactly the repository written',
  'A hosted git specifier (shorthand, git+https, git:// or scp-style ssh) yields the owner, repository (less one trailing .git, which a shorthand may keep) and committish that were written. '
  'Its https, ssh and tarball URLs use the host\'s real domain and archive endpoint and name that repository and commit.',
  ['inputs'], 'every host, owner, repository name and committish', 'Tests use the names foo/bar; only repository names containing ".git" in the middle, or hosts the tests never ask a URL of, expose errors.',
  [PS + 'gitinfo.rs', PS + 'parsers/git.rs'], [('git parsers', PS + 'parsers/git.rs'), ('GitInfo URLs', PS + 'gitinfo.rs')], ['spec'],
  [H('h_spec_fidelity', ['hosted', 'tarball', 'semver']), H('h_spec_fidelity_deep', ['hosted', 'tarball', 'semver'], 'thorough')],
  '4 hosts x 6 forms, 1-byte owners, repository names of 1-2 bytes over "B-.git" (thorough: 4; one byte less with a fragment), optionally followed by ".git-", and by up to two ".git", committish of 1-2 bytes over "aF0-.", a semver fragment, or none',
  'bounded: holds for every name within the stated lengths and alphabets')
P('S04', 'Registry, alias and path specifiers mean what was written',
  'A registry specifier yields exactly the scope, name and version, tag or range that were written, with or without npm: and behind any alias. '
  'A path (with or without file:) yields a directory specifier with exactly that path, and an alias keeps its own name.',
  ['inputs'], 'every scope, name, version, tag, range, alias and path', 'Tests check a few literals; classification between tag, version, range, path, alias and git shorthand depends on the exact characters.',
  [PS + 'lib.rs', PS + 'parsers/npm.rs', PS + 'parsers/alias.rs', PS + 'parsers/path.rs', PS + 'parsers/package.rs'],
  [('npm parser', PS + 'parsers/npm.rs'), ('alias parser', PS + 'parsers/alias.rs'), ('path parser', PS + 'parsers/path.rs')], ['spec'],
  [H('h_spec_classify', ['bare', 'version', 'prerelease', 'tag', 'range', 'compound range', 'alias', 'dir']), H('h_spec_words', ['ok', 'dir', 'npm', 'git']), H('h_spec_words_deep', ['ok', 'dir', 'npm', 'git'], 'thorough')],
  'scopes and names of 1-2 bytes (with dots, dashes and underscores), versions with a 1-2 digit major and 1 digit minor/patch, tags of 1-3 letters, caret ranges, 11 compound ranges, prerelease and build parts of 1-2 letters, 7 path forms; and any word of 1-10 letters a-z (thorough: 16) as name, scope, tag, committish or path',
  'bounded: holds for every name and number within the stated sizes')

CM = 'crates/oro-common/src/'
P('B01', 'Normalised bins have plain names and stay inside the package',
  'Normalising a manifest\'s bin field (a string, a map or a list) gives entries whose names are plain file names and whose targets are relative paths inside the package. '
  'An entry with a usable name and target is kept, under its base name and pointing at the file that was written; an unusable one is dropped.',
  ['inputs'], 'every bin field of a package.json from the registry, however hostile',
  'The bin map comes from third parties; the tests have two literal maps. Escapes need particular mixes of dots, slashes, backslashes and colons.',
  [CM + 'build_manifest.rs'], [('BuildManifest::normalize', CM + 'build_manifest.rs')], ['common'],
  [H('h_bins', ['ok', 'kept', 'dropped', 'err']), H('h_bins_multi', ['ok']), H('h_bins_deep', ['ok', 'kept', 'dropped', 'err'], 'thorough', limit=700)],
  'one entry in each of the three forms (and two entries with names of 1-2 bytes in the map and list forms); names of 1-3 bytes over "a./\\:@", targets of 0-4 bytes over "b./c" (thorough: 4 and 5, with a time limit)',
  'bounded: holds for every name and target within the stated lengths and alphabets')
P('U01', 'Abbreviated and full metadata convert without losing information',
  'Converting the abbreviated form of version metadata or of a packument into the full form keeps its versions, tags, dependencies, dist information and deprecation notice. '
  'Converting back gives the original.',
  ['inputs'], 'every abbreviated version metadata and packument', 'No test converts; a field is lost only when it is set, so any test has to set each one.',
  [CM + 'packument.rs', CM + 'manifest.rs'], [('From conversions', CM + 'packument.rs'), ('From conversions', CM + 'manifest.rs')], ['common'],
  [H('h_meta', ['done']), H('h_packument', ['done'])],
  'every field absent or present with 1-2 byte strings; dependency maps of 0-2 entries; up to 2 versions and 2 tags',
  'bounded: holds for every combination within the stated sizes')

NS = 'crates/nassun/src/'
P('V01', 'A registry specifier resolves to the version npm semantics give it',
  'A range gets the latest-tagged version if that is published and satisfies it, else the highest published version satisfying it (prereleases only as the range admits); "*" and no version fall back to the default tag. '
  'A tag or version gets exactly that one if published; anything else is a "no such version" error. '
  'The resolution carries that version\'s tarball and integrity (its shasum when it has no integrity).',
  ['inputs'], 'every set of published versions and tags, in any order, and every kind of specifier',
  'The tests resolve against single literal packuments; the choice depends on the order and combination of versions, prereleases and tags.',
  [NS + 'resolver.rs', NS + 'package.rs', NS + 'client.rs'], [('PackageResolver::resolve', NS + 'resolver.rs'), ('pick_version', NS + 'resolver.rs')], ['nm'],
  [H('h_ver_range', ['ok', 'none']), H('h_ver_pre', ['ok', 'none']), H('h_ver_exact', ['ok', 'none']), H('h_ver_integrity', ['sri', 'shasum', 'neither']),
   H('h_ver_range3', ['ok', 'none'], 'thorough'), H('h_ver_pre3', ['ok', 'none'], 'thorough')],
  '1-2 published versions (thorough: 3) with major and minor 0-2, patch 0-1 and one numeric prerelease or none, latest and next tags on any of them, missing or unpublished; 10 ranges, exact versions and 4 tags; shasums with any first hex digits',
  'bounded: holds for every registry and specifier within the stated sizes', hook='Nassun::with_fetcher')

NM = 'crates/node-maintainer/src/'
P('G02', 'Resolution yields a tree where every dependency is found and satisfied',
  'Resolving any package.json against any registry contents gives a tree in which, from every package, Node\'s lookup of every dependency it declares (optional ones too; dev ones for the root only) finds the package asked for at a satisfying version. '
  'Every installed package is a published version that some dependency chain leads to, and records exactly the dependencies it declares.',
  ['inputs', 'schedules'], 'every package.json, registry contents (versions, cyclic and conflicting dependencies, aliases, dependency kinds) and order of registry answers',
  'The tests resolve a handful of fixed trees; wrong hoisting shows only for particular combinations of conflicts, depth and order of answers.',
  [NM + 'resolver.rs', NM + 'graph.rs', NM + 'maintainer.rs'], [('Resolver::run_resolver', NM + 'resolver.rs'), ('place_child', NM + 'resolver.rs'), ('Graph', NM + 'graph.rs')], ['nm'],
  [H('h_graph_cyc', ['done']), H('h_graph_v2', ['done']), H('h_graph_order', ['done']), H('h_graph_race', ['done']), H('h_graph_kinds', ['done']), H('h_graph_alias', ['done']),
   H('h_graph_alias_clash'), H('h_graph_loop'), H('h_graph_tag_loop'), H('h_graph_wide', ['done'], 'thorough', limit=600)],
  'registries of 2-3 packages (one scoped) at 1.0.0 with any dependencies among the others and 2.0.0 without (2 packages: with), any root dependencies on either major; each dependency in any section; registry answers immediate or late in any combination (2-3 packages, one of them with overlapping ranges, at concurrency 1, 2 and 50); aliases of 3 packages. Thorough: 4 packages, with a time limit. '
  'Dependency cycles whose members are requested in conflicting versions or by tag, and aliases named like another requested package, are outside these (known findings)',
  'bounded: holds for every registry and package.json within the stated sizes', hook='Nassun::with_fetcher')
P('L01', 'A lockfile reproduces the tree it was written from',
  'Writing the resolved tree as a lockfile and reading it back gives the same tree, and resolving again with it gives that tree whatever has been published since, also with --locked, and however the locked packages are nested. '
  'A package-lock.json is read with every package\'s location, version, resolution, integrity and dependencies as written, and converts to orogene\'s format and back unchanged.',
  ['inputs', 'histories'], 'every resolved tree and later registry contents; every package-lock.json',
  'The tests read two fixed lockfiles; reproducing a tree depends on nesting, scopes and what newer versions would be preferred.',
  [NM + 'lockfile.rs', NM + 'resolver.rs', NM + 'graph.rs'], [('Lockfile::to_kdl/from_kdl/from_npm', NM + 'lockfile.rs'), ('satisfy_from_lockfile', NM + 'resolver.rs')], ['nm'],
  [H('h_lock_same', ['done']), H('h_lock_tree', ['valid']), H('h_lock_npm', ['read', 'kdl', 'unresolved']), H('h_lock_tag'), H('h_lock_race', ['done'], 'thorough'), H('h_lock_same_deep', ['done'], 'thorough', limit=700)],
  'trees of 2 packages (thorough: 3, with a time limit) as for G02 with newer matching and non-matching versions published afterwards; every valid nesting of 4 packages, one of them in up to 4 places at 2 versions; a package-lock.json with one package whose name, location, dependency or resolution is any text of 1-2 bytes over letters, quotes, backslash, space and slash, or missing',
  'bounded: holds for every tree and lockfile within the stated sizes', hook='Nassun::with_fetcher')
P('L02', 'An outdated lockfile is honoured where it still fits, and --locked rejects it',
  'Resolving with the lockfile of another package.json gives a correct tree for the current one and keeps every root dependency at its locked version if that still satisfies. '
  'With --locked it succeeds exactly if the lockfile already is the resolved tree, and otherwise fails as a lockfile mismatch.',
  ['inputs', 'histories'], 'every change of the dependencies between writing the lockfile and resolving again',
  'The tests have no outdated lockfile; the outcome depends on which entries still satisfy and where they sit in the tree.',
  [NM + 'resolver.rs', NM + 'lockfile.rs', NM + 'maintainer.rs'], [('satisfy_from_lockfile', NM + 'resolver.rs'), ('locked', NM + 'resolver.rs')], ['nm'],
  [H('h_lock_stale', ['matches', 'mismatch'])],
  'two packages, each requested or not on either major before and after the change, a depending on b in any way; newer versions published in between',
  'bounded: holds for every pair of package.json files within the stated sizes', hook='Nassun::with_fetcher')

LK = NM + 'linkers/'
P('N01', 'The installed node_modules is where Node finds every dependency',
  'After applying any package.json, with the hoisted or the isolated layout, Node\'s lookup from every installed package\'s directory finds every dependency it declares, as a directory with exactly the files of a published version that satisfies the request. '
  'No other packages are left in node_modules.',
  ['inputs'], 'every package.json, registry contents and layout', 'The layout on disk follows from the shape of the whole dependency graph; the repository has no test that looks at a resulting node_modules of more than a package or two.',
  [LK + 'hoisted.rs', LK + 'isolated.rs', NM + 'maintainer.rs', NM + 'graph.rs', NS + 'tarball.rs'],
  [('HoistedLinker', LK + 'hoisted.rs'), ('IsolatedLinker', LK + 'isolated.rs'), ('Graph::package_subpath', NM + 'graph.rs')], ['fs'],
  [H('h_install', ['done']), H('h_disk_bins', ['done']), H('h_disk_scope', ['done']), H('h_disk_tree', ['done'], 'thorough', limit=700)],
  'registries of 2 packages (one scoped; thorough: 3) with 2 versions, any dependencies of the first on the others and of the root, both layouts, on an empty directory or after another installation of packages of the same scope; the file system is an in-memory model of POSIX with directories, links and permissions',
  'bounded: holds for every installation within the stated sizes', hook='Nassun::with_fetcher')
P('N03', 'Reinstalling over any earlier state gives what a fresh install gives',
  'Applying a package.json over what an earlier apply left (of another package.json, with the other layout, with stray files, links or a broken marker file in node_modules, or one that failed half-way) succeeds and leaves exactly the files and links of a fresh installation. '
  'An apply that could not extract a package reports failure.',
  ['inputs', 'histories', 'fault_sequences'], 'every earlier package.json and layout, leftovers in node_modules, and failure while pruning or extracting',
  'Each test starts from an empty directory; what goes wrong depends on the combination of the old and the new tree, and on where the old installation stopped.',
  [LK + 'hoisted.rs', LK + 'isolated.rs', NM + 'maintainer.rs', NS + 'tarball.rs'],
  [('HoistedLinker::prune/extract', LK + 'hoisted.rs'), ('IsolatedLinker::prune/extract', LK + 'isolated.rs'), ('META_FILE_NAME', NM + 'lib.rs')], ['fs'],
  [H('h_disk_fault', ['done']), H('h_disk_stuck', ['done']), H('h_disk_again', ['done']), H('h_disk_switch', ['done']), H('h_disk_swap', ['done']), H('h_disk_swap_alias')],
  'two packages (one scoped) with 2 versions and any dependencies, one with an executable, installed twice in any combination; a name that stands for one of 3 packages and then for another, for the root or a package; 6 kinds of leftovers; a tarball that cannot be extracted (of another version, or until it is repaired); any one directory of node_modules read-only during one apply; both layouts',
  'bounded: holds for every history within the stated sizes', hook='Nassun::with_fetcher',
  assume=['blocking tasks of a failed apply have ended when the next one starts'])
P('N04', 'The executables of dependencies are linked where scripts find them',
  'After applying a package.json, every executable (bin as string, map or list, or directories.bin) of a package\'s dependency is linked under its normalised name to the right file in the .bin directory nearest to the dependent. '
  'No .bin has any other links, also after a dependency was dropped, replaced or was there before.',
  ['inputs', 'histories'], 'every form of declaring executables, layout, and sequence of installations',
  'The tests link one bin in one layout; missing and stale links appear with packages that were already installed, or names that differ from the package\'s.',
  [LK + 'hoisted.rs', LK + 'isolated.rs', CM + 'build_manifest.rs', 'crates/oro-shim-bin/src/lib.rs'],
  [('link_bins', LK + 'hoisted.rs'), ('link_bins', LK + 'isolated.rs'), ('BuildManifest', CM + 'build_manifest.rs')], ['fs'],
  [H('h_disk_bins', ['done']), H('h_disk_again', ['done'])],
  'up to three packages depending on each other, one with a bin map and another with one of 8 declarations (map, string, list, directories.bin, missing files and directories, a directory outside); 2 versions, any dependencies; two installations in a row of packages with and without executables; both layouts, POSIX links',
  'bounded: holds for every declaration and history within the stated sizes', hook='Nassun::with_fetcher')

TB = NS + 'tarball.rs'
P('T01', 'Extracting a package never writes outside its directory',
  'Whatever paths the entries of a package\'s tarball have, extracting it (directly, through the cache, or from the cache) creates, changes or removes nothing outside the target directory and the cache.',
  ['inputs'], 'every entry path, with or without a cache', 'Tarballs come from third parties; escapes need particular combinations of "..", empty and leading components, and the tests extract well-formed tarballs only.',
  [TB, NS + 'package.rs'], [('Tarball::extract_from_tarball', TB), ('extract_to_dir', NS + 'package.rs')], ['fs'],
  [H('h_tar_contain', ['done'])],
  'a regular file with one of 5 prefixes and any further path of 1-5 bytes over "a./" or (without slashes) "a.\\\\"; with and without cache; extraction by copy and by hard link',
  'bounded: holds for every path within the stated length', hook='Nassun::with_fetcher')
P('T02', 'A tarball that does not match its integrity is never extracted',
  'If the bytes the registry serves for a package differ in any way from those its integrity is of, extraction fails, leaves no target directory and leaves nothing in the cache that a later extraction would use. '
  'If they match, extraction succeeds.',
  ['inputs', 'fault_sequences'], 'every corruption of the served bytes, in whatever pieces they arrive', 'The tests serve the right bytes; the check sits at the end of a stream that is read in pieces, so where and how the bytes differ matters.',
  [TB, NS + 'package.rs'], [('TarballIntegrity / Tarball::poll_read', TB), ('extract_to_dir', NS + 'package.rs')], ['fs'],
  [H('h_tar_bad', ['good', 'bad']), H('h_tar_big', ['good', 'bad']), H('h_tar_cache', ['done', 'other'])],
  'any change of one byte at 4 positions, 3 truncations, any appended byte, another well-formed tarball, or none; arriving in pieces of 1, 3 or 8192 bytes; with and without cache; another well-formed tarball after the cache was damaged; the same of a tarball larger than what is kept in memory (1 KiB instead of 5 MiB here). Digests are modelled as collision-free functions',
  'bounded: holds for every corruption of the stated kinds', hook='Nassun::with_fetcher')
P('T03', 'Extraction reproduces the tarball\'s files, separately for each copy',
  'Extracting a package gives exactly the files of its tarball with their contents (the last of equal paths), executables and bins executable, wherever package.json is in it, with and without the cache and in every extraction mode. '
  'Changing the files of a package with install scripts changes no other copy, nor what is extracted from the cache later.',
  ['inputs', 'histories'], 'every order and contents of a tarball\'s entries, extraction mode and cache state', 'Tests extract a package or two in one mode; errors need a certain order of entries with a certain mode and a second extraction.',
  [TB, NS + 'package.rs'], [('Tarball::extract_from_tarball', TB), ('extract_from_cache', TB), ('ExtractMode', NS + 'lib.rs')], ['fs'],
  [H('h_tar_files', ['done']), H('h_tar_dup', ['done']), H('h_tar_modes', ['done']), H('h_tar_big', ['good', 'bad'])],
  'tarballs of 3-4 files with contents of 1 byte, package.json in any position, with and without install scripts, 4 bin declarations (some of missing files), 2 file modes, 3 spellings of a path; two packages whose files share contents, with 5 file modes each; a tarball larger than what is kept in memory (1 KiB instead of 5 MiB here); each extracted up to four times, in each of 4 modes',
  'bounded: holds for every tarball of the stated kinds', hook='Nassun::with_fetcher')
P('T05', 'A damaged or foreign cache entry never keeps a package from installing',
  'If files of a cached package are missing from the cache or have other contents, or its index is of another format, extracting the package still succeeds and gives exactly the files of its tarball, now and the next time.',
  ['inputs', 'fault_sequences'], 'every damage of the cached files, and every index contents', 'The tests never damage the cache; recovery depends on which of a package\'s files are damaged and how.',
  [TB, NS + 'package.rs'], [('extract_to_dir', NS + 'package.rs'), ('extract_from_cache', TB)], ['fs'],
  [H('h_tar_cache', ['done', 'other'])],
  'a package of 3 files: one or two of its cached files overwritten with 0-2 other bytes or removed, or its index replaced by one with 0-2 bytes of metadata; 4 extraction modes, twice',
  'bounded: holds for every damage of the stated kinds', hook='Nassun::with_fetcher')

P('J01', 'Unchanged JSON is written back byte for byte',
  'Reading and printing a JSON document whose formatting is regular (one indentation unit, \\n or \\r\\n line ends, a trailing newline or none) gives the same bytes, keys in order. '
  'Any text is read without a panic, printing what was read keeps its value, and printing that again changes nothing.',
  ['inputs'], 'every JSON document and formatting', 'The tests have a handful of documents; detection of indentation and line ends goes wrong on particular first lines, nesting and contents.',
  ['crates/oro-pretty-json/src/lib.rs'], [('from_str', 'crates/oro-pretty-json/src/lib.rs'), ('to_string_pretty', 'crates/oro-pretty-json/src/lib.rs')], ['common'],
  [H('h_json_same', ['done']), H('h_json_any', ['ok', 'err']), H('h_json_same_deep', ['done'], 'thorough', limit=600), H('h_json_any_deep', ['ok', 'err'], 'thorough', limit=600)],
  'objects and arrays nested up to two deep with strings, numbers and literals (thorough: more of each), indented by 1, 2 or 4 (thorough: 3) spaces or tabs, both line ends; any text of at most 4 bytes (thorough: 6, both with a time limit). A lone \\r as line end and lines without indentation are outside the same-bytes part',
  'bounded: holds for every document and text within the stated sizes')
CLI = 'src/commands/'
P('J02', 'Adding and removing dependencies edits nothing else in package.json',
  'oro add writes each dependency under its name in the section asked for, as the prefix and the version resolved (keeping an alias), and removes it from the other sections; oro remove removes exactly the names given from all sections. '
  'Everything else in package.json stays as it was: order, formatting, other fields. A command that fails leaves the file as it was, and none panics whatever its contents.',
  ['inputs'], 'every package.json and list of specifiers or names', 'The tests add to nearly empty files; reordering or reformatting shows with several entries, sections and styles.',
  [CLI + 'add.rs', CLI + 'remove.rs', 'crates/oro-pretty-json/src/lib.rs'], [('AddCmd::execute', CLI + 'add.rs'), ('RemoveCmd::execute', CLI + 'remove.rs')], ['cli'],
  [H('h_cli_remove', ['done', 'failed']), H('h_cli_add', ['done', 'failed']), H('h_cli_odd', ['done', 'failed'])],
  '5 lists of dependencies of 0-3 packages (one scoped), one more section of 4 in 2 positions, 3 styles; 8 lists of 1-2 specifiers (tags, ranges, versions, aliases, twice the same, missing ones) with 3 prefixes in 3 sections; 6 lists of names; 14 odd package.json contents. Applying is switched off here (A01 has it)',
  'bounded: holds for every file and command line within the stated sizes', hook='AddCmd::verif, RemoveCmd::verif, ApplyArgs.verif: commands with an in-memory registry')
P('A01', 'A command leaves project files that agree, or the ones it found',
  'After a successful apply, add, remove or reapply, node_modules is an installation of package.json, and applying again with --locked succeeds and changes nothing. '
  'A command that fails leaves package.json and the lockfile as they were (if it could not resolve or was --locked out, node_modules too), and the next one can succeed. '
  '--lockfile-only leaves node_modules alone, --no-lockfile the lockfile, and apply package.json.',
  ['histories', 'configurations', 'fault_sequences'], 'every sequence of commands, their options, and package.json and registry contents', 'The tests run single commands on empty projects; disagreement needs a second command, a failing one, or a combination of options.',
  ['src/apply_args.rs', CLI + 'apply.rs', CLI + 'reapply.rs', CLI + 'add.rs', CLI + 'remove.rs'], [('ApplyArgs::execute', 'src/apply_args.rs'), ('write_lockfile', 'crates/node-maintainer/src/maintainer.rs')], ['cli'],
  [H('h_cli_apply', ['done', 'mismatch']), H('h_cli_fail', ['done']), H('h_cli_change', ['done'])],
  'projects of 2 packages at 2 versions with any dependencies, both layouts; two to three commands in a row: apply with each option, reapply, add or remove of each, adding or requesting packages that do not exist, have no such version, or whose tarball cannot be extracted',
  'bounded: holds for every history within the stated sizes', hook='AddCmd::verif and others, ApplyArgs.verif: commands with an in-memory registry',
  assume=['blocking tasks of a failed command have ended when the next one starts'])
OC = 'crates/oro-client/src/'
NETNOTE = 'bounded: holds for every registry, credential, URL and answer within the stated sizes'
NETHOOK = 'OroClientBuilder::transport, orogene::verif::client: the client of a command line, with an in-memory server for its requests'
P('C01', 'Credentials are sent to the registry they are for, and nowhere else',
  'Every request the client makes within a registry that --auth has credentials for (same scheme, host and port; path at or below the registry\'s) carries exactly the header those credentials stand for, once. '
  'No other request carries any: not ones to other hosts, ports or schemes, to paths outside the registry, for other registries, nor tarballs that a packument of the registry points to elsewhere.',
  ['inputs', 'configurations'], 'every set of credentials, registry URL, request, and tarball URL', 'The tests send a handful of URLs through the middleware; a leak needs a particular pair of registry and URL.',
  [OC + 'auth_middleware.rs', OC + 'client.rs', OC + 'credentials.rs', 'src/client_args.rs', 'crates/nassun/src/fetch/npm.rs'],
  [('AuthMiddleware::handle', OC + 'auth_middleware.rs'), ('nerf_dart', OC + 'auth_middleware.rs'), ('TryFrom<ClientArgs>', 'src/client_args.rs'), ('stream_external', OC + 'api/stream_external.rs')], ['net'],
  [H('h_net_auth', ['with', 'without']), H('h_net_tarball', ['with', 'without']), H('h_net_path', ['with', 'without']), H('h_net_package', ['with', 'without', 'full'])],
  '1-2 of 5 registry URLs (with and without trailing slash, path and port) with credentials of 5 kinds; every request of the client to each; 10 tarball URLs; registries with paths of 0-3 and files with paths of 1-4 characters of "xy/."; packages of 5 specs with a scope\'s registry or without',
  NETNOTE, hook=NETHOOK, assume=['redirects, proxies, the HTTP cache and TLS (all in dependencies) are left out: requests are observed where the client hands them to the transport'])
P('C02', 'Packages come from where their specs say',
  'A package of a registry is looked up by exactly its name, below the registry of its scope if that has one and the configured registry otherwise, whatever characters the name has and whether or not the registry URL ends in a slash; '
  'its files are the ones at the tarball URL of the packument. A repository on a known host at a commit is the archive that host has of that commit, with the manifest in it.',
  ['inputs', 'configurations'], 'every spec, registry and scope configuration', 'The tests use a single mock server at the root of its host and never fetch from a git host; names needing care in URLs appear in none.',
  ['crates/nassun/src/fetch/npm.rs', 'crates/nassun/src/fetch/git.rs', 'crates/nassun/src/client.rs', OC + 'api/packument.rs', 'crates/oro-package-spec/src/gitinfo.rs'],
  [('NpmFetcher::pick_registry', 'crates/nassun/src/fetch/npm.rs'), ('packument_impl', OC + 'api/packument.rs'), ('GitInfo::tarball', 'crates/oro-package-spec/src/gitinfo.rs'), ('fetch_to_temp_dir', 'crates/nassun/src/fetch/git.rs')], ['net'],
  [H('h_net_name', ['plain', 'scoped']), H('h_net_package', ['with', 'without', 'full']), H('h_net_git', ['alias', 'direct'])],
  '3 registry URLs, with or without one of 2 registries for a scope; names of up to 4 characters of "@a/.%:\\?#~" with 4 prefixes; 5 specs of packages with 10 tarball URLs; 4 specs of repositories with archives of 2 files below any directory of 1-2 characters',
  NETNOTE, hook=NETHOOK, assume=['clones made by git are left out'])
P('C03', 'Logging in stores credentials for its registry, and logging out removes them',
  'After login\'s credentials are set in a configuration file, whatever it held, the file can be read again and the credentials of that registry (however its URL is written) are the ones given; after logout it has none. '
  'Other registries\' credentials, other settings and the registries of other scopes stay. --auth and the like are taken apart into exactly the registry, key and value given, and never panic.',
  ['inputs', 'histories'], 'every configuration file, registry, kind of credentials and text', 'No test covers the configuration file or the parsing of --auth; any kind of credentials can be confused with another.',
  ['crates/oro-npm-account/src/config.rs', 'src/lib.rs'],
  [('set_credentials_by_uri', 'crates/oro-npm-account/src/config.rs'), ('get_credentials_by_uri', 'crates/oro-npm-account/src/config.rs'), ('clear_crendentials_by_uri', 'crates/oro-npm-account/src/config.rs'), ('parse_nested_key_value', 'src/lib.rs')], ['net'],
  [H('h_acct_login', ['own', 'other']), H('h_acct_any', ['any']), H('h_acct_arg', ['parsed']), H('h_acct_text', ['parsed', 'error', 'pair'])],
  '6 configuration files, 5 registry URLs, 5 kinds of credentials, with or without a scope; tokens and names of up to 3 characters of 14 (quotes, backslashes, line breaks, ...); --auth values of 3 parts of up to 3 characters, and any text of up to 5 of "{}=aé"',
  'bounded: holds for every file and value within the stated sizes', hook='orogene::verif::parse_nested_key_value')
P('C05', 'Any answer of a registry gives a result or an error',
  'Whatever status, headers and body a registry answers with, every request of the client ends with a value or an error, never a panic; statuses of 400 and up are errors (except where a login asks for a second factor); '
  'and the answers to a login mean what the protocol says: the token, a one-time password to enter or confirm on the web, no such user, a wrong password, or how long to wait.',
  ['inputs', 'fault_sequences'], 'every answer to every request', 'The tests mock well-formed answers; header bytes, truncated or foreign bodies and multi-byte text appear in none.',
  [OC + 'api/login.rs', OC + 'api/packument.rs', OC + 'api/ping.rs', OC + 'error.rs', OC + 'notify.rs'],
  [('OroClientError::from_json_err', OC + 'error.rs'), ('login_couch', OC + 'api/login.rs'), ('fetch_done_url', OC + 'api/login.rs')], ['net'],
  [H('h_net_answer', ['ok', 'err']), H('h_net_long', ['ok', 'err']), H('h_net_headers', ['ok', 'err']), H('h_net_login', ['ok', 'err']), H('h_net_wait', ['token', 'err', 'wait'])],
  'each of 7 requests; 12 statuses; bodies of 5 prefixes and up to 3 characters of "\\"}:,1a" and a line break, or of 17-50 characters of 1-4 bytes with a mistake among them; 3 headers with 4 prefixes and up to 2 bytes of any kind; waiting times of up to 3 digits',
  NETNOTE, hook=NETHOOK, assume=['bodies arrive whole: broken connections are the transport\'s errors'])
P('T06', 'Installs write inside node_modules only, each package in a directory of its name',
  'Whatever names the root\'s or a package\'s dependencies have, whatever kind of spec, and whatever links to elsewhere node_modules holds beforehand, an install either fails without panicking or puts each package into a directory of its own name; '
  'either way it creates, changes and removes nothing outside node_modules.',
  ['inputs'], 'every dependency name, every place of a link', 'The tests use ordinary names and start from nothing; only names with dots, slashes or scopes, and links, reach other directories.',
  ['crates/node-maintainer/src/linkers/hoisted.rs', 'crates/node-maintainer/src/linkers/isolated.rs', 'crates/oro-package-spec/src/parsers/util.rs', 'crates/nassun/src/fetch/dir.rs'],
  [('package_name', 'crates/oro-package-spec/src/parsers/util.rs'), ('package_dir', 'crates/node-maintainer/src/linkers/isolated.rs'), ('extract', 'crates/node-maintainer/src/linkers/hoisted.rs')], ['fs'],
  [H('h_disk_name', ['done', 'refused']), H('h_disk_links', ['done'])],
  'a dependency of the root or of a package, of a name of 1-3 characters of "b@/." with 5 prefixes, aliasing a package or a directory; a link to elsewhere at any of 11 places of node_modules, over an earlier install or none; both layouts',
  'bounded: holds for every name within the stated length', hook='Nassun::with_fetcher')
P('N05', 'Install scripts run once, after their dependencies\', and failures count',
  'After an install that succeeds, every preinstall, install and postinstall script of the packages installed has run exactly once, in its package\'s directory, with its dependencies\' executables found before any others; '
  'each after the ones of the same event of the packages it depends on (cycles aside), and all preinstall scripts before install scripts before postinstall scripts. The install ends, whatever the dependencies between packages and however many scripts run at a time. '
  'It fails if a script of a required package fails, with nothing run on top of that; a failing script of an optional dependency does not fail it; and with scripts ignored, none run. The next install runs a failed package\'s scripts again, and one after a success runs none.',
  ['schedules', 'programs', 'fault_sequences'], 'every graph of packages, their scripts, and how long and in what order those run', 'The only tests of scripts run a single one; cycles, concurrency and failures appear in none.',
  ['crates/node-maintainer/src/linkers/mod.rs', 'crates/oro-script/src/lib.rs', 'crates/node-maintainer/src/graph.rs'],
  [('run_scripts', 'crates/node-maintainer/src/linkers/mod.rs'), ('set_all_paths', 'crates/oro-script/src/lib.rs'), ('is_optional', 'crates/node-maintainer/src/graph.rs')], ['fs'],
  [H('h_scripts', ['order', 'cycle']), H('h_scripts_fail', ['ignored', 'done', 'failed']), H('h_scripts_env', ['done']), H('h_scripts_again', ['done', 'twice'])],
  '3 packages with any dependencies among them (cycles too), one of which takes longer than the others, 1 or 3 scripts at a time, both layouts; 2 packages with optional or required dependencies, where any event of either fails; executables named like a system program or not, at 2 versions in 3 positions; up to two failed installs before the one that succeeds',
  'bounded: holds for every graph and schedule within the stated sizes', hook='Nassun::with_fetcher',
  assume=['sh runs the echo, sleep, exit and programs that the scripts are made of as POSIX says (modelled, and replayed with the real sh)'])
