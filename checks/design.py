"""What each check compares against (the oracle), for DESIGN.md."""
ORACLE = dict(
    S01='no panic on any path (arithmetic overflow, slicing, unwrap, index); error.location() and input() are called on every error; every accessor of GitInfo is called on every parsed git specifier.',
    S02='parse(display(s)) == s, by the real PartialEq, for every path on which the input parses.',
    S03='a string is assembled from symbolic owner, repository and committish, so the expected fields and URLs are known from the construction, not from the parser.',
    S04='as S03: the specifier is assembled from known parts; the parts of the parsed result must be those.',
    B01='the harness computes for each entry, from npm\'s rules alone, whether it is usable and what name and target it must get.',
    U01='field-by-field comparison of source and converted structures, all optional fields being symbolic.',
    V01='an independent reference of npm\'s pick-manifest written over the symbolic version numbers; the registry\'s map order is symbolic too (`hash_order`).',
    G02='Node\'s module lookup, implemented over the resolved lockfile: from every package, every declared dependency is looked up and compared with registry and request. `Later` answers make the order of registry answers symbolic; FuturesUnordered, async locks and channels are executed/modelled with every wake-up order.',
    L01='equality of the whole lockfile (nodes, paths, versions, resolutions, integrities, dependencies) before and after writing, reading and resolving again.',
    L02='the tree oracle of G02 for the new package.json, and for --locked: success exactly when the lockfile equals the one a resolution without --locked gives.',
    N01='Node\'s lookup implemented over the file system (following links), from every installed package; contents compared with the registry\'s version. Anything else found below node_modules is a violation.',
    N03='file-by-file and link-by-link equality with a fresh installation into another directory, made by the same code from the same lockfile.',
    N04='for every dependent and every executable of its dependency, the nearest .bin must have a link to the right file; the number of links in .bin directories must be exactly the number wanted.',
    T01='a snapshot of everything outside the target and the cache must be equal before and after.',
    T02='an injective digest model: the served bytes differ from the declared ones exactly when a corruption was chosen; then extraction must fail, the target must not exist, and a following extraction from the cache must not give them.',
    T03='the expected file list is built next to the tarball; contents and the owner\'s executable bit of each file are compared, and again after another copy was changed.',
    T05='the expected file list; the damage is applied to the cache\'s files by the harness.',
    J01='the document\'s text is assembled by the harness\'s own printer; equality with what the library prints.',
    J02='the harness\'s own document model is edited and printed, and compared with the file byte for byte.',
    A01='the disk oracle of N01/N04 with the dependencies in package.json, `apply --locked`, and snapshots before and after.',
    C01='the harness keeps scheme, host, port and path apart (never parsing a URL) and says which registry holds which target; headers are written out by hand.',
    C02='the URLs asked for are assembled from the harness\'s own parts and compared as text; archives are recognised by their manifests.',
    C03='the header each kind of credentials stands for, written by hand, and the text of the file before and after.',
    C05='a table of the login protocol by status, header and body; elsewhere only that nothing panics and errors are errors.',
    N05='the log that the scripts themselves write, against the harness\'s own closure of the dependencies.',
    T06='a snapshot of everything around the project, and where each package.json came to lie.',
)
