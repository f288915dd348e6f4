"""The single source of properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md (run tools/gen.py)."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, how, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, how=how, note=note, na=na, observe=observe))


API = 'pkm/src/pkm/api/'

prop('V01', 'Versions are totally ordered exactly as PEP 440 orders them',
     'For any two standard versions, comparing them gives the PEP 440 order (epoch, zero-padded release, pre < final < post, '
     'dev releases first, local labels by numeric and alphanumeric segments), and the order is total, transitive and '
     'consistent. Equality coincides with the order, equal versions hash equally, and url versions and arbitrary version '
     'names keep a total order among themselves and against standard versions.',
     ['inputs'], 'all pairs and triples of versions, with numbers of any size',
     'tests sample a handful of pairs; a comparator is broken only for particular combinations of absent and present parts',
     [API + 'versions/version.py'],
     [('version comparison and hash', 'StandardVersion.__lt__/__eq__/__hash__, NamedVersion, UrlVersion')],
     'Versions are built with symbolic, unbounded numbers and symbolic presence of every part; each comparison of the real '
     'code is executed symbolically and compared with a flat PEP 440 key written independently in the harness. Local labels '
     'are symbolic texts. Release length at most 3 (quick) / 4, local labels at most 3-4 characters.')

prop('V02', 'Version texts are read as PEP 440 says and print back to themselves',
     'Reading any PEP 440 spelling of a version (all separators, letter synonyms, implicit numbers, epoch, local label) gives '
     'the version it denotes; texts that are not versions are kept verbatim as names, and urls as urls. Printing a version '
     'and reading the text gives an equal version which prints the same.',
     ['inputs'], 'all texts over the version alphabet up to a length, and all versions of a shape',
     'tests read a few texts; spellings multiply through optional separators, synonyms and implicit numbers',
     [API + 'versions/version_parser.py', API + 'versions/version.py'],
     [('version parser', 'VersionParser.read_version'), ('printing', 'StandardVersion.__str__')],
     'Texts are arrays of symbolic characters; the real parser runs on them and the result is compared with the PEP 440 '
     'appendix-B regular expression, run by an independent symbolic matcher on the same text.')

prop('V03', 'A version specifier admits exactly the versions its text denotes',
     'A specifier text (==, !=, ===, ~=, <, <=, >, >=, wildcards, comma lists, @ url) admits a version exactly when every '
     'clause does: comparisons use the PEP 440 order, wildcards match by release prefix (from that version up to the next '
     'prefix), equality ignores the local label of the candidate when the specifier has none. A post release passes an '
     'ordering clause only if it is the inclusive end itself or the lower end is a post release.',
     ['inputs'], 'all clause texts over every operator and version shape, against all versions',
     'tests check a few operator/version pairs; each clause denotes an infinite set',
     [API + 'versions/version_parser.py', API + 'versions/version_specifiers.py'],
     [('specifier parser', 'VersionParser.read_specifier'), ('membership', 'StandardVersionRange.allows_version, '
                                                              'VersionMatch.allows_version')],
     'The clause text has symbolic digits, the candidate version symbolic unbounded numbers; membership computed by the '
     'real code is compared with a denotation written in the harness.')

prop('V04', 'Set operations on version specifiers agree with membership',
     'Union, intersection, difference and inverse of any two specifiers admit exactly the versions that the set operation '
     'says, and the questions "allows any of" and "allows all of" answer exactly whether the sets overlap or contain one '
     'another. Equal sets compare equal and hash alike where the specifier is normalized.',
     ['inputs'], 'all pairs (and triples) of ranges, points, exclusions, names and unions, with any bounds',
     'tests use a handful of ranges; the algebra fails only for particular relative positions of four bounds and their '
     'inclusiveness',
     [API + 'versions/version_specifiers.py'],
     [('set algebra', 'VersionSpecifier.union_with/intersect_with/difference_from/inverse, allows_any, allows_all')],
     'Bounds are symbolic unbounded versions, inclusiveness symbolic; the operation is executed by the real code and '
     'membership of a symbolic probe version is asserted to agree with the boolean combination.')

prop('V05', 'A printed specifier reads back as the same set of versions',
     'Every specifier that a requirement text can denote prints as a text that reads back as an equal specifier, which '
     'admits the same versions and prints the same.',
     ['inputs'], 'all specifiers read from one or two clauses of any operator and version shape',
     'tests print a few; lock files, metadata and manifests depend on every printed form',
     [API + 'versions/version_specifiers.py', API + 'versions/version_parser.py'],
     [('printing', 'VersionSpecifier.__str__ of every kind'), ('reading', 'VersionSpecifier.parse')],
     'Specifier texts with symbolic digits are read, printed and read again by the real code; equality, text and membership '
     'of a symbolic version are asserted.')

prop('N01', 'Package names are identified as PEP 503 normalizes them',
     'Two spellings of a package name denote the same package exactly when they normalize alike (case, runs of hyphens, '
     'underscores and periods). Names read from requirements and from the file names of distributions carry the identity '
     'and version of the package they name.',
     ['inputs'], 'all pairs of legal names up to a length',
     'tests use a few plain names; identity decides what is installed, replaced or removed',
     [API + 'packages/package.py', API + 'dependencies/dependency.py', 'pkm/src/pkm/repositories/file_system_repository.py'],
     [('name key', 'PackageDescriptor.package_name_key'), ('file names', 'PackageDescriptor.from_dist_name')],
     'Names are symbolic texts; keys computed by the real code are compared with the PEP 503 substitution run symbolically.')

prop('D01', 'Requirement texts are read as PEP 508 says and survive printing',
     'A requirement text (name, extras, version clauses with or without parentheses, url, marker, free white space) is read '
     'into exactly the parts it spells. Printing a requirement and reading it back gives an equal requirement which prints '
     'the same.',
     ['inputs'], 'all requirement texts of the stated shapes with symbolic names, extras, versions and white space',
     'tests parse a few; metadata of foreign packages uses every spelling',
     [API + 'dependencies/dependency.py'],
     [('requirement parser', 'DependencyParser.read_dependency'), ('printing', 'Dependency.__str__')],
     'Texts with symbolic characters and symbolic white space are parsed by the real code and compared part by part.')

prop('D02', 'Environment markers evaluate as PEP 508 says',
     'A marker expression evaluates with "and" binding tighter than "or" and parentheses respected, comparing as versions '
     'when both sides are versions and as texts otherwise, with "in"/"not in" as substring tests. "extra" holds exactly for '
     'the requested extras, and printing and reading back a marker keeps its meaning.',
     ['inputs', 'configurations'], 'all marker expressions of up to 4 atoms, every operator, symbolic variable values and literals',
     'tests evaluate a few markers against one environment',
     [API + 'dependencies/env_markers.py', API + 'dependencies/dependency.py'],
     [('marker parser and evaluation', 'EnvironmentMarker.parse_pep508, evaluate_on')],
     'Expression shape and operators are chosen symbolically, operand texts are symbolic; an independent reader of the '
     'grammar in the harness gives the expected value.')

prop('B01', 'Bumping a version gives the next, strictly later version of its kind',
     'Bumping the major, minor or patch part gives the release with that number one higher and the lower ones zero; bumping '
     'to an alpha, beta or candidate gives the next pre release of that kind, later than the version itself. Post, dev and '
     'local parts are dropped, the epoch kept, and versions or parts that cannot be bumped are refused.',
     ['inputs'], 'all versions of three numbers, every part',
     'there is no test of bumping at all; wrong results depend on which optional parts are present',
     [API + 'versions/version.py', API + 'projects/project.py'],
     [('bump', 'StandardVersion.bump')],
     'The version has symbolic unbounded numbers and symbolic presence of parts; the result of the real code is compared '
     'with the PEP 440 key of the harness.')

prop('W01', 'A wheel tag is compatible with an environment exactly when it can run there',
     'A compatibility tag is accepted exactly when its ABI is one the interpreter provides, its platform is "any", the '
     'environment\'s own or an older libc/macOS baseline of the same architecture, and its interpreter is the environment\'s or '
     'generic Python of the same major and no newer minor version. A compressed tag set is as good as its best tag, and of '
     'two acceptable tags the one with the more specific ABI, then the newer platform baseline, then the closer interpreter '
     'scores higher.',
     ['inputs', 'configurations'], 'all tags of the known forms against interpreters, systems, architectures and libc versions',
     'the tests only see the machine they run on',
     [API + 'environments/environment_introspection.py'],
     [('tag scorer', 'EnvironmentIntrospection.compatibility_score, _compatibility_tag_scorer')],
     'The facts of an interpreter (what the introspection script reports) and the tag are symbolic; the real scorer '
     'runs on them. An explicit definition of compatibility is the oracle, and pairs of tags that differ in one component '
     'decide the order.')


prop('R01', 'Dependency resolution is sound, complete, minimal and terminates',
     'For every universe of packages, versions and dependency constraints, the solver comes to an end. When it returns a '
     'solution, the solution contains the root, every dependency of every chosen version is met by the chosen version of the '
     'package depended on, no malformed version is chosen and no package is in it that nothing chosen requires. When it '
     'reports that there is no solution, there is none, and the report can be printed. When the most preferred version of every '
     'package needed fits together, those are the versions chosen. (Packages have final or pre releases; how post and local '
     'releases meet ordering constraints is a known finding.)',
     ['inputs'], 'all dependency graphs over the listed packages, versions and constraints, both preference orders, malformed '
                 'versions included',
     'tests resolve a dozen hand-written graphs; the solver backtracks along paths that only particular combinations reach',
     ['pkm/src/pkm/resolution/pubgrub.py'],
     [('solver', 'Solver.solve, Solver._resolve_conflict, Solver._make_next_decision'),
      ('incompatibilities', 'Incompatibility.check_satisfaction, Term')],
     'Which constraint each version of each package puts on each other package is a solver variable that is decided only when '
     'the real Solver asks for it; on a solution all its clauses are asserted over those variables, and on failure the formula '
     '"some choice of versions satisfies every dependency" must be unsatisfiable.')

prop('R02', 'Resolving packages honours names, extras, markers, overrides and availability',
     'Given the packages of a repository, resolving a dependency gives exactly one version of every package needed and nothing '
     'else: all requirements on a package count, whichever spelling of its name, extra or environment marker they carry; extras '
     'bring the requirements of those extras; overrides replace the requirements on the package they name, everywhere; packages '
     'that cannot be used here or whose metadata cannot be read are not chosen; and a failure is reported only when no choice '
     'works.',
     ['inputs', 'configurations'], 'all requirement graphs over the listed packages, spellings, extras, markers and overrides',
     'the tests resolve plain names on in-memory packages; no test uses extras, overrides, markers or unreadable packages',
     ['pkm/src/pkm/resolution/dependency_resolver.py', 'pkm/src/pkm/resolution/pubgrub.py'],
     [('problem', 'resolve_dependencies, _PkmPackageInstallationProblem.get_dependencies, _PkmPackageInstallationProblem.get_versions')],
     'The real resolve_dependencies runs over in-memory packages whose requirements, compatibility and failures are solver '
     'variables, decided when it asks for them; the solution is checked against, and a failure refuted by, a formula over them.')

prop('I01', 'An installation plan gives what is requested and keeps what was there working',
     'Planning the installation of packages into an environment yields one version of each package such that the requested ones '
     'are there as requested, everything the user requested before is still there as it was requested, and the requirements of all '
     'of them are met; an installed package that fits is left alone unless its update is asked for, and packages that are installed '
     'already are changed only when adding the new ones alone is impossible. Packages to update, overrides and store modes are '
     'found under any spelling of a name. The request is recorded for exactly the packages the user asked for, the operations lead '
     'from what is installed to the plan, and a request is refused only when nothing fulfils it.',
     ['inputs', 'histories'], 'all consistent sites and repositories of three packages with two versions each, all requests listed',
     'no test of the suite plans an installation without network; the fast and the slow path interact with what is installed',
     [API + 'packages/package_installation.py'],
     [('planner', 'PackageInstallationTarget.plan_installation, _InstallationRepository.match'),
      ('operations', 'InstallationPlan.compute_operations_for_target')],
     'Which versions are installed, which were requested how, and the requirements of every version are symbolic; the real '
     'planner, resolver and operation computation run on them. The requirements stay unconcretised until the planner reads '
     'them, so a refusal is checked against every completion of the world by the solver.')

prop('I02', 'Uninstalling removes what nothing needs any more and nothing that is needed',
     'Uninstalling packages removes each of them, under any spelling of its name, unless a package that the user requested still '
     'needs it, in which case it stays without being marked as requested. Dependencies that nothing requested needs any more go with '
     'it, directly or through extras; nothing a remaining requested package needs is removed, nor what has nothing to do with the removed '
     'packages. Exactly the removed ones are reported as removed. This also holds when what is installed does not fit its '
     'requirements. The orphans of an environment are the packages no requested package leads to.',
     ['inputs', 'histories'], 'all sites of three or four packages with any requirements (cycles, extras, markers) and requests',
     'the test suite has no uninstallation; what may be removed depends on the whole graph of installed packages',
     [API + 'packages/package_installation.py', API + 'packages/site_packages.py'],
     [('uninstall', 'PackageInstallationTarget.uninstall, _RemovalRepository, _RemovalPackage'),
      ('orphans', 'SitePackages.find_orphan_packages')],
     'The graph of requirements and the set of requested packages are symbolic; the real uninstall, with the real resolver '
     'and operation tasks, runs on in-memory dist-infos and records what it removes; reachability in the harness is the oracle.')

prop('F01', 'A copy transaction does all of what was asked or leaves the tree as it was',
     'A sequence of file copies, tree copies, directory creations, removals and registered files that is run as one transaction '
     'and fails, at whichever operation on files and also half way through writing a file, leaves the file tree exactly as it was '
     'before: contents, files that were overwritten or removed, and directories. When nothing fails, every operation has the '
     'effect of its plain counterpart, and the files and directories that were created are listed as such. Either way no '
     'temporary files stay.',
     ['fault_sequences', 'histories', 'inputs'], 'all sequences of two (thorough: three) of ten kinds of operations on any of the '
     'listed trees, with a failure at any operation on files or at the end, or none',
     'no test lets an operation on files fail',
     ['pkm/src/pkm/utils/files.py'],
     [('transaction', 'CopyTransaction.copy, copy_tree, mkdir, rm, touch, rollback, commit')],
     'The real CopyTransaction runs on real files in a scratch directory as an unprivileged user; which operation on files fails '
     'is an unbounded solver integer compared at each one of them, so that every failure point becomes a path and "none" is the '
     'remaining one; the initial tree and the operations are symbolic; a model of plain file operations is the oracle.',
     note='A process that is killed half way is outside: there is no journal on disk.')

prop('F02', 'Installing a wheel places exactly its files, or, when it fails, nothing',
     'Installing a wheel puts each of its files where its kind belongs (pure or platform library, scripts with the interpreter of the '
     'environment, headers, data), makes a launcher for each console and gui entry point that calls it and exits with its result, and '
     'writes a record that lists every file put there with its right hash and size, the installer and what the user requested. '
     'A wheel whose files do not match its record, that has files for unknown places or whose format is too new is refused. '
     'An installation that is refused or fails at any operation on files leaves the environment exactly as it was.',
     ['inputs', 'fault_sequences', 'configurations'], 'wheels made of any of seven kinds of content, with a failure at any operation '
     'on files, into empty and used environments; any of four files altered in fourteen ways',
     'the only test that installs a wheel needs the network',
     [API + 'distributions/wheel_distribution.py', API + 'distributions/distinfo.py', 'pkm/src/pkm/utils/files.py'],
     [('installation', 'WheelDistribution.install_to, _sign_records'), ('rollback', 'CopyTransaction'),
      ('scripts', 'EntryPoint, Executables')],
     'The real installation of real wheel files runs in a scratch directory as an unprivileged user; contents, layout, alterations and the '
     'failing operation are solver variables; the resulting tree is compared with one computed from the wheel format.',
     note='The shared-store installation mode and archives of exotic compression are outside.')

prop('F03', 'Uninstalling a package removes its recorded files and nothing else',
     'Uninstalling a package removes every file that its installation recorded or compiled, wherever it is, with the directories that '
     'become empty inside of the site, and nothing that belongs to other packages, was added to its directories later, or lies outside; '
     'this holds also when files were changed or removed meanwhile, and when the site is reached over a symbolic link. '
     'Replacing a version by another one leaves the files of the new version, none of the old one, and what the user requested.',
     ['inputs', 'histories'], 'packages of any of seven kinds of content next to any of the listed other files, after any of six changes; '
     'updates from any to any content',
     'the test suite has no uninstallation',
     [API + 'packages/site_packages.py', API + 'packages/package.py', API + 'distributions/distinfo.py'],
     [('uninstall', 'InstalledPackage.uninstall, RecordsFileConfiguration'), ('update', 'Package.update_at')],
     'A real wheel with symbolic contents is installed by the real code into a scratch tree with symbolic other files, something '
     'symbolic happens to it, and the real uninstall runs; the tree is compared with the one before.')

prop('Q01', 'Packages are looked up in the configured order, bindings and contexts',
     'A package is taken from the first repository, in the order of the configuration and then along the parent contexts as far as '
     'each one inherits, that has a matching package compatible with the environment, pre-releases only when nothing else matches or '
     'they are asked for; a package that is bound to a repository, named or inline, comes from that one only, under any spelling of '
     'its name, and bind-only repositories serve nothing else. Packages required by url come from the first repository that '
     'handles the protocol. Projects shadow repositories in their own context, and what is registered, bound, unbound or removed '
     'holds at once and after the configuration is read again.',
     ['configurations', 'histories', 'inputs'], 'all configurations of up to two repositories and six bindings over any contents, chains of '
     'up to four contexts, and sequences of two (thorough: three) changes',
     'no test of the suite configures repositories',
     [API + 'repositories/repository_loader.py', API + 'repositories/repository_management.py', API + 'repositories/repository.py'],
     [('search', '_CompositeRepository._do_match, RepositoryLoader.load'), ('chain', 'RepositoryManagement.package_lookup_chain, attached_repo'),
      ('registration', 'RepositoryManagement.register_bindings, add_repository, remove_repository')],
     'The real loader, composite repositories and context managements run over stand-in repositories whose contents are '
     'solver variables decided when they are asked; the configuration and the chain of contexts are symbolic; the '
     'documented search order is the oracle.')

prop('R03', 'The lock prefers what is locked and changes nothing else',
     'Looking packages up through a lock gives exactly the packages the repository gives: first the version locked for this '
     'environment, then those locked for other environments, then the rest in their order. After any sequence of locking an '
     'environment, unlocking packages, saving and loading, the lock knows exactly what was locked last for each environment and not '
     'unlocked since, under any spelling of the names.',
     ['inputs', 'histories'], 'any locked versions of two packages in three environments over any of four offered versions, and sequences of '
     'three (thorough: four) operations',
     'there is no test of the lock; reproducible installation rests on it',
     ['pkm/src/pkm/resolution/packages_lock.py'],
     [('preference', 'LockPrioritizingRepository, PackagesLock.locked_versions'),
      ('life cycle', 'PackagesLock.update_lock, unlock_packages, save, load')],
     'The rows of the lock, what the repository offers and the operations are symbolic choices; the real lock, with its real '
     'file, is compared with a list of rows.')

prop('W02', 'The best usable artifact of a package is installed, and its metadata counts',
     'Of the artifacts of a package version the one that is used is the wheel with the best compatibility score among those whose '
     'required Python allows the interpreter, otherwise a usable source archive; artifacts with unreadable requirements are passed '
     'over, and a package counts as compatible exactly when there is one. For every environment, installing and asking for '
     'requirements use that same artifact, whatever was asked before for other environments.',
     ['inputs', 'configurations', 'histories'], 'up to four artifacts with any scores and required Pythons, any interpreter, sequences of uses in two '
     'environments',
     'tests install packages with one artifact',
     [API + 'packages/standard_package.py'],
     [('choice', 'AbstractPackage.best_artifact_for, is_compatible_with'), ('use', 'AbstractPackage.install_to, dependencies')],
     'Scores, bounds of required Pythons and interpreter versions are symbolic integers; the choice of the real code is '
     'asserted to be maximal among the usable ones.')

prop('Q02', 'Indexes and directories offer exactly the files they list',
     'A simple index, PyPI or a directory of archives offers for a package exactly the versions that its current page, answer or '
     'contents list with a file usable here: under any spelling of the name, without yanked or unreadable entries, sorted by '
     'version, each with the links and required Python that belong to it, and each version with its own metadata and requirements. '
     'A package that the index does not have gives nothing, other failures are reported, and a file whose announced digest does not '
     'match is never used.',
     ['inputs', 'configurations', 'fault_sequences'], 'pages and answers with up to two (thorough: three) links or releases of any form, sequences of questions, failures '
     'of the index, directories with up to two (three) archives and any kind of project',
     'the test suite cannot reach an index',
     ['pkm/src/pkm/repositories/simple_repository.py', 'pkm/src/pkm/repositories/pypi_repository.py',
      'pkm/src/pkm/repositories/file_system_repository.py'],
     [('simple index', 'SimpleRepository._do_match, _HtmlArtifactsExtractor'), ('PyPI', 'PyPiRepository._do_match, PypiPackage'),
      ('directories', 'FileSystemRepositoryBuilder.build')],
     'The form of every link, release and directory entry is symbolic, with symbolic bounds of the required Python; the real '
     'repositories read them over a stand-in http client and are compared with the list the page was made from.')

prop('H01', 'What is fetched over http is complete, current and asked for correctly',
     'Fetching a url gives exactly the body that the server has for it (any transfer encoding, redirections followed): when an update is '
     'asked for, the present one; when what is kept may be used, the body of the last complete fetch without asking again; and never '
     'the remains of a failed, truncated or removed download, or the answer to another request. Broken connections are tried again '
     'once, other failures are reported with their status and leave later fetches unharmed. Kept files stay inside the cache, one '
     'place for each url, with the digests that their content has.',
     ['histories', 'fault_sequences', 'inputs'], 'sequences of two or three fetches of up to three urls under any directives, with contents that change, data '
     'that is lost, clients that are replaced, and any of six faults at any answer; up to five redirections; any port',
     'the test suite has no server; caching fails only in particular histories',
     ['pkm/src/pkm/utils/http/http_client.py', 'pkm/src/pkm/utils/http/cache_directive.py'],
     [('fetching', 'HttpClient.fetch_resource, HttpClient._request'), ('cache', 'FetchedResource.save, HttpClient._resource_files_of, CacheDirective'),
      ('connections', '_Connections, _ConnectionProxy'), ('urls', 'Url.parse, Url.__str__')],
     'The real client runs over the real http.client with a stand-in socket; every choice of the server and every event between fetches '
     'is a solver variable; a dictionary of complete fetches and the present contents of the server is the oracle.')

prop('T01', 'TOML is read and written with the meaning the format gives it',
     'Any data written as TOML (tables, lists and scalars nested in any way, strings and keys of any characters) is valid TOML that '
     'reads back equal. Any TOML document is read, without hanging, as the data that the format says it means, wherever comments, '
     'blank lines and dotted, inline or repeated tables occur, and is written back with that same meaning.',
     ['inputs'], 'strings and keys of four (thorough: six) characters of any kind that TOML treats specially, data nested two deep, texts '
     'of five (six) characters at fifteen places of documents, documents of any four (five) lines of eleven forms',
     'the tests of the parser read a handful of documents',
     ['pkm/src/pkm/config/toml.py', 'pkm/src/pkm/utils/parsers.py'],
     [('reading', '_TomlParser'), ('writing', '_Writer'), ('entry points', 'loads, dumps')],
     'The characters of strings, keys and documents are symbolic; the parser of the standard library is executed symbolically '
     'on the same text and is the oracle.')

prop('T02', 'Editing a TOML file changes only what was edited',
     'When a TOML document is loaded, edited in any place (a value, list or table set, added or removed) and saved, it means exactly '
     'the edited data, and the comments and the spelling of everything that was not edited are still there, once each. Without an edit '
     'nothing but white space changes, and saving again changes nothing at all.',
     ['inputs', 'histories'], 'documents of up to two (thorough: three) values of eight forms under up to two headers of five forms, with comments '
     'everywhere; any edit of any place to any of six kinds of values',
     'pyproject.toml files are edited by users and by pkm; the tests compare two fixed documents',
     ['pkm/src/pkm/config/toml.py', 'pkm/src/pkm/config/configfiles.py'],
     [('styles', '_StyleSheet, _Writer'), ('files', 'TomlConfigIO.write, read')],
     'The forms of all lines, the place and the kind of the edit are symbolic choices; comments and spellings carry unique marks that are '
     'looked for in the result.')

prop('J01', 'A project says what its pyproject.toml says',
     'The fields, tables, people, texts, entry points and (optional) requirements of a pyproject.toml have the meaning PEP 621 gives them, '
     'e.g. an optional requirement is made exactly when its extra is asked for and its own marker holds. Loading, editing and saving the file '
     'keeps that meaning except for the edit, including tables and fields pkm does not know, and saving again changes nothing.',
     ['inputs'], 'texts of up to two (thorough: three) characters in every field, up to two of each repeated field, two requirements with markers over '
     'any python minor version, every combination of the known and unknown tables; files with two fields and an edit',
     'the tests load one project',
     ['pkm/src/pkm/api/projects/pyproject_configuration.py', 'pkm/src/pkm/config/configclass.py'],
     [('configuration', 'PyProjectConfiguration, ProjectConfig, ContactInfo, TextOrFile'), ('codec', 'ConfigCodec.parse, ConfigCodec.unparse'),
      ('requirements', 'ProjectConfig.all_dependencies'), ('entry points', 'ProjectConfig.entry_points')],
     'Texts are symbolic, shapes are symbolic choices; the harness gives every document its meaning independently and compares.')

prop('M01', 'Metadata describes the project',
     'The metadata made from a project has all its authors and maintainers as PEP 621 spells them, its summary, description, keywords, classifiers, urls, '
     'required python, extras and requirements with the same applicability. Written to a METADATA file it is read back unchanged by any '
     'reader, however long or quoted or non-ASCII the values are.',
     ['inputs'], 'names of up to two (thorough: three) characters including all that need quoting, every field, two requirements with markers; '
     'files of one or two fields with long, non-ASCII and quoted values',
     'the tests do not create metadata',
     ['pkm/src/pkm/api/packages/package_metadata.py', 'pkm/src/pkm/api/projects/pyproject_configuration.py'],
     [('from projects', 'PackageMetadata.from_project_config'), ('files', 'PackageMetadataIO.write, PackageMetadataIO.read')],
     'Field values are symbolic; PEP 621 is restated as an oracle, and the message parser of the standard library reads the files.')

prop('M02', 'Distributions contain the project',
     'A wheel built from a project contains exactly the files of its packages, the metadata, license and entry points, and a record with the right hash and size of each; '
     'its name lets every interpreter that the project allows use it. A source distribution contains what is needed '
     'to build the same wheel again, an editable wheel links to the packages, and building leaves the project as it is.',
     ['inputs'], 'src, flat and listed layouts with one or two packages, three versions, readme, license and entry points of every form, surrounded by '
     'things that are not packages; required python versions from 2.0 to 4.12',
     'the tests build no project',
     ['pkm/src/pkm/build/pkm_builders.py', 'pkm/src/pkm/api/projects/project.py', 'pkm/src/pkm/api/distributions/wheel_distribution.py'],
     [('building', 'build_wheel, build_sdist'), ('packages', 'ProjectDirectories.create'), ('names', 'WheelDistribution.expected_wheel_file_name'),
      ('links', 'PthLink.save')],
     'The options of the project are symbolic choices and required versions are symbolic numbers; the archives are read by the standard library and compared with the project.')

prop('E01', 'Entry points are run as they are declared',
     'Entry points and object references, written by pkm or by others, are read with the meaning of their specification, and what is written is read back unchanged. '
     'The executable made for an entry point runs the referenced function exactly once with the interpreter of its environment and exits with its result, on every platform. '
     'Scripts of wheels are pointed at that interpreter with the rest of their content unchanged; records and links survive a round trip.',
     ['inputs'], 'references of up to four (thorough: five) characters between fixed ends, files of one or two entry points with names of any characters, '
     'nine kinds of script content, two records, every combination of platform, architecture and kind of script',
     'the tests do not touch entry points',
     ['pkm/src/pkm/utils/entrypoints.py', 'pkm/src/pkm/launchers/executables.py', 'pkm/src/pkm/api/distributions/distinfo.py', 'pkm/src/pkm/api/distributions/pth_link.py'],
     [('references', 'ObjectReference.parse, import_object, execution_script_snippet'), ('files', 'EntrypointsConfiguration, RecordsFileConfiguration, PthLink'),
      ('executables', 'Executables.generate_for_entrypoint, patch_shabang_for_interpreter, build_windows_script_launcher')],
     'References are symbolic strings compared with a restated grammar; scripts and launchers are produced by the real code for symbolic platforms and then executed or unpacked.')

prop('J02', 'Commands change of a project what they are asked to',
     'Installing into a project adds exactly the requested requirements, with their extras and markers and admitting what was installed, to its file and lock when the installation '
     'succeeds, and changes nothing when it fails; uninstalling removes them. Version bumps are seen alike by the project, its metadata and its file. Groups have the projects that they list or '
     'are given, cleaning removes only artifacts that are not kept, and a project uses the environment it is configured to without deleting files that belong to none.',
     ['inputs', 'histories', 'faults'], 'three projects, eight requests, six kinds of installed versions, failures; two (thorough: three) bumps; two projects and a nested group in '
     'three layouts with two edits; every form of environment configuration and of what is found there',
     'the tests change no project',
     ['pkm/src/pkm/api/projects/project.py', 'pkm/src/pkm/api/projects/project_group.py', 'pkm-cli/src/pkm_cli/controllers/prj_controller.py'],
     [('controller', 'PrjController.install_dependencies, uninstall_dependencies'), ('project', 'Project.bump_version, attached_environment, ProjectDirectories.clean_dist'),
      ('groups', 'ProjectGroup.children, parent, root, add, remove')],
     'Requests, contents, histories and failures are symbolic choices; the environment is a recording stand-in, files are real and read back by the standard library.')

prop('C01', 'What threads share works as if they took turns',
     'Whatever the interleaving, a promise is completed once, all who wait for it get its result or failure, every callback runs exactly once, and nobody waits for ever. '
     'When one of several operations fails, the failure is reported only after the others have ended or been kept from beginning. '
     'A cached property is computed once for each instance and gives all threads the same value.',
     ['schedules', 'faults'], 'up to four threads (two or three operations) with one (two small cases: two, thorough: two or three) preemptions at any line of the code, '
     'besides the switches at blocking points',
     'the tests run one thread',
     ['pkm/src/pkm/utils/promises.py', 'pkm/src/pkm/utils/properties.py'],
     [('promises', 'Deferred, Promise.when_completed, result, await_all_promises_or_cancel'), ('properties', 'cached_property')],
     'The lines at which threads are preempted are symbolic numbers: the real functions run under a scheduler that asks the solver at every line and every lock operation.')

prop('A01', 'Commands run with the variables of their environment',
     'While an environment is active its scripts come first on the path and it is the current virtual environment; afterwards, also after failures and when nested, the variables are what they were. '
     'A command started in an environment gets its arguments and exactly these variables over the requested ones or its own, without changing those of the caller. '
     'Every line of its output and its exit code are told, whatever the encoding.',
     ['inputs', 'faults'], 'every set of variables with texts of up to two (thorough: three) characters, up to two (three) lines of output of seven kinds',
     'the tests start no commands',
     ['pkm/src/pkm/api/environments/environment.py', 'pkm/src/pkm/utils/processes.py'],
     [('activation', 'Environment.activate'), ('commands', 'Environment.run_proc, exec_proc, monitored_run')],
     'Variables are symbolic texts that may be absent; processes are stand-ins with symbolic output and exit codes.')

prop('K01', 'A command line means what the commands define',
     'A line of words is understood exactly as the definitions of the commands say, or is refused without anything being run: every option, flag, field, positional and sub-command gets the text '
     'that was written for it, whatever that text is, what is not given has its default, and nothing is dropped. '
     'The contexts of parent commands are open while a command runs and closed afterwards, also when it fails. Commands made of functions call them with what was given.',
     ['inputs', 'faults'], 'six layouts of commands; up to three (thorough: four) words of up to three characters, and lines of up to four (five) items with symbolic values; '
     'three commands below each other; functions of four and fields of one signature',
     'the tests of the command line do not run: they use a method that no longer exists',
     ['pkm-cli/src/pkm_cli/api/dynamic_cli/command_parser.py', 'pkm-cli/src/pkm_cli/api/dynamic_cli/method_parser.py'],
     [('parser', 'DynamicCommandLine.parse, ArgumentsBuffer, ArgumentReader'), ('execution', 'Command.execute'), ('functions', 'command_definition_from_method, fields_from_method')],
     'Words are symbolic texts; a second parser, written from the definitions, says what they mean.')

prop('U01', 'Publishing uploads each distribution whole',
     'Publishing uploads exactly the distributions of the version, each in a complete form with its bytes, digests, tags and the metadata of the project, with the credentials and to the chosen '
     'repository only. It succeeds if and only if the repository accepts, also when a connection breaks and the upload is repeated. '
     'Credentials that are stored are found again with the password that protects them, and not with another one.',
     ['inputs', 'faults'], 'three kinds of distributions, six contents around the block size, eight kinds of answers, a connection that breaks at any write; '
     'forms of two fields read in any pieces; up to three edits of the stored credentials',
     'the tests publish nothing',
     ['pkm/src/pkm/repositories/pypi_repository.py', 'pkm/src/pkm/utils/http/mfd_payload.py', 'pkm/src/pkm/api/projects/project.py', 'pkm-cli/src/pkm_cli/controllers/prj_controller.py',
      'pkm-cli/src/pkm_cli/auth/publish_auth_store.py'],
     [('upload', 'PyPiPublisher.publish, MultipartFormDataPayload'), ('project', 'Project.publish'), ('command', 'PrjController.publish'), ('credentials', 'PublishAuthenticationStore')],
     'Answers, faults, contents and credentials are symbolic choices; the server is a stand-in behind the real HTTP client, and forms are read by a parser of the harness.')

prop('S02', 'Source distributions are built as their build backend says',
     'A source distribution is built with exactly the requirements that it declares and the hooks of its backend, with its directory as the working directory, and with the fallbacks of the standard. '
     'What was built for an archive and an environment is used again for those only and is whole, also after a failure or an interruption at any point. '
     'Requirements that need each other to be built are refused, and unpacking writes nothing outside of its directory.',
     ['inputs', 'histories', 'faults'], 'every outcome of both hooks of four kinds; up to three (thorough: four) requests for two archives and two environments; one failing file operation; '
     'three source distributions that need each other in any way; names in archives of up to four (five) characters',
     'the tests build nothing from sources',
     ['pkm/src/pkm/build/external_builders.py', 'pkm/src/pkm/build/source_build_cache.py', 'pkm/src/pkm/api/distributions/source_distribution.py', 'pkm/src/pkm/utils/archives.py'],
     [('hooks', 'build_wheel, build_sdist, _exec_build_cycle_script'), ('cache', 'SourceBuildCache.get_or_build_meta, get_or_build_wheel'), ('archives', 'extract_archive')],
     'Outcomes of hooks, histories and the failing file operation are symbolic; builds run in stand-ins for environments that record what is asked of them.')

prop('S01', 'Packages that environments share work as if each had its own',
     'In a zoo that shares packages, each environment has exactly the packages it was asked for, with the same files, scripts, requests and metadata as without sharing, and changes in one environment '
     'are not seen in another. Packages that cannot be shared, or are excluded, are copied; an interrupted operation leaves all environments as they were or as they should be, and what nobody uses can be '
     'collected. New environments are described in the standard form.',
     ['inputs', 'histories', 'faults'], 'three (thorough: four) operations on two environments for six kinds of packages; one of 36 file operations failing, before or half way; '
     'four sets of extras; platforms and interpreters of new environments; contents of zoos',
     'the tests create no zoo',
     ['pkm/src/pkm/repositories/shared_pacakges_repo.py', 'pkm/src/pkm/api/environments/environments_zoo.py', 'pkm/src/pkm/api/environments/environment_builder.py',
      'pkm/src/pkm/api/repositories/repository_management.py'],
     [('sharing', 'SharedPackagesRepository, _SharedPackageArtifacts'), ('zoo', 'EnvironmentsZoo'), ('creation', 'EnvironmentBuilder, PyVEnvConfiguration')],
     'Operations, kinds of packages and the failing file operation are symbolic choices; files are real, and compared with those of an environment of its own.')

prop('K02', 'Commands work where they are asked to and install what is asked',
     'A command works on the nearest project, group, environment or zoo that it supports above the working directory, or exactly on the one that is selected by the options, and otherwise it is refused. '
     'Installing binds, removes and installs exactly the named packages with the chosen mode, repository, site and group, in the order that makes a forced install effective, inside the tasks of the project. '
     'What is refused changes nothing and ends with an error.',
     ['inputs'], 'two (thorough: three) directories in each other of seven kinds; all sets of handlers and options; up to two (three) packages with all sets of options of the install command',
     'the tests of the command line do not run',
     ['pkm-cli/src/pkm_cli/main.py', 'pkm-cli/src/pkm_cli/utils/context.py'],
     [('context', 'Context.of, Context.run'), ('install', 'pkm_install'), ('entry', 'main')],
     'Directories and options are symbolic choices; the whole command line runs on stand-ins of projects and environments that record what is asked of them.')

prop('X01', 'Templates become the files they describe and replace nothing unasked',
     'Rendering a template writes exactly the files that it describes, with names and texts filled in, without what is ignored and with preserved directories as they are, whatever else is in it, '
     'and nothing outside of the target directory. Without being asked to overwrite, it replaces nothing and changes nothing when any of its files is there already. '
     'Templates get the arguments of the command line, and new projects have what was answered.',
     ['inputs'], 'all sets of five parts of a template with ignored names at two levels, seven values of a name, both orders of names; any one file that is there in five ways; '
     'four template names at three places; six texts as description and author',
     'the tests render no template',
     ['pkm-cli/src/pkm_cli/api/templates/template_runner.py', 'pkm-cli/src/pkm_templates/project'],
     [('rendering', 'Template.execute, _render, _load_ignored_files'), ('lookup', 'TemplateRunner.load_template'), ('command', 'Template.as_command')],
     'The parts of templates, values and what is there already are symbolic choices; the real code renders them, and a restated description says which files are to be there. '
     'The template engine itself runs on concrete texts.')
