#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=(),state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],hook_needed=None)))

SQ="pkg/squash/"
p("L01","Squashing layers preserves what extracting them in order would produce",
  "Extracting a squashed layer on top of any base filesystem whose own symlinks the layers do not write through gives the same tree (paths, types, contents, link targets, modes, owners) as extracting the original layers one after another on that base. This covers files, directories and symlinks replacing one another, deletion whiteouts, opaque-directory whiteouts, and entries written through directory symlinks created by the same set of layers. A layer that names something outside the image root is refused.",
  ["inputs","histories"],"every list of layers, every base filesystem","the squash tests are a handful of fixed layer lists; the claim quantifies over all sequences of entries and all bases",
  [SQ+"squash.go",SQ+"vfs.go",SQ+"readlayer.go"],[("loadLayers/fsfile.Set","pkg/squash/vfs.go"),("Squash","pkg/squash/squash.go")],["squash.Squash"])
p("L02","A squashed layer is canonical and reproducible",
  "The squashed layer lists every path at most once, under a clean relative name, with a directory's own entry before anything inside it and entries in one fixed sorted order. The result depends only on the input layers: repeating the squash gives an identical layer, and squashing an already squashed layer changes nothing.",
  ["inputs","schedules"],"every list of layers, every map iteration order","one run sees one map iteration order",
  [SQ+"squash.go",SQ+"vfs.go"],[("sorted emission","pkg/squash/squash.go"),("WriteTo","pkg/squash/vfs.go")],["squash.Squash"])
p("L03","Squash rejects or contains hostile entries and always terminates",
  "Whatever entry names and symlink targets the input layers contain, squashing and loading return (a result or an error) without crashing, looping or exhausting the stack, and the output never contains an entry that is absolute or climbs out of the layer root with '..'.",
  ["inputs"],"every entry name and link target","tests use benign names; cyclic and escaping links are not sampled",
  [SQ+"vfs.go",SQ+"readlayer.go"],[("symlink resolution in fsfile.Get","pkg/squash/vfs.go")],["squash.Squash","squash.Load"])
p("L04","The merged filesystem view agrees with the layers it was loaded from",
  "A filesystem loaded from layers shows exactly the tree that extracting the layers in order produces: a path opens if and only if it exists there, with that file's content, mode and size; directory listings name exactly the children; removed paths do not appear.",
  ["inputs","histories"],"every list of layers, every queried path","the tests exercise one image",
  [SQ+"vfs_fs.go",SQ+"vfs.go"],[("fsfile as fs.FS","pkg/squash/vfs_fs.go")],["squash.Load"])
p("L05","A directory layer records every file faithfully with the requested metadata",
  "The layer made from a directory (named directly or through a link) contains each file, directory and symlink of that directory exactly once, under the requested prefix, with its content, type and mode, and names of one file (hard links) stay names of one file; no timestamp is later than the clamp time, earlier timestamps are kept (at the archive's one-second resolution), the requested ownership is on every entry, and the prefix directories carry the requested prefix mode and ownership.",
  ["inputs","configurations"],"every directory tree, clamp time, prefix and ownership setting","no tests exist for this package",
  ["pkg/dir/dir.go"],[("LayerFromDir","pkg/dir/dir.go")],["dir.LayerFromDir"])
p("L06","A file-list layer is complete, sorted, clamped and order-independent",
  "A layer generated from a list of files contains each of them exactly once with its content and header, parents before children in a total path order independent of the order of the input list, and with no timestamp later than the clamp time and earlier ones kept (at the archive's one-second resolution).",
  ["inputs"],"every file list, every clamp time, every input order","no tests exist for this package",
  ["pkg/fsutil/open.go","pkg/fsutil/fileref.go"],[("LayerFromFileReferences","pkg/fsutil/open.go")],["fsutil.LayerFromFileReferences"])
p("L07","Layer comparison ignores timestamps and nothing else",
  "Two layers compare equal exactly when they have the same sequence of entries with the same headers apart from timestamps and the same contents; the comparison is symmetric, and any difference in name, type, mode, owner, link target, size, order, count or content makes it unequal.",
  ["inputs"],"every pair of layers","the comparison is only used by other tests, always on equal layers",
  ["pkg/fsutil/diff.go"],[("LayersEqualExceptTimestamps","pkg/fsutil/diff.go")],["fsutil.LayersEqualExceptTimestamps"])
V="pkg/python/pep440/"
p("V01","Version comparison is the PEP 440 total order",
  "Comparing two versions gives the order PEP 440 defines (epoch, zero-padded release, dev/pre/post phases, local labels), for all components and lengths; it is antisymmetric, transitive and total, and zero exactly for versions PEP 440 calls equal.",
  ["inputs"],"every pair and triple of versions","tests compare lists of sample versions",
  [V+"01_version_scheme.go"],[("Version.Cmp","pkg/python/pep440/01_version_scheme.go")],["pep440.Version.Cmp"])
p("V02","Parsing a version is inverse to printing it, and normalises per PEP 440",
  "Every string PEP 440 accepts as a version (including alternate spellings, separators, case and leading zeros) parses to the version it denotes and prints in normal form; printing any version and parsing it back gives an equal version; every other string is an error.",
  ["inputs"],"every input string, every version value","tests sample a few strings",
  [V+"03_tail.go",V+"01_version_scheme.go"],[("ParseVersion","pkg/python/pep440/03_tail.go"),("Version.String","pkg/python/pep440/01_version_scheme.go")],["pep440.ParseVersion","pep440.Version.String"])
p("V03","Specifier clauses match exactly the versions PEP 440 says they match",
  "For every clause operator (~=, ==, ==X.*, !=, !=X.*, <=, >=, <, >) and every version, the clause matches exactly when PEP 440's rule for that operator says so ('<V' going by version order alone: the repository's tests have '<1.7' match 1.7a1), and a list of clauses matches exactly when all of them do.",
  ["inputs"],"every clause and candidate version","tests sample a table of clause/version pairs",
  [V+"02_version_specifiers.go"],[("SpecifierClause.Match","pkg/python/pep440/02_version_specifiers.go")],["pep440.Specifier.Match"])
p("V04","Specifier strings parse to what they say and round-trip",
  "A specifier string parses to the clauses written in it, each with its operator and its whole version; printing a parsed specifier and parsing it again gives the same specifier; malformed clauses are errors.",
  ["inputs"],"every specifier string","tests sample a table of strings",
  [V+"02_version_specifiers.go"],[("parseSpecifierClause","pkg/python/pep440/02_version_specifiers.go"),("SpecifierClause.String","pkg/python/pep440/02_version_specifiers.go")],["pep440.ParseSpecifier","pep440.Specifier.String"])
p("V05","Version selection returns the best permitted match",
  "Selecting from a list of candidate versions returns the highest version that satisfies the specifier and that the exclusion policy (pre-releases, yanked files) permits (a version counts as yanked when all its files are); only if no permitted version matches does it fall back to the highest match the policy excluded, and it returns nothing when nothing matches; the order of the candidates does not matter.",
  ["inputs","configurations"],"every specifier, candidate list, and exclusion policy","tests do not cover exclusion with mixed candidates",
  [V+"02_version_specifiers.go","pkg/python/pep592/yank.go"],[("Specifier.Select","pkg/python/pep440/02_version_specifiers.go"),("ExcludeYanked","pkg/python/pep592/yank.go")],["pep440.Specifier.Select"])
p("V06","Requires-Python specifiers are evaluated per PEP 345",
  "A Python version satisfies a PEP 345 version specifier exactly when every comma-separated comparison holds, where a bare version means equality of the written components, so that '2.5' covers 2.5.x.",
  ["inputs"],"every specifier and interpreter version","tests sample a table",
  ["pkg/python/pep345/metadata.go"],[("HaveRequiredPython","pkg/python/pep345/metadata.go")],["pep345.HaveRequiredPython"])
p("V07","Wheel tag support and preference follow PEP 425",
  "A wheel is supported by an installer exactly when one of the tags its compressed tag set expands to is in the installer's list, and its preference is the position of the best such tag; a tag prints and parses back to itself.",
  ["inputs"],"every tag set and installer list","no tests exist for this package",
  ["pkg/python/pep425/tags.go"],[("Installer.Supports/Preference","pkg/python/pep425/tags.go")],["pep425.Installer.Supports","pep425.Installer.Preference"])
B="pkg/python/pypa/bdist/"
p("W01","Wheel file names round-trip and build tags sort correctly",
  "Parsing a wheel file name yields the distribution, version, optional build tag and compatibility tag it encodes, generating a name from those parts and parsing it back returns the same parts, other strings are errors, and build tags order by number, then by suffix, with no tag lowest.",
  ["inputs"],"every file name and every name component","no tests cover file names",
  [B+"binary_distribution_format.go"],[("ParseFilename/GenerateFilename/BuildTag.Cmp","pkg/python/pypa/bdist/binary_distribution_format.go")],["bdist.ParseFilename","bdist.GenerateFilename"])
p("W02","A wheel installs only if every file matches its RECORD",
  "Installing a wheel succeeds only if every file in the archive other than RECORD and its signatures is listed in RECORD with a strong hash that matches the content that gets installed, and every listed file is present; any missing, extra, duplicated or altered file makes the installation fail.",
  ["inputs"],"every wheel archive","tests install well-formed wheels only",
  [B+"binary_distribution_format.go"],[("integrityCheck","pkg/python/pypa/bdist/binary_distribution_format.go")],["bdist.InstallWheel"])
p("W03","Installing a wheel never places anything outside the install locations",
  "Whatever the names inside a wheel, an installation either fails or produces only entries below the platform's configured install directories, with clean relative names, and touches no host path outside its scratch directory.",
  ["inputs"],"every wheel archive and install scheme","hostile wheels are not sampled",
  [B+"binary_distribution_format.go"],[("installToVFS","pkg/python/pypa/bdist/binary_distribution_format.go")],["bdist.InstallWheel"])
p("W04","Every wheel file lands at the place its category prescribes",
  "After installing a well-formed wheel (no two files with one destination) each archive file is present exactly once with its content: root files under purelib or platlib as the wheel declares, and each data-directory file under the location of its category; the result includes a directory entry for each new parent directory, the compiler is given exactly the installed Python source files (never directories, whatever they are called), and the result does not depend on map iteration order.",
  ["inputs","schedules","configurations"],"every well-formed wheel and install scheme","tests install a few wheels",
  [B+"binary_distribution_format.go"],[("spread","pkg/python/pypa/bdist/binary_distribution_format.go")],["bdist.InstallWheel"])
p("W05","Installed files get fixed ownership, sane modes and clamped timestamps",
  "Every installed entry is owned by the platform's configured user and group, is readable by all and writable by its owner only, is executable exactly when the archive marks it executable or it is a generated or rewritten script, and has a timestamp within the requested minimum and maximum (when the minimum is not later than the maximum).",
  ["inputs","configurations"],"every wheel and platform","tests install a few wheels",
  [B+"binary_distribution_format.go",B+"ioutil.go"],[("InstallWheel","pkg/python/pypa/bdist/binary_distribution_format.go")],["bdist.InstallWheel"])
p("W06","The installed RECORD lists exactly the installed files",
  "After installation the RECORD file lists every installed file exactly once with its correct hash and size (its own entry and compiled files without; a script whose interpreter line was rewritten keeps the hash and size the wheel recorded, as pip does), with paths that resolve to the file, the INSTALLER file names the tool, and the lines are in a fixed order.",
  ["inputs","configurations"],"every wheel and platform","tests install a few wheels",
  ["pkg/python/pypa/recording_installs/recording_installs.go","pkg/python/pep376/requested.go"],[("Record","pkg/python/pypa/recording_installs/recording_installs.go")],["recording_installs.Record"])
p("W13","Wheels that the installer cannot fully understand are refused",
  "A wheel is installed only if it has exactly one top-level .dist-info directory, holding a WHEEL file with a valid format version whose major number is not above 1 and a RECORD file; post-install hooks run once each, in order, on the installed files, and the first failing hook fails the whole installation.",
  ["inputs","fault_sequences"],"every wheel archive, format version and hook outcome","tests install well-formed wheels only",
  [B+"binary_distribution_format.go",B+"misc.go"],[("parseDistInfoWheel","pkg/python/pypa/bdist/binary_distribution_format.go"),("distInfoDir","pkg/python/pypa/bdist/misc.go"),("PostInstallHooks","pkg/python/pypa/bdist/misc.go")],["bdist.InstallWheel"])
p("W07","Entry points become working launcher scripts",
  "Each console or GUI entry point of a wheel becomes one executable script with the entry point's name in the scripts directory, starting with the matching interpreter line and importing and calling exactly the referenced object (including dotted object paths); wheels without entry points are unchanged.",
  ["inputs","configurations"],"every entry_points file","no tests exist for this package",
  ["pkg/python/pypa/entry_points/entry_points.go"],[("CreateScripts","pkg/python/pypa/entry_points/entry_points.go")],["entry_points.CreateScripts"])
p("W08","Script interpreter lines are rewritten without altering anything else",
  "An installed script whose first line asks for python or pythonw gets that interpreter replaced by the platform's console or graphical interpreter, and everything after the marker is kept byte for byte with the recorded size matching the content; every other script is unchanged.",
  ["inputs","configurations"],"every script content","tests install a few wheels",
  [B+"binary_distribution_format.go"],[("rewritePython/shebang","pkg/python/pypa/bdist/binary_distribution_format.go")],["bdist.InstallWheel"])
p("W09","Configuration files parse as Python's ConfigParser parses them",
  "Parsing a configuration file gives the sections, keys and values Python's ConfigParser would give, including comments, continuation lines, delimiters and whitespace, and reports an error where Python does. Interpolation and the DEFAULT section are not part of this.",
  ["inputs"],"every file content","tests sample a few files",
  ["pkg/python/configparser.go"],[("ConfigParser.Parse","pkg/python/configparser.go")],["python.ConfigParser.Parse"])
p("W10","File modes and ZIP attributes convert without loss",
  "Converting a Unix mode to the Go representation and back, or ZIP external attributes to their parsed form and back, returns the original, for everything both representations can express; permission, setuid, setgid, sticky and file-type bits map to their counterparts; the text form equals Python's; and attribute constants equal the Windows values.",
  ["inputs"],"all 2^32 attribute words and 2^16 modes","tests use random sampling on some of the conversions",
  ["pkg/python/stat.go","pkg/python/zip.go"],[("StatMode.ToGo/ModeFromGo","pkg/python/stat.go")],["python.StatMode","python.ZIPExternalAttributes"])
p("R01","A downloaded file is returned only if its checksum matches",
  "Fetching a file whose link carries a checksum of a supported algorithm returns the body only if the body has that checksum; any mismatch, malformed checksum, unreadable fragment, transport failure or error status gives an error and no content. Fragment parts that name no supported algorithm are ignored.",
  ["inputs","fault_sequences"],"every link fragment, body and server response","no tests exist for this package",
  ["pkg/python/pep503/simple_repo_api.go"],[("Client.get/checksum","pkg/python/pep503/simple_repo_api.go")],["pep503.FileLink.Get"])
p("R02","Package listings request the normalised name and report the page's links",
  "Listing a package's files requests the project URL (ending in a slash) under its PEP 503 normalised name below the index URL, whose other parts are kept as they are (names with illegal characters are refused without a request), and returns one entry per anchor with its text, absolute URL and data attributes, dropping exactly those whose Requires-Python excludes the configured interpreter.",
  ["inputs"],"every package name and index page","no tests exist for this package",
  ["pkg/python/pep503/simple_repo_api.go"],[("ListPackageFiles","pkg/python/pep503/simple_repo_api.go")],["pep503.Client.ListPackageFiles"])
p("R03","Wheel selection picks the best compatible file",
  "Selecting a wheel returns a compatible file of the best matching version: non-yanked files come before yanked ones, versions that are equal however they are spelled count as one, and within the version the most specific tag wins and then the highest build tag, independent of listing order; it fails if no compatible file matches.",
  ["inputs"],"every file listing, specifier and installer","no tests exist for this package",
  ["pkg/python/pypa/simple_repo_api/pypa_repo_api.go"],[("SelectWheel","pkg/python/pypa/simple_repo_api/pypa_repo_api.go")],["simple_repo_api.Client.SelectWheel"])
p("R04","Unsupported repository API versions are refused",
  "A page declaring a repository version with a newer major number than supported is an error, a newer minor number is accepted, a page without a declaration counts as 1.0, and a malformed declaration is an error.",
  ["inputs"],"every index page","no tests exist for this package",
  ["pkg/python/pep629/simple_api_versions.go"],[("HTMLVersionCheck","pkg/python/pep629/simple_api_versions.go")],["pep629.HTMLVersionCheck"])
p("R05","A signature is fetched from next to the file it signs",
  "Fetching a file's signature requests the file's URL with '.asc' appended (its fragment dropped) and returns that body; a link declaring that there is no signature gives the no-signature error without a request, a missing signature gives it too unless the link declares one, and every other failure is an error.",
  ["inputs","fault_sequences"],"every link, attribute value and server response","no tests exist for this package",
  ["pkg/python/pep503/simple_repo_api.go"],[("FileLink.GetSignature","pkg/python/pep503/simple_repo_api.go")],["pep503.FileLink.GetSignature"])
p("I01","Image configuration overrides change exactly the requested fields",
  "Applying configuration overrides to an image sets exactly the fields the user gave (entrypoint, command, working directory, environment additions), keeps all others from the base, and counts as empty exactly when nothing was given.",
  ["inputs","configurations"],"every combination of overrides and base configuration","no tests exist for the command",
  ["cmd_image_build.go"],[("configFlags.ApplyTo","cmd_image_build.go")],["ocibuild image build"])
p("I02","The reproducible clock is fixed by SOURCE_DATE_EPOCH and never changes",
  "If SOURCE_DATE_EPOCH is set to an integer, the build time is that instant; otherwise it is the time of the first request, and in both cases every later request in the process returns the same instant.",
  ["inputs","histories"],"every value of the variable, every clock reading","no tests exist for this package",
  ["pkg/reproducible/source_date_epoch.go"],[("Now","pkg/reproducible/source_date_epoch.go")],["reproducible.Now"])
p("I03","Interpreter lookup in an image follows the image's PATH and links",
  "Looking up a command in an image returns the first executable non-directory of that name along the image's PATH (an empty PATH element being the working directory), resolving names containing a slash directly, following links inside the image, and fails if there is none.",
  ["inputs","configurations"],"every image tree and PATH","no tests exist for this package",
  ["pkg/python/pyinspect/fs_image.go"],[("ImageFS.LookPath","pkg/python/pyinspect/fs_image.go")],["pyinspect.ImageFS.LookPath"])
p("I04","A built image is the base's layers followed by the given ones",
  "Building an image writes an image archive whose layers are the base image's layers in order followed by the given layer files in argument order, under the requested tag; a missing or unreadable base image, layer or configuration, or an invalid tag, is an error and not a crash.",
  ["inputs","fault_sequences","configurations"],"every base, list of layers and tag","no tests exist for the command",
  ["cmd_image_build.go","pkg/fsutil/open.go"],[("image build RunE","cmd_image_build.go")],["ocibuild image build"])
p("I05","The interpreter pair found in an image names the right commands",
  "The console interpreter is the command found on the image's PATH unless that is a windowed one (named pythonw...) with an executable console sibling in its directory, and the graphical interpreter is the executable windowed sibling if there is one and the found command otherwise; a command that is not found is an error.",
  ["inputs","configurations"],"every image tree, PATH and command name","no tests exist for this package",
  ["pkg/python/pyinspect/pyinspect.go","pkg/python/pyinspect/fs_image.go"],[("Shebangs","pkg/python/pyinspect/pyinspect.go")],["pyinspect.Shebangs"])
p("I06","Rebuilding a Go layer into an existing file only touches it on a real change",
  "With an output file given, the Go layer command leaves an existing layer file that differs from the new layer only in timestamps untouched, and replaces every other existing content (or creates the file) with exactly the new layer.",
  ["inputs","histories"],"every previous content of the output file","no tests exist for the command",
  ["cmd_layer_gobuild.go"],[("layer gobuild RunE","cmd_layer_gobuild.go")],["ocibuild layer gobuild --output"])
p("I07","The layer commands write the layer their arguments describe",
  "The squash command writes the squashed layer of its arguments (files or pipes) in order, and the directory command writes the directory's layer with the prefix and owner its flags give and no timestamp later than SOURCE_DATE_EPOCH; an unreadable input is an error.",
  ["inputs","configurations"],"every argument list and flag value","no tests exist for the commands",
  ["cmd_layer_squash.go","cmd_layer_dir.go"],[("layer squash RunE","cmd_layer_squash.go"),("layer dir RunE","cmd_layer_dir.go")],["ocibuild layer squash","ocibuild layer dir"])
p("R06","The download command prints exactly the verified file it was asked for",
  "The getwheel command prints exactly the checksum-verified content of the link whose text is the given wheel file name; if no such link exists, the name is not a wheel file name, or the download fails or does not match, it is an error and prints nothing.",
  ["inputs","fault_sequences"],"every file name, listing and server response","no tests exist for the command",
  ["cmd_python_getwheel.go"],[("python getwheel RunE","cmd_python_getwheel.go")],["ocibuild python getwheel"])
p("V08","An interpreter's version_info becomes the PEP 440 version it means",
  "Converting a Python interpreter's version information gives the PEP 440 version with its major, minor and micro number and its alpha, beta or candidate phase with its serial number (none for a final release), and an unknown release level is an error.",
  ["inputs"],"every version_info","no tests exist for this",
  ["pkg/python/platform.go"],[("VersionInfo.PEP440","pkg/python/platform.go")],["python.VersionInfo"])
p("W11","A platform description is completed or refused",
  "Validating a platform description fills a missing console or graphical interpreter from the other one, changes nothing else that was given, and is an error when neither is given or a given installation path is not absolute.",
  ["inputs","configurations"],"every platform description","no tests exist for this",
  ["pkg/python/platform.go"],[("Platform.Init","pkg/python/platform.go")],["python.Platform.Init"])
p("W12","Bytecode compilation sees exactly the sources and returns exactly the results",
  "The external bytecode compiler is run on exactly the given Python sources (same content and modification times) with a fixed hash seed and the build time, and the files it produced are returned under the place they belong to and nothing else; if it fails, so does the compilation, and its scratch files are removed either way; an empty or unknown compiler command is an error.",
  ["inputs","fault_sequences"],"every set of sources, clamp time and compiler outcome","tests need a python interpreter",
  ["pkg/python/py_compile.go"],[("ExternalCompiler","pkg/python/py_compile.go")],["python.ExternalCompiler"])
p("L08","A Go layer holds exactly the built binaries",
  "Building a Go layer runs the Go tool for linux/amd64 with trimmed paths on exactly the given packages, and the layer holds exactly the binaries it wrote, under usr/local/bin, owned by root, with no timestamp after the clamp time; a failing build is an error.",
  ["inputs","fault_sequences"],"every set of packages and binaries","tests need a Go toolchain",
  ["pkg/gobuild/gobuild.go"],[("LayerFromGo","pkg/gobuild/gobuild.go")],["gobuild.LayerFromGo"])
p("W14","The recorded origin is exactly the one the caller gave",
  "When an install is recorded with a direct URL, direct_url.json holds a JSON object with exactly the given URL and the given VCS, archive or directory information (optional members only when set), is owned like the other installed files and listed in RECORD; without one no such file is added.",
  ["inputs","configurations"],"every direct URL and its parts","the tests compare a few real wheels with pip, which records no origin",
  ["pkg/python/pypa/recording_installs/recording_installs.go","pkg/python/pypa/direct_url/direct_url.go"],[("Record","pkg/python/pypa/recording_installs/recording_installs.go"),("DirectURL","pkg/python/pypa/direct_url/direct_url.go")],["recording_installs.Record"])
p("W15","The wheel command installs exactly per the platform file, or prints nothing",
  "The wheel command writes the layer of the wheel installed into the platform file's scheme with its owner, interpreter lines, compiled bytecode and installer name, every file listed in RECORD and none newer than the wheel's; an unreadable platform file, an unknown or mistyped key, an unusable platform or compiler, or a wheel that does not match its RECORD is an error and nothing is printed.",
  ["inputs","configurations","fault_sequences"],"every platform file and wheel","no tests exist for the command",
  ["cmd_layer_wheel.go","pkg/python/platform.go"],[("layer wheel RunE","cmd_layer_wheel.go")],["ocibuild layer wheel"])
p("W16","A REQUESTED marker is recorded exactly as asked for",
  "When an install is marked as requested, its .dist-info directory holds one REQUESTED file with exactly the given marker and a newline, or empty without a marker, owned like the other installed files and listed in RECORD if there is one, whatever the wheel brings itself; every other file is what it is without the marking, and without it none is added.",
  ["inputs","configurations"],"every marker and wheel","the tests only mark without a text, and where pip is missing not at all",
  ["pkg/python/pep376/requested.go","pkg/python/pypa/recording_installs/recording_installs.go"],[("RecordRequested","pkg/python/pep376/requested.go")],["pep376.RecordRequested"])
p("I08","The described Python environment is the interpreter's own",
  "The inspect command prints a platform file, readable by the wheel command, with the interpreter's own paths, version, magic number, tags and interpreter lines, the owner (with names) of the first install location that exists and whose owner is known, and a compile command using that interpreter, or for an image the first host interpreter with the same magic number; if the interpreter is missing, fails or answers with something else, it is an error and nothing is printed.",
  ["inputs","configurations","fault_sequences"],"every interpreter answer, set of install locations, owners and host interpreters","no tests exist for the command or the package",
  ["cmd_python_inspect.go","pkg/python/pyinspect/pyinspect.go","pkg/python/pyinspect/fs_native.go","pkg/python/pyinspect/fs_image.go"],[("python inspect RunE","cmd_python_inspect.go"),("Dynamic","pkg/python/pyinspect/pyinspect.go")],["ocibuild python inspect"])
p("I09","An image loaded into Docker is always removed again",
  "Running an action with an image loads exactly that image into Docker under a tag of its own, runs the action once with that tag while it is loaded, and removes it again afterwards, also when loading or the action fails, panics or is cancelled; every failure, including that of the removal, is reported.",
  ["inputs","fault_sequences"],"every image name and every point of failure","no tests exist for this package",
  ["pkg/dockerutil/docker.go"],[("WithImage","pkg/dockerutil/docker.go")],["dockerutil.WithImage"])
p("I10","The exit status tells wrong usage, failure and success apart",
  "The program exits with status 2, and explains itself on the standard error with nothing on the standard output and nothing run, when a subcommand, flag, flag value or number of arguments is wrong; with status 1 and an error message when the work fails, including when the output cannot be written; and with status 0 only if the whole output was written.",
  ["inputs","fault_sequences"],"every command line; an output that fails","no tests exist for the program",
  ["main.go","main_aux.go","pkg/cliutil/cobra.go","pkg/cliutil/cobra_tmpl.go"],[("main","main.go"),("WrapPositionalArgs","pkg/cliutil/cobra.go"),("FlagErrorFunc","pkg/cliutil/cobra.go")],["ocibuild exit status"])
p("I11","Help text is wrapped without losing words",
  "Wrapping a text to a width keeps its words and their order, makes no line longer than the width unless a single word is, and indents continuation lines as asked; without a width, text is left as it is; the width is COLUMNS if that is a number, and none for an output that is not a terminal.",
  ["inputs","configurations"],"every text, indent, width and environment","no tests exist for this",
  ["pkg/cliutil/wordwrap.go","pkg/cliutil/borrowed_pflag.go","pkg/cliutil/term.go"],[("Wrap","pkg/cliutil/wordwrap.go"),("GetTerminalWidth","pkg/cliutil/term.go")],["cliutil.Wrap","cliutil.GetTerminalWidth"])
p("V09","A version describes itself as PEP 440 classifies it",
  "A version's major, minor and micro number are its first three release segments (0 when absent); it is final exactly when it has no pre-, post- or development part and no local label, a pre-release exactly when it has a pre-release or development part; and normalising gives the PEP 440 normal form, which is its own normal form.",
  ["inputs"],"every version","tests sample a few versions",
  ["pkg/python/pep440/01_version_scheme.go"],[("PublicVersion.Major","pkg/python/pep440/01_version_scheme.go"),("PublicVersion.IsFinal","pkg/python/pep440/01_version_scheme.go"),("Version.Normalize","pkg/python/pep440/01_version_scheme.go")],["pep440.Version"])
p("C01","Concurrent use gives what some sequential order gives",
  "Threads that share an open file or directory of a squashed view receive each byte and each child exactly once and in order, and close it exactly once; threads that share a view, an image file system (its first use included), a layer, a version, a specifier or a file name get what one thread alone gets; every thread gets the same build time; no use of them deadlocks.",
  ["schedules","inputs"],"every interleaving of two or three threads","tests run one thread, and a test of races only samples schedules",
  ["pkg/squash/vfs_fs.go","pkg/reproducible/source_date_epoch.go","pkg/python/pyinspect/fs_image.go","pkg/fsutil/fileref.go","pkg/dir/dir.go","pkg/squash/squash.go","pkg/python/pep440/01_version_scheme.go"],[("fsfileReader.Read","pkg/squash/vfs_fs.go"),("fsfileReader.ReadDir","pkg/squash/vfs_fs.go"),("fsfileReader.Close","pkg/squash/vfs_fs.go"),("Now","pkg/reproducible/source_date_epoch.go"),("ImageFS.ensureInitialized","pkg/python/pyinspect/fs_image.go")],["fs.File","reproducible.Now","pyinspect.ImageFS","v1.Layer.Uncompressed"])
p("F01","A failure to read, write or run something is reported, never made a result",
  "If a layer, an image's configuration, a file, a directory or part of one, or an entry of a wheel cannot be opened or read to its end, if a destination cannot be written, or if a compiler or install hook fails, then squashing, loading, comparing or writing layers, looking something up in an image (however often), making a layer from a directory, compiling, recording, creating scripts and installing a wheel report an error and give no result; a directory layer's argument that is not a directory is such a failure; without a failure they succeed.",
  ["inputs","fault_sequences"],"every point at which one layer, file, archive entry, destination or program may fail; every permission of files and directories","tests read only good layers and files from memory",
  ["pkg/squash/readlayer.go","pkg/squash/squash.go","pkg/fsutil/diff.go","pkg/fsutil/write.go","pkg/dir/dir.go","pkg/python/py_compile.go","pkg/python/pyinspect/fs_image.go","pkg/python/pypa/bdist/binary_distribution_format.go","pkg/python/pypa/recording_installs/recording_installs.go","pkg/python/pypa/entry_points/entry_points.go"],[("parseLayer","pkg/squash/readlayer.go"),("LayersEqualExceptTimestamps","pkg/fsutil/diff.go"),("WriteLayer","pkg/fsutil/write.go"),("LayerFromDir","pkg/dir/dir.go"),("ExternalCompiler","pkg/python/py_compile.go"),("InstallWheel","pkg/python/pypa/bdist/binary_distribution_format.go")],["squash.Squash","squash.Load","fsutil.LayersEqualExceptTimestamps","fsutil.WriteLayer","dir.LayerFromDir","python.ExternalCompiler","bdist.InstallWheel"])
p("F02","Whatever a call opens it closes, whatever fails",
  "Squashing, loading, comparing and writing layers, looking something up in an image, making a layer from a directory or from a list of files, compiling, recording, creating scripts, installing a wheel and fetching from a package index close every reader, file and response they opened and remove every temporary file and directory they made, whether they succeed or fail and wherever they fail.",
  ["inputs","fault_sequences"],"every point at which one layer, file, archive entry, response or program may fail","tests do not count open files",
  ["pkg/squash/readlayer.go","pkg/fsutil/diff.go","pkg/fsutil/write.go","pkg/fsutil/fileref.go","pkg/dir/dir.go","pkg/python/py_compile.go","pkg/python/pep503/simple_repo_api.go","pkg/python/pypa/bdist/binary_distribution_format.go","pkg/python/pypa/entry_points/entry_points.go","pkg/python/pypa/recording_installs/recording_installs.go"],[("parseLayer","pkg/squash/readlayer.go"),("LayerFromFileReferences","pkg/fsutil/fileref.go"),("ExternalCompiler","pkg/python/py_compile.go"),("Client.get","pkg/python/pep503/simple_repo_api.go"),("CreateScripts","pkg/python/pypa/entry_points/entry_points.go")],["squash.Squash","fsutil.WriteLayer","dir.LayerFromDir","python.ExternalCompiler","bdist.InstallWheel","pep503.Client"])
p("F03","A cancelled call stops, says so and gives no result",
  "If its context is cancelled before or while a call fetches from a package index, compiles, inspects an interpreter, builds Go programs or installs a wheel, then no request is answered and no compiler, interpreter, build or install hook started after that, the call reports the cancellation and gives no result, and its scratch files are removed; every request, page hook, compiler and install hook gets the caller's context, its values included; with a live context the calls succeed.",
  ["schedules","fault_sequences"],"every step at which the context may be cancelled","tests never cancel a context",
  ["pkg/python/pep503/simple_repo_api.go","pkg/python/py_compile.go","pkg/python/pyinspect/pyinspect.go","pkg/gobuild/gobuild.go","pkg/python/pypa/bdist/binary_distribution_format.go","pkg/python/pypa/bdist/misc.go","pkg/python/pypa/simple_repo_api/pypa_repo_api.go"],[("Client.get","pkg/python/pep503/simple_repo_api.go"),("ExternalCompiler","pkg/python/py_compile.go"),("Dynamic","pkg/python/pyinspect/pyinspect.go"),("LayerFromGo","pkg/gobuild/gobuild.go"),("PostInstallHooks","pkg/python/pypa/bdist/misc.go")],["pep503.Client","python.ExternalCompiler","pyinspect.Dynamic","gobuild.LayerFromGo","bdist.InstallWheel"])
p("P01","No call changes what it was given",
  "Comparing, printing, normalising, classifying, matching and selecting versions, matching and ranking tags, excluding yanked files, making file names, layers from files and from directories, squashing and loading layers, compiling, inspecting an interpreter, building Go programs, installing a wheel and asking a package index leave everything they were given unchanged: the elements and order of lists and what lies in their spare capacity, records given by reference, and what earlier calls returned. Installing the same wheel twice with the same values gives the same layer, and asking an index twice the same answer.",
  ["inputs","histories"],"every value and shape of the arguments","tests use each argument once and throw it away",
  ["pkg/fsutil/fileref.go","pkg/dir/dir.go","pkg/squash/squash.go","pkg/squash/readlayer.go","pkg/python/py_compile.go","pkg/python/pyinspect/pyinspect.go","pkg/gobuild/gobuild.go","pkg/python/pep440/01_version_scheme.go","pkg/python/pep440/02_version_specifiers.go","pkg/python/pep345/metadata.go","pkg/python/pep592/yank.go","pkg/python/pypa/bdist/binary_distribution_format.go","pkg/python/pypa/recording_installs/recording_installs.go","pkg/python/pypa/simple_repo_api/pypa_repo_api.go"],[("LayerFromFileReferences","pkg/fsutil/fileref.go"),("LayerFromDir","pkg/dir/dir.go"),("ExternalCompiler","pkg/python/py_compile.go"),("Dynamic","pkg/python/pyinspect/pyinspect.go"),("Version.Cmp","pkg/python/pep440/01_version_scheme.go"),("Client.SelectWheel","pkg/python/pypa/simple_repo_api/pypa_repo_api.go")],["fsutil.LayerFromFileReferences","dir.LayerFromDir","python.ExternalCompiler","pyinspect.Dynamic","squash.Squash","bdist.InstallWheel","pep440.Specifier.Select"])
for x in P: print(json.dumps(x))
