#!/usr/bin/env python3
"""Writes the stated bounds (reported in evidence and DESIGN.md) into checks.json.
'a|b' = quick|thorough."""
import json, sys, os
B = {
# versions
"pep440h.CmpPublic": "both versions: any 32-bit epoch, 1..3|4 release segments of any 32-bit value, every pre/post/dev combination with any 32-bit number",
"pep440h.CmpLocal": "0..4|5 local segments a side, each any 32-bit number or text of 1|1..2 symbolic characters",
"layh.FaultSquash": "1..2 layers of 0..2|3 and 0..1|2 entries (files with 1..2 symbolic bytes, directories, whiteouts, links); one layer may fail to open, or break at any header, the end marker or inside any content (symbolic position)",
"layh.LeakSquash": "as FaultSquash, and a layer that is refused",
"layh.FaultEqual": "two readings of a layer of 0..2|3 entries, each breaking anywhere (symbolic), failing to close, or good",
"layh.LeakEqual": "as FaultEqual, and two different layers",
"layh.FaultWrite": "a layer of 0..2 entries that breaks anywhere (symbolic); a destination that takes nothing, all but one byte, or everything",
"layh.LeakWrite": "as FaultWrite",
"layh.FaultImage": "an unreadable configuration, layer list or layer (symbolic position) of 1..2; two look-ups",
"layh.LeakImage": "as FaultImage",
"layh.LeakFiles": "1..2|3 files, one with a failing open, read or close, or a wrong size",
"layh.FaultDir": "a missing root, a file, a link loop, or a directory of 0..2|3 files, links and (nested) directories of any permission bits, read by a process they bind",
"layh.LeakDir": "as FaultDir",
"layh.DirLink": "directory reached directly or through one or two links, relative or absolute, five spellings; a file of 0..2 symbolic bytes",
"pyh.FaultCompile": "0..2 sources of 0..1 symbolic bytes, one failing to open, read or close (symbolic), or impossible to write; a compiler that succeeds, fails, or leaves a file that cannot be read",
"pyh.LeakCompile": "as FaultCompile",
"whlh.FaultHook": "entry_points.txt of six kinds or 1..2 recorded files of 0..1 symbolic bytes, one failing to open or read (symbolic); three hash choices",
"whlh.LeakHook": "as FaultHook",
"whlh.FaultWheel": "a wheel with a library file, a script and a data file: any one entry damaged (symbolic which), the archive missing or junk, the compiler or hook failing, or a compiled file unreadable (symbolic how)",
"whlh.LeakWheel": "as FaultWheel",
"repoh.Leak": "four pages (good, unsupported version, bad link, bad specifier); any status, refused, broken or unclosable response, to the page or to the file; file or signature",
"pep440h.CmpLong": "1..7|10 release segments a side, each any 32-bit value",
"pep440h.MatchLong": "every operator; 1..4|6 release segments of any 32-bit value in clause and candidate, with or without rc/post in the clause and rc in the candidate",
"pep440h.CmpLocalText": "0..2 local segments a side, text of 1..2|3 symbolic characters",
"pep440h.ParseAny": "any ASCII string of up to 4|6 characters, alone and after prefixes that select each part of the grammar",
"pep440h.ParseSpellings": "every spelling, separator and case of each component, symbolic digits (0..1|2 per number)",
"pep440h.RoundTrip": "1..2|3 release segments, every component combination, symbolic digits, 0..1|2 local segments",
"pep440h.BigNumbers": "one number of 10|18 symbolic digits in each kind of component",
"pep440h.BigLocal": "a ten digit local segment (two symbolic digits)",
"pep440h.MatchOps": "every operator; clause and candidate with 1..2|3 release segments of any 32-bit value, every pre/post/dev combination, any epoch",
"pep440h.MatchLocal": "every operator; 0..1|2 local segments in clause (where allowed) and candidate",
"pep440h.MatchAll": "0..2|3 clauses of any operator, symbolic versions",
"pep440h.ParseClause": "one clause of every operator, spacing and version form with symbolic digits",
"pep440h.ParseTwo": "0..3 clauses with symbolic digits and spacing",
"pep440h.ParseClauseAny": "any ASCII string of up to 4|6 characters",
"pep440h.SelectPre": "0..2|3 candidates with symbolic numbers of 3|5 shapes; no clause or one symbolic clause; pre-release policy with and without allow-list",
"pep440h.SelectMulti": "0..2|3 candidates, two policies at once with symbolic verdicts",
"pep440h.SelectYanked": "0..2|3 candidates, each with yanked and not yanked files",
"pep345h.Match": "every operator and bare versions, 1..2|3 release segments of any 32-bit value, every pre/post/dev combination",
"pep345h.MatchLocal": "local labels on either side",
"pep345h.Require": "requirement strings of 1..2 comparisons with symbolic digits",
"pep345h.Invalid": "any ASCII string of up to 4|5 characters",
"tagsh.Support": "0..2|3 installer tags and a compressed tag with up to two alternatives in each part, all parts symbolic",
"tagsh.InstCompressed": "one installer entry that is itself a compressed set",
"tagsh.Long": "one part with 6|9 alternatives",
"tagsh.Expand": "up to 2|3 alternatives in each part",
"tagsh.TagText": "any string of up to 6|8 bytes; any three-part tag",
"tagsh.FileRoundTrip": "names, versions (local labels among them), build tags and tags with symbolic characters",
"tagsh.FileParse": "5 or 6 parts with symbolic characters, build number of 1..2|3 digits",
"tagsh.FileAny": "any number of dash separated parts up to 7, symbolic characters",
"tagsh.BuildOrder": "any 32-bit build numbers, suffixes of up to 2 symbolic characters",
"pyh.VersionInfo": "any 32-bit major, minor, micro and serial; every documented level and any string of up to 6|9 bytes",
# layers
"layh.EquivPair": "2 entries in 1..2 layers, each file/directory/symlink/whiteout/opaque marker at depth 1..2|3, symbolic components, modes, owners and contents; base tree of depth 1..3",
"layh.EquivPlain": "3 entries of depth 1..2 without symlinks over 2|3 names in 1..3 layers, base of depth 2|2..3",
"layh.EquivLinks": "a symlink plus 2|3 entries that may be written through it",
"layh.EquivChain": "two symlinks that may point to one another plus an entry below one of them",
"layh.HardLinks": "a hard link and its target in every order, the target kept, removed or replaced",
"layh.Canon": "2 entries of depth 1..2|3, any ASCII names",
"layh.Canon3": "3 entries of depth 1|1..2",
"layh.MapOrder": "every order in which Go could iterate two-entry maps (ascending, descending), 3 entries",
"layh.Order": "two entries of unrelated symbolic paths, in both orders",
"layh.Names": "one entry name of 1..6|7 characters over '/', '.', 'a'",
"layh.Links": "symlink target of 1..4|6 characters over '/', '.', 'a', 'b', followed by an entry and a look-up through it",
"layh.View": "3 entries without symlinks over 2|3 names in 1..3 layers; every path looked up",
"layh.ViewOmit": "as View, contents omitted",
"layh.ViewLinks": "a symlink with any one-component target and 1|2 other entries",
"layh.Hidden": "whiteout marker names of every form",
"layh.HardLinkView": "a hard link and its target",
"layh.Handles": "file of 0..4|6 symbolic bytes, two handles, 4|5 reads of symbolic sizes in any interleaving",
"layh.Listing": "directory of 0..3|4 children with symbolic times, any sequence of ReadDir(n) calls with n from -2",
"layh.ViewChain": "two symlinks that may point to one another",
"layh.EqOne": "one entry a side of any type, every header field symbolic, contents of 0..2|3 symbolic bytes",
"layh.EqMany": "0..2|3 entries a side",
"layh.EqTimes": "all three timestamps symbolic, every archive format",
"layh.EqPAX": "sub-second times and one extended attribute with symbolic value",
"layh.EqBig": "contents of 1022..1026|1027 bytes with a symbolic byte near the end",
"layh.FilesOrder": "3 files with names of 1..2|3 components, in every input order",
"layh.FilesMeta": "one file of any type with symbolic mode, owner, time, clamp and contents",
"layh.FilesSubsecond": "symbolic nanoseconds",
"layh.FilesFault": "a fault at opening, at any read, or a wrong size",
"layh.FilesInMem": "an in-memory reference with symbolic contents",
"pureh.Versions": "seven operations on two versions in a list: 1..2|3 and 1..2 release segments of any byte, pre, post, dev and local parts each, none or all, with spare capacity behind every list; every operator; four exclusion rules",
"pureh.Tags": "matching, ranking, excluding and naming with three tags of symbolic Python and ABI parts, compressed or not, two links (yanked or not) and a build tag",
"pureh.Lists": "seven operations on 3 files with symbolic names and contents, 2..3 layers (the same twice or not) with symbolic contents, 1..2 command words, a prefix with or without a mode and an owner, each list with spare capacity",
"whlh.PureInstall": "a wheel with a symbolic byte of library file, a script and an entry point, installed twice with scripts, RECORD and one of three origins or none; platform with symbolic owner, magic number, tags and version; three schemes",
"repoh.PureSelect": "a listing of two wheels of symbolic version and Requires-Python, two tags each; symbolic client Python and specifier; three base URLs; listed once and selected from twice",
"whlh.Requested": "markers of 0..2|3 symbolic bytes; asked for or not, recorded or not; a wheel that brings its own REQUESTED file or not; pure or not",
"repoh.CtxIndex": "six calls in a row on a page, a file and its signature; the context is cancelled during any one of their requests (symbolic) or never",
"pyh.CtxRun": "0..2 sources of 0..1 symbolic bytes; the context is cancelled before the call, at the opening of any source (symbolic) or never; then an inspection",
"whlh.CtxInstall": "0..2 hooks; the context is cancelled before the call, during the compiler or any hook (symbolic), or never",
"layh.CtxBuild": "one package, a symbolic byte of output; the context is cancelled before the call or never",
"layh.DirNames": "a file, directory (with a file) or link whose name is any 1..4|5 bytes a file name can have, with and without a prefix",
"layh.DirLong": "nested names, link targets and hard links of nine lengths from 98 to 255 bytes, symbolic last bytes",
"layh.FilesNames": "2..3|4 files of one or two path components of 1..2 symbolic file name bytes, given in any order",
"layh.EqNames": "two files or links with symbolic names, user and group names, one or the other left out",
"layh.EquivHeader": "an entry of five types that replaces one of five types, every header field (owner, names, times, device, PAX records) symbolic; a third entry before or after; one or two layers",
"layh.EquivDeep": "a symlink three levels down with any of eight kinds of target, and 1|2 entries through, beside or above it",
"layh.EquivFar": "chains of 3, 12, 19 symlinks and an entry or whiteout through them",
"layh.Outside": "names of 1..3|4 components out of '..', '.', dotted names, markers, relative or absolute",
"layh.EquivSpecial": "a device or pipe and any other entry of depth 1..2|3, before, after, in one or two layers",
"layh.ViewDeep": "as EquivDeep; looked up through and beside the link",
"layh.ViewSpecial": "a char device, block device or pipe at a symbolic path of one or two names and one other entry of any kind, in either order of layers or in one layer",
"layh.ListNames": "a directory of 2..3 children whose names are any 1..2|3 file name bytes, symbolic times and types",
"whlh.AnyName": "a file or directory whose name is any 1..3|4 printable characters, beside one with a one-letter name; symbolic content and hash; quoted in RECORD or not",
"whlh.PlaceAny": "a category of any 4..8 letters of the known ones, a file name of any 1..3|4 printable characters, or a Root-Is-Purelib value of any 3..5 letters; symbolic content",
"whlh.PlacePy": "two files or directories named z.py or any 3..4 characters of .pyc_P, in the library, a package called m.py or a data category",
"whlh.BadNames": "console or graphical script names of any 1..3|4 characters of ./a-",
"layh.DirMeta": "one file of any type, symbolic mode/owner/time/clamp, prefixes of 0..2 components, every ownership setting",
"layh.DirTree": "1..4|5 entries nested up to depth 3, symlinks and hard links",
"layh.DirMissing": "missing and unreadable directories",
"layh.GoBuild": "1..2 packages, binaries with symbolic contents and times, clamp, success and failure of the tool",
# wheels
"whlh.Place": "1..2|3 files with symbolic names of 1..2 components in any category, symbolic contents, both declarations, two map orders",
"whlh.PlaceDirs": "explicit directory entries, empty data directory and categories",
"whlh.PlaceOrder": "2..3|4 files that may collide, all map orders of the executor's two modes, twenty native repetitions",
"whlh.PlaceInfo": "0..2|3 further metadata files with symbolic names",
"whlh.Tampered": "1..2 files with symbolic contents against every kind of RECORD row (algorithm, digest of other symbolic content, letter case of names and digests, sizes past the machine word, missing, extra, duplicate, malformed)",
"whlh.Sneaky": "two entries whose names differ by case, slash, './', repetition or directory attributes",
"whlh.DataFiles": "a file below the data directory, symbolic contents",
"whlh.Escape": "an archive name of 1..5|6 characters over '.', '/', 'a' at the root and in each category",
"whlh.EscapeScheme": "absolute install directories of odd spelling",
"whlh.EscapeScripts": "an entry point name of 1..3|4 characters over '.', '/', 'a'",
"whlh.Modes": "any creator system byte and 32-bit attribute word, every category, file names with symbolic suffixes",
"whlh.Times": "symbolic file, minimum and maximum times up to 4200000000 (past 32-bit signed seconds)",
"whlh.Recorded": "1..2 files of every category, every supported hash, symbolic contents, two map orders",
"whlh.RecordedNames": "names of 1..2|3 characters that need CSV quoting",
"whlh.RecordedBad": "unknown hash names",
"whlh.RecordedLines": "names with CR and LF",
"whlh.Launchers": "1..2 entry points with symbolic names and references in both groups, two map orders",
"whlh.SameName": "one name in both groups",
"whlh.BadRefs": "any reference of 1..5|6 characters over 'aZ:.[] -'",
"whlh.NoEntryPoints": "absent, empty and foreign entry point files",
"whlh.Shebangs": "any script of up to 11|13 bytes, and any 5|8 bytes after '#!python'",
"whlh.NonScripts": "the same bytes outside the scripts category",
"whlh.SubScripts": "two scripts, in subdirectories",
"whlh.FormatVersion": "any Wheel-Version of 1..2|3 digits and dots, and odd forms",
"whlh.Skeleton": "every choice of missing, doubled or misplaced metadata directory and files",
"whlh.Hooks": "0..3 hooks with symbolic failures",
"pyh.ToGo": "all 2^16 modes", "pyh.FromGo": "all 2^32 modes", "pyh.Text": "all 2^16 modes", "pyh.Attrs": "all 2^32 attribute words", "pyh.Consts": "the constants",
"pyh.ConfigAny": "any two lines of up to 4|5 characters over the significant alphabet, alone and inside a section",
"pyh.ConfigValues": "an option followed by two lines of up to 3|4 (together 4|6) characters over the significant alphabet, every ASCII space among them",
"pyh.ConfigDups": "repeated sections and options with symbolic names",
"pyh.ConfigOptions": "other delimiters, comment prefixes, value rules",
"pyh.PlatformInit": "symbolic interpreters and install directories, present or not",
"pyh.Compile": "1..2 sources with symbolic contents and times, hidden and same-named ones among them; outputs beside, in __pycache__ and stray; failing, unknown and empty commands",
# repository
"repoh.Fetch": "body of 0..2 symbolic bytes; fragments of one or two checksums over symbolic contents in every algorithm, unknown, malformed; every transport fault and status class; redirects",
"repoh.Signature": "symbolic body, every declaration, every status and fault, fragments and queries",
"repoh.Names": "any name of 1..3|4 bytes, and longer ones of symbolic letters; seven forms of index URL (query, escaped slash, no path)",
"repoh.Links": "pages of up to three anchors with symbolic text, relative and absolute links, base element, attributes",
"repoh.RequiresPython": "symbolic Requires-Python against a symbolic interpreter version",
"repoh.ListErrors": "every status class and transport fault",
"repoh.Packages": "root page with symbolic project names",
"repoh.ApiVersion": "symbolic declared versions and malformed ones",
"repoh.Wheels": "1..3|4 files with symbolic versions (pre-releases and local labels among them), tags, build tags and yank marks in any order",
# images and commands
"imgh.Clock": "any value of SOURCE_DATE_EPOCH of up to 4|5 bytes, integers with 3|5 symbolic digits, symbolic clock, three requests",
"inpkg:.SymBuildConfig": "base configuration and every combination of override flags with symbolic text",
"inpkg:.SymBuildLayers": "0..2 base layers, 1..3|4 layer arguments in any order, tags",
"inpkg:.SymBuildBroken": "every missing or broken input",
"inpkg:.SymGoOutput": "existing output absent, equal, equal but for times, different in one symbolic respect, or no layer at all",
"inpkg:.SymSquashCmd": "1..3 layer arguments with symbolic entries; unreadable ones",
"inpkg:.SymDirCmd": "prefix, owner and epoch flags with symbolic values",
"inpkg:.SymGetWheel": "page of up to three links, symbolic bodies and checksums",
"inpkg:.SymGetWheelName": "names that are no wheel file names",
"layh.LookTree": "image trees of 2 symbolic entries (files, directories, symlinks, any mode) around a fixed PATH",
"layh.LookPathVar": "any PATH of up to 4|6 characters over '/:bu.'",
"layh.LookEnv": "environment entries with symbolic text",
"layh.LookName": "any command name of up to 4|6 characters over '/bup.'",
"layh.LookBroken": "unreadable configuration or layers",
"layh.Owner": "symbolic owners, paths through links",
"whlh.Origin": "every kind of origin with its members of 0..3|4 bytes below 0x7f, one of them symbolic at a time",
"inpkg:.SymWheelCmd": "platform files with symbolic texts, owners, schemes and keys; every failure listed in the harness",
"inpkg:.SymInspect": "five install locations absent, owned by either user or by nobody known; symbolic version, tags and magic number; interpreter pairs; four faults",
"inpkg:.SymInspectImage": "images with and without the interpreter and the location; three host interpreters each absent, equal, different, malformed or failing",
"dockh.WithImage": "names of 2..3 symbolic characters, one image with symbolic content, eight points of failure with and without a failing removal",
"inpkg:.SymUsage": "subcommand names of 1..3|4 symbolic characters, unknown flags of 2 symbolic characters, wrong flag values, wrong argument counts for every command",
"inpkg:.SymStatus": "seven commands, each with success, a full output device and an unusable input",
"layh.ConcNow": "two threads asking twice each, at most 2 preemptions; with and without SOURCE_DATE_EPOCH, symbolic clock",
"layh.ConcRead": "two threads sharing a handle of a file of three parts, at most 2|3 preemptions; symbolic byte per part",
"layh.ConcClose": "three threads (two closing, one reading), at most 2 preemptions",
"layh.ConcList": "two threads sharing a directory handle of two children, listed at once or one by one, at most 2|3 preemptions",
"layh.ConcView": "two threads with handles of their own on a tree with a directory, a file and two symlinks, at most 1|2 preemptions",
"layh.ConcImage": "two threads using an image file system for the first time, one or two layers or a failing image, at most 1|2 preemptions",
"layh.ConcLayer": "two threads reading a layer of squash, file list or directory, at most 1|2 preemptions",
"pep440h.ConcUse": "two threads, each with one of eight uses of shared versions, specifiers and file names; symbolic release segment, at most 1|2 preemptions",
"layh.BigSquash": "one file of 511..33001 bytes (seven sizes), two or three symbolic bytes, and what follows or overrides it",
"layh.BigView": "as BigSquash, through buffers of 333..40000 bytes",
"layh.BigDir": "as BigSquash; or 20|40 files, directories among them",
"layh.DeepDir": "directories nested 3..7|11 deep with symbolic names",
"layh.BigFiles": "as BigSquash; or 26|40 files in any rotation",
"layh.ManyCanon": "21|41 files in any rotation, one with a symbolic name",
"layh.DeepView": "paths of 3..5|8 directories, each listed or implied, symlink chains of 0, 1, 5, 11 (18, 30) hops, a whiteout at any depth",
"whlh.BigFiles": "one file or script of 511..33001 bytes (seven sizes), two or three symbolic bytes",
"whlh.BigTampered": "files of those sizes with any byte of seven changed to any value, or one more or less",
"whlh.ManyFiles": "20|40 files with a symbolic byte each, any one not as recorded",
"whlh.ManyScripts": "14|30 entry points in both groups",
"repoh.FetchBig": "files of 511..33001 bytes (seven sizes), any byte of seven changed to any value, or one more or less",
"repoh.ManyWheels": "24|48 wheels and one symbolic one on a page, in any rotation",
"pep440h.SelectMany": "18|36 fixed candidates in any rotation and one symbolic candidate, any or one symbolic upper bound",
"pyh.ConfigLines": "four lines, each of four to eleven kinds, after a section header",
"clih.Wrap": "text of about 40|56 characters, words of 5..6 letters with symbolic breaks, two indents, widths 24..25|26",
"clih.Any": "8|10 symbolic characters (blank, line break, letter) around the first break, four widths",
"clih.None": "up to 3|5 symbolic characters, any indent up to 30, any width up to 39",
"clih.Width": "COLUMNS of up to 3|4 symbolic characters or unset",
"pep440h.Parts": "1..4|6 release segments and optional parts, all numbers symbolic",
"pep440h.Normal": "1..2 segments, every spelling of a pre-release, optional parts, symbolic digits, local labels of 1..2 segments",
"layh.Shebangs": "command names python/pythonw plus 0..2|3 symbolic characters, siblings present, absent or not executable",
}
OUT = {
"V": "longer version strings, more segments and more clauses than stated; non-ASCII input; numbers above 64 bits; the === operator beyond its parsing",
"L": "more entries, layers or path components than stated; device and fifo entries other than as opaque types; hard links beyond the listed scenarios (see known findings); concurrent use; contents larger than stated",
"W": "wheels with more files than stated; compressed archive bytes themselves (archive/zip is modelled at entry level; native replays use the real one); signatures (the tool does not verify them); ZIP64; file names outside the stated alphabets",
"R": "HTML beyond the generated page shapes (the HTML tokenizer itself runs natively only in replays where the model cannot); TLS and proxies; pages with more links than stated",
"I": "registries and daemons (image archives are modelled at manifest/config/layer level; native replays use the real library); more layers or flags than stated",
}
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks.json")
c = json.load(open(p))
missing = []
for prop, v in c.items():
    for h in v["harnesses"]:
        b = B.get(h["fn"])
        if b is None:
            missing.append(h["fn"])
        else:
            h["bounds"] = b
    v.setdefault("outside", OUT.get(prop[0], ""))
json.dump(c, open(p, "w"), indent=1)
print("no bounds for:", missing) if missing else None
