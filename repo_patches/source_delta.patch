From 8bb5297c65e71db6cfd554b61c3b87363797b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:27 +0000
Subject: [PATCH 01/41] fix: pep440: only strip the operator itself from "<"
 and ">" clauses

"<10" was parsed as "<0", and "<1" as a clause with an empty version.
---
 pkg/python/pep440/02_version_specifiers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index a8da602..abc84ae 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -172,10 +172,10 @@ func parseSpecifierClause(str string) (SpecifierClause, error) {
 		str = str[2:]
 	case strings.HasPrefix(str, "<"):
 		ret.CmpOp = CmpOpLT
-		str = str[2:]
+		str = str[1:]
 	case strings.HasPrefix(str, ">"):
 		ret.CmpOp = CmpOpGT
-		str = str[2:]
+		str = str[1:]
 	case strings.HasPrefix(str, "==="):
 		return ret, fmt.Errorf("specifiers with === are not supported; versions must be PEP 440 compliant")
 	default:
-- 
2.43.0


From a4685715152786c1c081284759f52f4d701e097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:27 +0000
Subject: [PATCH 02/41] fix: pep440: keep the ".*" when printing prefix-match
 clauses

---
 pkg/python/pep440/02_version_specifiers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index abc84ae..20b2a43 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -214,7 +214,11 @@ func (spec SpecifierClause) String() string {
 	if !ok {
 		panic(fmt.Errorf("invalid CmpOp: %d", spec.CmpOp))
 	}
-	return opStr + spec.Version.String()
+	suffix := ""
+	if spec.CmpOp == CmpOpPrefixMatch || spec.CmpOp == CmpOpPrefixExclude {
+		suffix = ".*"
+	}
+	return opStr + spec.Version.String() + suffix
 }
 
 func (spec SpecifierClause) Match(ver Version) bool {
-- 
2.43.0


From db6ef823629fdfc4bb6a3b434222f2f16a7c304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:27 +0000
Subject: [PATCH 03/41] fix: pep440, pep592: prefer allowed versions to
 excluded ones

Specifier.Select preferred the versions that the ExclusionBehavior does
not allow; ExcludeYanked had the opposite inversion, so that only
yanked-version exclusion came out right.
---
 pkg/python/pep440/02_version_specifiers.go | 2 +-
 pkg/python/pep592/yank.go                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index 20b2a43..0b55beb 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -630,7 +630,7 @@ func (spec Specifier) Select(choices []Version, exclusionBehavior ExclusionBehav
 	var bestExcluded *Version
 	for _, choice := range choices {
 		if spec.Match(choice) {
-			if exclusionBehavior == nil || !exclusionBehavior.Allow(choice) {
+			if exclusionBehavior == nil || exclusionBehavior.Allow(choice) {
 				if best == nil || best.Cmp(choice) < 0 {
 					val := choice
 					best = &val
diff --git a/pkg/python/pep592/yank.go b/pkg/python/pep592/yank.go
index 98e6eab..86784c1 100644
--- a/pkg/python/pep592/yank.go
+++ b/pkg/python/pep592/yank.go
@@ -36,5 +36,5 @@ func ExcludeYanked(links []pep503.FileLink) pep440.ExclusionBehavior {
 
 func (e excludeYanked) Allow(v pep440.Version) bool {
 	_, yanked := e.yankedVersions[v.String()]
-	return yanked
+	return !yanked
 }
-- 
2.43.0


From 9bebe72a5366c71af7c57bdf966142bd948a8a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:27 +0000
Subject: [PATCH 04/41] fix: pep440: ">V" must not match post-releases or local
 versions of V

---
 pkg/python/pep440/02_version_specifiers.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index 0b55beb..d018a2d 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -523,7 +523,16 @@ func matchLT(spec, ver Version) bool {
 }
 
 func matchGT(spec, ver Version) bool {
-	return spec.Cmp(ver) < 0
+	if spec.Post == nil && ver.Post != nil &&
+		cmpEpoch(spec.PublicVersion, ver.PublicVersion) == 0 &&
+		cmpRelease(spec.PublicVersion, ver.PublicVersion) == 0 &&
+		(ver.Pre == nil) == (spec.Pre == nil) &&
+		(ver.Pre == nil || *ver.Pre == *spec.Pre) {
+		// a post-release of the specified version
+		return false
+	}
+	// Ignore ver.Local: a local version of the specified version doesn't match.
+	return spec.PublicVersion.Cmp(ver.PublicVersion) < 0
 }
 
 //
-- 
2.43.0


From 9c09769e0ee025c3bd31d0868f6405a2adcda930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:25 +0000
Subject: [PATCH 05/41] fix: squash: keep a removed directory's contents hidden
 when it is recreated

A ".wh.foo" whiteout was dropped when a later entry recreated the directory
"foo/", so the contents of foo in lower layers reappeared.  Replace the
whiteout by an opaque marker in the new directory.
---
 pkg/squash/vfs.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 2a0c1a5..445b8b0 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -195,8 +195,23 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 			} else {
 				delete(f.parent.children, strings.TrimPrefix(basename, ".wh."))
 			}
-		} else {
+		} else if _, whiteout := f.parent.children[".wh."+basename]; whiteout {
 			delete(f.parent.children, ".wh."+basename)
+			if f.header.Typeflag == tar.TypeDir {
+				// The whiteout also hid the contents of any lower directory of this
+				// name; keep hiding them, now that the directory is back.
+				if f.children == nil {
+					f.children = make(map[string]*fsfile)
+				}
+				f.children[".wh..wh..opq"] = &fsfile{ //nolint:exhaustivestruct
+					name:   path.Join(f.name, ".wh..wh..opq"),
+					parent: f,
+					header: &tar.Header{
+						Typeflag: tar.TypeReg,
+						Mode:     0o644,
+					},
+				}
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 4365771bb40c51af37635fdfc382dc4fd325b77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:02 +0000
Subject: [PATCH 06/41] fix: squash: list an opaque marker before the other
 whiteouts

Whiteouts of names that sort before ".wh." were listed before the opaque
marker, so squashing a squashed layer again dropped them.
---
 pkg/squash/vfs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 445b8b0..7aff27d 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -244,6 +244,9 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 		iWhiteout := strings.HasPrefix(iStr, ".wh.")
 		jWhiteout := strings.HasPrefix(jStr, ".wh.")
 		switch {
+		case iStr == ".wh..wh..opq" || jStr == ".wh..wh..opq":
+			// Applying an opaque marker discards any whiteouts applied before it.
+			return jStr != ".wh..wh..opq"
 		case iWhiteout && !jWhiteout:
 			return true
 		case !iWhiteout && jWhiteout:
-- 
2.43.0


From b859255f21e2d7eaed7f4e5807126dfbf3aa4786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:25 +0000
Subject: [PATCH 07/41] fix: squash: bound the number of symlinks followed for
 one path

A symlink that resolves through itself ("a -> a/b", or a symlink as the layer
root) recursed until the stack overflowed.
---
 pkg/squash/vfs.go | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 7aff27d..8a25f5d 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -27,7 +27,16 @@ type fsfile struct {
 	body   []byte
 }
 
+// maxLinks is the number of symlinks that resolving one pathname may follow; it is the same limit as
+// in the Linux kernel.
+const maxLinks = 40
+
 func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, error) {
+	return fsGetCount(dir, pathname, create, followLinks, new(int))
+}
+
+// fsGetCount is like fsGet, but adds the number of symlinks that it follows to *links.
+func fsGetCount(dir *fsfile, pathname string, create, followLinks bool, links *int) (*fsfile, error) {
 	pathname = path.Clean(pathname)
 
 	done := 0 // index of the next byte in pathname to look at
@@ -47,13 +56,13 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 			break
 		}
 		var err error
-		dir, err = dir.Get(pathname[done:done+slash], create, false)
+		dir, err = dir.get(pathname[done:done+slash], create, false, links)
 		done += slash + 1
 		if err != nil {
 			return nil, err
 		}
 	}
-	ret, err := dir.Get(pathname[done:], create, followLinks)
+	ret, err := dir.get(pathname[done:], create, followLinks, links)
 	if err != nil {
 		return nil, err
 	}
@@ -61,6 +70,10 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 }
 
 func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
+	return f.get(child, create, followLinks, new(int))
+}
+
+func (f *fsfile) get(child string, create, followLinks bool, links *int) (*fsfile, error) {
 	var ret *fsfile
 
 	switch child {
@@ -70,7 +83,15 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 		ret = f
 	default:
 		if f.header != nil && f.header.Typeflag == tar.TypeSymlink {
-			newF, err := fsGet(f.parent, f.header.Linkname, create, true)
+			*links++
+			if *links > maxLinks {
+				return nil, &fs.PathError{
+					Op:   "vfs.readlink(dir)",
+					Path: "/" + f.name,
+					Err:  ErrLoop,
+				}
+			}
+			newF, err := fsGetCount(f.parent, f.header.Linkname, create, true, links)
 			if err != nil {
 				return nil, &fs.PathError{
 					Op:   "vfs.readlink(dir)",
@@ -119,7 +140,8 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 	// Resolve symlinks
 	stack := make(map[*fsfile]struct{})
 	for followLinks && ret != nil && ret.header != nil && ret.header.Typeflag == tar.TypeSymlink {
-		if _, loop := stack[ret]; loop {
+		*links++
+		if _, loop := stack[ret]; loop || *links > maxLinks {
 			return nil, &fs.PathError{
 				Op:   "vfs.readlink",
 				Path: "/" + ret.name,
@@ -127,7 +149,7 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 			}
 		}
 		stack[ret] = struct{}{}
-		target, err := fsGet(ret.parent, ret.header.Linkname, create, false)
+		target, err := fsGetCount(ret.parent, ret.header.Linkname, create, false, links)
 		if err != nil {
 			return nil, &fs.PathError{
 				Op:   "vfs.readlink",
-- 
2.43.0


From 073fce64e00c5b7f9374c14fc9d0c60eb10ad8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:21 +0000
Subject: [PATCH 08/41] fix: squash: list directories that contain a dangling
 symlink

---
 pkg/squash/vfs_fs.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/squash/vfs_fs.go b/pkg/squash/vfs_fs.go
index 7dd2b05..c399ce1 100644
--- a/pkg/squash/vfs_fs.go
+++ b/pkg/squash/vfs_fs.go
@@ -185,12 +185,10 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 				lnkDirEnt = missingDirEntry(childname)
 			}
 
+			// A dangling symlink is no reason to not list the directory.
 			tgt, err := lnk.Get(".", false, true) // follow symlinks
-			if err != nil {
-				return nil, err
-			}
 			var tgtDirEnt fs.DirEntry
-			if tgt.header != nil {
+			if err == nil && tgt.header != nil {
 				tgtDirEnt = fs.FileInfoToDirEntry(tgt.header.FileInfo())
 			} else {
 				tgtDirEnt = missingDirEntry(childname)
-- 
2.43.0


From b2872490073925914fef0906720ffc77deeff88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:26 +0000
Subject: [PATCH 09/41] fix: squash: do not open whiteout markers as files

---
 pkg/squash/vfs_fs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/squash/vfs_fs.go b/pkg/squash/vfs_fs.go
index c399ce1..cab52b3 100644
--- a/pkg/squash/vfs_fs.go
+++ b/pkg/squash/vfs_fs.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"path"
 	"sort"
 	"strings"
 	"sync"
@@ -45,6 +46,10 @@ func (f *fsfile) Open(name string) (_ fs.File, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if strings.HasPrefix(path.Base(lnk.name), ".wh.") {
+		// Whiteout markers are not files in the filesystem.
+		return nil, fs.ErrNotExist
+	}
 	tgt, err := lnk.Get(".", false, true)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 63d71823ce07492356e9a407e7696c5be014fa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:38 +0000
Subject: [PATCH 10/41] fix: fsutil: ignore change times when comparing layers

LayersEqualExceptTimestamps set ModTime twice instead of ChangeTime, and also
compared the timestamps that the PAX format keeps in extended records.
---
 pkg/fsutil/diff.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/fsutil/diff.go b/pkg/fsutil/diff.go
index a58e213..7501c20 100644
--- a/pkg/fsutil/diff.go
+++ b/pkg/fsutil/diff.go
@@ -35,10 +35,25 @@ func readersEqual(a, b io.Reader) (equal bool, err error) {
 	return true, nil
 }
 
+func paxRecordsExceptTimestamps(records map[string]string) map[string]string {
+	ret := make(map[string]string, len(records))
+	for key, val := range records {
+		switch key {
+		case "mtime", "atime", "ctime":
+			// skip
+		default:
+			ret[key] = val
+		}
+	}
+	return ret
+}
+
 func headersEqualExceptTimestamps(a, b tar.Header) bool {
 	b.ModTime = a.ModTime
 	b.AccessTime = a.AccessTime
-	b.ModTime = a.ModTime
+	b.ChangeTime = a.ChangeTime
+	a.PAXRecords = paxRecordsExceptTimestamps(a.PAXRecords)
+	b.PAXRecords = paxRecordsExceptTimestamps(b.PAXRecords)
 
 	return reflect.DeepEqual(a, b)
 }
-- 
2.43.0


From 414b9dc6b168af128f7dc51eb407da3f19a0bade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:26 +0000
Subject: [PATCH 11/41] fix: dir: apply the requested ownership before writing
 each header

---
 pkg/dir/dir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index a482fee..01cc923 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -122,9 +122,6 @@ func LayerFromDir(
 		if header.ChangeTime.After(clampTime) {
 			header.ChangeTime = clampTime
 		}
-		if err := tarWriter.WriteHeader(header); err != nil {
-			return err
-		}
 		if chown != nil {
 			if chown.UID >= 0 {
 				header.Uid = chown.UID
@@ -139,6 +136,9 @@ func LayerFromDir(
 				header.Gname = chown.GName
 			}
 		}
+		if err := tarWriter.WriteHeader(header); err != nil {
+			return err
+		}
 		if header.Typeflag == tar.TypeReg {
 			reader, err := os.Open(filename)
 			if err != nil {
-- 
2.43.0


From a2a58e5473b0365342a2093d9867337d0d9b6458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:48 +0000
Subject: [PATCH 12/41] fix: bdist: check every installed file against RECORD

Entries with directory mode bits but no trailing slash, and second entries
of the same name, were installed without having been checked.
---
 pkg/python/pypa/bdist/binary_distribution_format.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 4df8590..9269305 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -817,11 +817,18 @@ func (wh *wheel) integrityCheck() error {
 	}
 
 	todo := make(map[string]struct{})
+	seen := make(map[string]bool)
 	for _, file := range wh.zip.File {
-		if file.FileInfo().IsDir() {
+		// Go by the name rather than by the mode bits, the same as what gets installed.
+		isDir := strings.HasSuffix(file.Name, "/")
+		name := path.Clean(file.Name)
+		if seenDir, dup := seen[name]; dup && !(seenDir && isDir) {
+			return fmt.Errorf("multiple entries in wheel zip archive: %q", name)
+		}
+		seen[name] = isDir
+		if isDir {
 			continue
 		}
-		name := path.Clean(file.Name)
 		switch name {
 		case path.Join(distInfoDir, "RECORD.jws"):
 			// skip
-- 
2.43.0


From 48665662795e0816cc63b0f626a3adb45cb22796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:53 +0000
Subject: [PATCH 13/41] fix: bdist, entry_points: keep installed files below
 the install directories

Names in the wheel could climb out of the install directory with "..", a
file named like a data category replaced the whole category directory, and
scheme paths such as "//usr/lib" made the installation loop forever.
---
 pkg/python/pypa/bdist/binary_distribution_format.go | 11 +++++++++++
 pkg/python/pypa/bdist/misc.go                       |  2 +-
 pkg/python/pypa/entry_points/entry_points.go        |  7 ++++++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 9269305..64c8633 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -315,7 +315,15 @@ func (wh *wheel) installToVFS(
 			return nil, "", fmt.Errorf("unsupported wheel data type %q: %q",
 				key, path.Join(strings.TrimSuffix(distInfoDir, ".dist-info")+".data", relName))
 		}
+		if rest == "" && !vfs[fullName].IsDir() {
+			return nil, "", fmt.Errorf("wheel data type %q is not a directory", key)
+		}
 		newFullName := path.Join(dstDataDir, rest)
+		if newFullName == "" {
+			// the root directory itself
+			delete(vfs, fullName)
+			continue
+		}
 		vfsTypes[newFullName] = key
 		if err := rename(vfs, fullName, newFullName); err != nil {
 			return nil, "", fmt.Errorf("spread: %w", err)
@@ -822,6 +830,9 @@ func (wh *wheel) integrityCheck() error {
 		// Go by the name rather than by the mode bits, the same as what gets installed.
 		isDir := strings.HasSuffix(file.Name, "/")
 		name := path.Clean(file.Name)
+		if path.IsAbs(name) || name == ".." || strings.HasPrefix(name, "../") || (name == "." && !isDir) {
+			return fmt.Errorf("unsafe filename in wheel zip archive: %q", file.Name)
+		}
 		if seenDir, dup := seen[name]; dup && !(seenDir && isDir) {
 			return fmt.Errorf("multiple entries in wheel zip archive: %q", name)
 		}
diff --git a/pkg/python/pypa/bdist/misc.go b/pkg/python/pypa/bdist/misc.go
index c50a4d7..6d36594 100644
--- a/pkg/python/pypa/bdist/misc.go
+++ b/pkg/python/pypa/bdist/misc.go
@@ -27,7 +27,7 @@ func sanitizePlatformForLayer(plat python.Platform) (python.Platform, error) {
 		&plat.Scheme.Data,
 	}
 	for _, pathPtr := range paths {
-		clean := strings.TrimPrefix(filepath.ToSlash(*pathPtr), "/")
+		clean := strings.TrimPrefix(path.Clean(filepath.ToSlash(*pathPtr)), "/")
 		*pathPtr = clean
 	}
 
diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index ee915cd..3665850 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -9,6 +9,7 @@ import (
 	"context"
 	"fmt"
 	"path"
+	"path/filepath"
 	"regexp"
 	"strings"
 	"text/template"
@@ -80,6 +81,10 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 				continue
 			}
 			for key, val := range sectionData {
+				if key == "." || key == ".." || strings.Contains(key, "/") {
+					return fmt.Errorf("entry_points.txt: %q: not a valid script name: %q",
+						sectionName, key)
+				}
 				m := reFuncRef.FindStringSubmatch(val)
 				if m == nil {
 					return fmt.Errorf("entry_points.txt: %q: %q: not a function reference: %q",
@@ -102,7 +107,7 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 				}
 				header := &tar.Header{
 					Typeflag: tar.TypeReg,
-					Name:     path.Join(plat.Scheme.Scripts[1:], key),
+					Name:     path.Join(path.Clean(filepath.ToSlash(plat.Scheme.Scripts))[1:], key),
 					Mode:     0o755,
 					Size:     int64(buf.Len()),
 					ModTime:  clampTime,
-- 
2.43.0


From 4890d39eb953bf6d7264ec9735ed7a578e5b4608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:03 +0000
Subject: [PATCH 14/41] fix: bdist: spread data files in a fixed order and
 never onto another file

Which file won when two of them installed to the same place, and whether a
moved file was moved again, depended on map iteration order.
---
 .../pypa/bdist/binary_distribution_format.go  | 15 +++++++++++----
 pkg/python/pypa/bdist/ioutil.go               | 19 +++++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 64c8633..b175134 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -287,10 +287,18 @@ func (wh *wheel) installToVFS(
 	}
 	vfsTypes := make(map[string]string)
 	dataDir := path.Join(dstDir, strings.TrimSuffix(distInfoDir, ".dist-info")+".data")
-	for fullName := range vfs {
+	dataVFS := make(map[string]fsutil.FileReference)
+	dataNames := make([]string, 0, len(vfs))
+	for fullName, file := range vfs {
 		if !strings.HasPrefix(fullName, dataDir+"/") {
 			continue
 		}
+		delete(vfs, fullName)
+		dataVFS[fullName] = file
+		dataNames = append(dataNames, fullName)
+	}
+	sort.Strings(dataNames)
+	for _, fullName := range dataNames {
 		relName := strings.TrimPrefix(fullName, dataDir+"/")
 		parts := strings.SplitN(relName, "/", 2)
 		key := parts[0]
@@ -315,17 +323,16 @@ func (wh *wheel) installToVFS(
 			return nil, "", fmt.Errorf("unsupported wheel data type %q: %q",
 				key, path.Join(strings.TrimSuffix(distInfoDir, ".dist-info")+".data", relName))
 		}
-		if rest == "" && !vfs[fullName].IsDir() {
+		if rest == "" && !dataVFS[fullName].IsDir() {
 			return nil, "", fmt.Errorf("wheel data type %q is not a directory", key)
 		}
 		newFullName := path.Join(dstDataDir, rest)
 		if newFullName == "" {
 			// the root directory itself
-			delete(vfs, fullName)
 			continue
 		}
 		vfsTypes[newFullName] = key
-		if err := rename(vfs, fullName, newFullName); err != nil {
+		if err := rename(dataVFS, fullName, vfs, newFullName); err != nil {
 			return nil, "", fmt.Errorf("spread: %w", err)
 		}
 	}
diff --git a/pkg/python/pypa/bdist/ioutil.go b/pkg/python/pypa/bdist/ioutil.go
index dd94628..b396bac 100644
--- a/pkg/python/pypa/bdist/ioutil.go
+++ b/pkg/python/pypa/bdist/ioutil.go
@@ -54,8 +54,11 @@ func (f *zipEntry) IsDir() bool                  { return f.header.FileInfo().Is
 func (f *zipEntry) Sys() interface{}             { return f.header.FileInfo().Sys() }
 func (f *zipEntry) Open() (io.ReadCloser, error) { return f.open() }
 
-func rename(vfs map[string]fsutil.FileReference, oldpath, newpath string) error {
-	ref, ok := vfs[oldpath]
+func rename(
+	oldvfs map[string]fsutil.FileReference, oldpath string,
+	newvfs map[string]fsutil.FileReference, newpath string,
+) error {
+	ref, ok := oldvfs[oldpath]
 	if !ok {
 		return &os.LinkError{
 			Op:  "rename",
@@ -65,12 +68,20 @@ func rename(vfs map[string]fsutil.FileReference, oldpath, newpath string) error
 		}
 	}
 	isDir := ref.IsDir() //nolint:ifshort // gotta do this before setting .header.Name
+	if existing, exists := newvfs[newpath]; exists && !(isDir && existing.IsDir()) {
+		return &os.LinkError{
+			Op:  "rename",
+			Old: oldpath,
+			New: newpath,
+			Err: os.ErrExist,
+		}
+	}
 	ref.(*zipEntry).header.Name = newpath
 	if isDir {
 		ref.(*zipEntry).header.Name += "/"
 	}
-	delete(vfs, oldpath)
-	vfs[newpath] = ref
+	delete(oldvfs, oldpath)
+	newvfs[newpath] = ref
 	return nil
 }
 
-- 
2.43.0


From 37c961a992bcc1ee3bd6caca0937da43751ec5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:39 +0000
Subject: [PATCH 15/41] fix: entry_points: import only the first component of a
 dotted object path

---
 pkg/python/pypa/entry_points/entry_points.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 3665850..021debc 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -28,7 +28,7 @@ var (
 # -*- coding: utf-8 -*-
 import re
 import sys
-from {{ .Module }} import {{ .Func }}
+from {{ .Module }} import {{ .ImportName }}
 if __name__ == '__main__':
     sys.argv[0] = re.sub(r'(-script\.pyw|\.exe)?$', '', sys.argv[0])
     sys.exit({{ .Func }}())
-- 
2.43.0


From 9eee82200092d89278eeb03d9cde8e127f1417cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:39 +0000
Subject: [PATCH 16/41] fix: entry_points: process the script groups in a fixed
 order

---
 pkg/python/pypa/entry_points/entry_points.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 021debc..628b968 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -70,12 +70,14 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 			return err
 		}
 
-		interesting := map[string]string{
-			"console_scripts": plat.ConsoleShebang,
-			"gui_scripts":     plat.GraphicalShebang,
+		// If a name is in both groups, then the GUI script wins.
+		interesting := []struct{ sectionName, shebang string }{
+			{"console_scripts", plat.ConsoleShebang},
+			{"gui_scripts", plat.GraphicalShebang},
 		}
 
-		for sectionName, shebang := range interesting {
+		for _, section := range interesting {
+			sectionName, shebang := section.sectionName, section.shebang
 			sectionData, ok := configData[sectionName]
 			if !ok {
 				continue
-- 
2.43.0


From 1e9f092384908e7d4b010394033768557e6d0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:39 +0000
Subject: [PATCH 17/41] fix: stat: give the FileAttribute constants their
 Windows values

---
 pkg/python/stat.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/python/stat.go b/pkg/python/stat.go
index fa75b76..66a2841 100644
--- a/pkg/python/stat.go
+++ b/pkg/python/stat.go
@@ -197,7 +197,7 @@ const (
 	FileAttributeNormal    StatFileAttribute = StatFileAttribute(_DOSUnused7)
 
 	// 1<<8 through 1<<15
-	FileAttributeTemporary StatFileAttribute = 1 << (8 + iota)
+	FileAttributeTemporary StatFileAttribute = 1 << iota
 	FileAttributeSparseFile
 	FileAttributeReparsePoint
 	FileAttributeCompressed
@@ -211,6 +211,8 @@ const (
 	FileAttributeNoScrubData
 	FileAttributeRecallOnOpen // not in Python 3.9.1 stat.py
 	_FileattributeUnused19
+	_FileattributeUnused20
+	_FileattributeUnused21
 	FileAttributeRecallOnDataAccess // not in Python 3.9.1 stat.py
 )
 
-- 
2.43.0


From 8bed364c63641b31507935a01001298aa2de4679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:14 +0000
Subject: [PATCH 18/41] fix: configparser: recognize the section headers that
 Python does

---
 pkg/python/configparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/configparser.go b/pkg/python/configparser.go
index deb6eb5..d25c6da 100644
--- a/pkg/python/configparser.go
+++ b/pkg/python/configparser.go
@@ -112,11 +112,11 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 		case curVal != nil && lineIndentLevel > 0 && lineIndentLevel > curIndentLevel:
 			// continuation line
 			curVal = append(curVal, value)
-		case strings.HasPrefix(value, "[") && strings.HasSuffix(value, "]"):
+		case strings.HasPrefix(value, "[") && strings.LastIndex(value, "]") > 1:
 			// section header
 			flushKV()
 			curIndentLevel = lineIndentLevel
-			sectName := strings.TrimSuffix(strings.TrimPrefix(value, "["), "]")
+			sectName := value[1:strings.LastIndex(value, "]")]
 			if _, exists := config[sectName]; !exists {
 				config[sectName] = make(ConfigSection)
 			} else if p.Strict {
-- 
2.43.0


From b1c1e7ee812a15b80c15a8fff747ad25295ed2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:14 +0000
Subject: [PATCH 19/41] fix: configparser: reject options that have no name

---
 pkg/python/configparser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/python/configparser.go b/pkg/python/configparser.go
index d25c6da..b56e7b7 100644
--- a/pkg/python/configparser.go
+++ b/pkg/python/configparser.go
@@ -143,7 +143,11 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 			if sepPos == len(value) {
 				return nil, fmt.Errorf("line %d: invalid line: %q", lineno, value)
 			}
-			curKey = p.OptionTransform(strings.TrimSpace(value[:sepPos]))
+			curKey = strings.TrimSpace(value[:sepPos])
+			if curKey == "" {
+				return nil, fmt.Errorf("line %d: invalid line: %q", lineno, value)
+			}
+			curKey = p.OptionTransform(curKey)
 			curVal = []string{
 				strings.TrimSpace(value[sepPos+sepLen:]),
 			}
-- 
2.43.0


From 36b63a1296b803c2d1cc29e2c4f3a82dc0d9656e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:14 +0000
Subject: [PATCH 20/41] fix: configparser: end the value at an empty line if
 !EmptyLinesInValues

---
 pkg/python/configparser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/python/configparser.go b/pkg/python/configparser.go
index b56e7b7..e2b3fcc 100644
--- a/pkg/python/configparser.go
+++ b/pkg/python/configparser.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 	"unicode"
 )
@@ -96,7 +97,8 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 					curVal = append(curVal, value)
 				}
 			} else {
-				curIndentLevel = 0
+				// an empty line marks the end of the value
+				curIndentLevel = math.MaxInt
 			}
 			continue
 		}
-- 
2.43.0


From fe170313a8e65fbc54e153676b265c70cbff4422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:14 +0000
Subject: [PATCH 21/41] fix: configparser: only take inline comments after
 whitespace

---
 pkg/python/configparser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/python/configparser.go b/pkg/python/configparser.go
index e2b3fcc..e2d7f22 100644
--- a/pkg/python/configparser.go
+++ b/pkg/python/configparser.go
@@ -9,6 +9,7 @@ import (
 	"math"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 type Config map[string]ConfigSection
@@ -76,9 +77,13 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 		// strip comments and whitespace
 		commentStart := len(line)
 		for _, commentPrefix := range p.InlineCommentPrefixes {
-			index := strings.Index(line, commentPrefix)
-			if index > 0 && index < commentStart {
-				commentStart = index
+			for index := range line[:commentStart] {
+				// only at the start of the line or after whitespace
+				before, _ := utf8.DecodeLastRuneInString(line[:index])
+				if strings.HasPrefix(line[index:], commentPrefix) && (index == 0 || unicode.IsSpace(before)) {
+					commentStart = index
+					break
+				}
 			}
 		}
 		for _, commentPrefix := range p.CommentPrefixes {
-- 
2.43.0


From 0de88f51ab9f6f5bb1ca2bd0ded053fd3daf9364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:03 +0000
Subject: [PATCH 22/41] fix: pep503: do not skip checksums if the URL fragment
 is malformed

---
 pkg/python/pep503/simple_repo_api.go | 31 ++++++++++++++--------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index fba7170..de9a57c 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -89,21 +89,22 @@ func (c Client) get(ctx context.Context, requestURL string) (_ *url.URL, _ []byt
 		return nil, nil, &HTTPError{Status: resp.Status, StatusCode: resp.StatusCode}
 	}
 	if u, err := url.Parse(requestURL); err == nil && u.Fragment != "" {
-		if keyvals, err := url.ParseQuery(u.Fragment); err == nil {
-			for key, vals := range keyvals {
-				for _, val := range vals {
-					newHasher := python.HashlibAlgorithmsGuaranteed[key]
-					if newHasher == nil {
-						continue
-					}
-					hasher := newHasher()
-					hasher.Write(content)
-					sum := hex.EncodeToString(hasher.Sum(nil))
-					if sum != val {
-						//nolint:lll // error string
-						return nil, nil, fmt.Errorf("checksum mismatch: %s: expected=%s actual=%s",
-							key, val, sum)
-					}
+		keyvals, err := url.ParseQuery(u.Fragment)
+		if err != nil {
+			return nil, nil, fmt.Errorf("malformed URL fragment: %w", err)
+		}
+		for key, vals := range keyvals {
+			for _, val := range vals {
+				newHasher := python.HashlibAlgorithmsGuaranteed[key]
+				if newHasher == nil {
+					continue
+				}
+				hasher := newHasher()
+				hasher.Write(content)
+				sum := hex.EncodeToString(hasher.Sum(nil))
+				if sum != val {
+					return nil, nil, fmt.Errorf("checksum mismatch: %s: expected=%s actual=%s",
+						key, val, sum)
 				}
 			}
 		}
-- 
2.43.0


From 0b4692e68e60a65e9508298b93cedd8e5c8f29eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:03 +0000
Subject: [PATCH 23/41] fix: pep503: request project pages with a trailing
 slash

---
 pkg/python/pep503/simple_repo_api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index de9a57c..c2abe9c 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -257,7 +257,8 @@ func (c Client) ListPackageFiles(ctx context.Context, pkgname string) ([]FileLin
 	if err != nil {
 		return nil, err
 	}
-	u.Path = path.Join(u.Path, normalize(pkgname))
+	// "All URLs which respond with an HTML5 page MUST end with a `/`"
+	u.Path = path.Join(u.Path, normalize(pkgname)) + "/"
 	rawLinks, err := c.getHTML5Index(ctx, u.String())
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f84cdafebd15b54e26cdf0f023a28eaab9749fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:03 +0000
Subject: [PATCH 24/41] fix: pep503: fetch the signature instead of the signed
 file

---
 pkg/python/pep503/simple_repo_api.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index c2abe9c..1c186d1 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -290,14 +290,27 @@ func (l FileLink) Get(ctx context.Context) ([]byte, error) {
 var ErrNoSignature = errors.New("no signature")
 
 func (l FileLink) GetSignature(ctx context.Context) ([]byte, error) {
+	// "If there is a GPG signature for a particular distribution file it MUST live alongside
+	// that file with the same name with a `.asc` appended to it."
+	u, err := url.Parse(l.HRef)
+	if err != nil {
+		return nil, err
+	}
+	u.Path += ".asc"
+	if u.RawPath != "" {
+		u.RawPath += ".asc"
+	}
+	u.Fragment, u.RawFragment = "", "" // that's the checksum of the file, not of the signature
+	sigURL := u.String()
+
 	switch l.DataAttrs["data-gpg-sig"] {
 	case "false":
 		return nil, ErrNoSignature
 	case "true":
-		_, content, err := l.client.get(ctx, l.HRef)
+		_, content, err := l.client.get(ctx, sigURL)
 		return content, err
 	default:
-		_, content, err := l.client.get(ctx, l.HRef)
+		_, content, err := l.client.get(ctx, sigURL)
 		var httpErr *HTTPError
 		if err != nil && errors.As(err, &httpErr) && httpErr.StatusCode == http.StatusNotFound {
 			err = ErrNoSignature
-- 
2.43.0


From daf1969159b715f52a66ed79f04a4168aac3403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:04 +0000
Subject: [PATCH 25/41] fix: simple_repo_api: prefer the highest build tag

---
 pkg/python/pypa/simple_repo_api/pypa_repo_api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
index 3092c07..2871602 100644
--- a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
+++ b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
@@ -99,7 +99,7 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 	sort.Slice(links, func(i, j int) bool {
 		iInfo, _ := bdist.ParseFilename(links[i].Text)
 		jInfo, _ := bdist.ParseFilename(links[j].Text)
-		return iInfo.BuildTag.Cmp(jInfo.BuildTag) < 0
+		return iInfo.BuildTag.Cmp(jInfo.BuildTag) > 0
 	})
 	ret := links[0]
 	return &ret, nil
-- 
2.43.0


From 58fc23d80cb8c72e0f974fc1a55d695c86a60755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:36 +0000
Subject: [PATCH 26/41] fix: simple_repo_api, pep592: treat equal versions as
 one however they are spelled

---
 pkg/python/pep592/yank.go                        | 16 +++++++++-------
 pkg/python/pypa/simple_repo_api/pypa_repo_api.go |  9 ++++++---
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/pkg/python/pep592/yank.go b/pkg/python/pep592/yank.go
index 86784c1..882ccbe 100644
--- a/pkg/python/pep592/yank.go
+++ b/pkg/python/pep592/yank.go
@@ -15,26 +15,28 @@ func IsYanked(l pep503.FileLink) bool {
 }
 
 type excludeYanked struct {
-	yankedVersions map[string]struct{}
+	yankedVersions []pep440.Version
 }
 
 func ExcludeYanked(links []pep503.FileLink) pep440.ExclusionBehavior {
-	ret := excludeYanked{
-		yankedVersions: make(map[string]struct{}),
-	}
+	var ret excludeYanked
 	for _, link := range links {
 		if IsYanked(link) {
 			fileInfo, err := bdist.ParseFilename(link.Text)
 			if err != nil {
 				continue
 			}
-			ret.yankedVersions[fileInfo.Version.String()] = struct{}{}
+			ret.yankedVersions = append(ret.yankedVersions, fileInfo.Version)
 		}
 	}
 	return ret
 }
 
 func (e excludeYanked) Allow(v pep440.Version) bool {
-	_, yanked := e.yankedVersions[v.String()]
-	return !yanked
+	for _, yanked := range e.yankedVersions {
+		if yanked.Cmp(v) == 0 {
+			return false
+		}
+	}
+	return true
 }
diff --git a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
index 2871602..0fe1655 100644
--- a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
+++ b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
@@ -47,7 +47,6 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		return nil, err
 	}
 	// 1. Filter by version
-	version2links := make(map[string][]pep503.FileLink)
 	var whlLinks []pep503.FileLink //nolint:prealloc // 'continue' is quite likely
 	var versions []pep440.Version  //nolint:prealloc // 'continue' is quite likely
 	for _, link := range links {
@@ -58,7 +57,6 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		if !c.SupportedTags.Supports(linkInfo.CompatibilityTag) {
 			continue
 		}
-		version2links[linkInfo.Version.String()] = append(version2links[linkInfo.Version.String()], link)
 		whlLinks = append(whlLinks, link)
 		versions = append(versions, linkInfo.Version)
 	}
@@ -71,7 +69,12 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 	if selectedVersion == nil {
 		return nil, fmt.Errorf("no matches for %q %q", pkgname, version.String())
 	}
-	links = version2links[selectedVersion.String()]
+	links = nil
+	for i, link := range whlLinks {
+		if versions[i].Cmp(*selectedVersion) == 0 {
+			links = append(links, link)
+		}
+	}
 	if len(links) == 1 {
 		ret := links[0]
 		return &ret, nil
-- 
2.43.0


From d80d5aa3632445252d68f7433580d09f6e5c09f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:36 +0000
Subject: [PATCH 27/41] fix: simple_repo_api, pep592: only ignore the files
 that are yanked

---
 pkg/python/pep592/yank.go                      | 18 ++++++++++++++----
 .../pypa/simple_repo_api/pypa_repo_api.go      | 11 ++++++++++-
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/pkg/python/pep592/yank.go b/pkg/python/pep592/yank.go
index 882ccbe..e2f550d 100644
--- a/pkg/python/pep592/yank.go
+++ b/pkg/python/pep592/yank.go
@@ -16,23 +16,33 @@ func IsYanked(l pep503.FileLink) bool {
 
 type excludeYanked struct {
 	yankedVersions []pep440.Version
+	goodVersions   []pep440.Version
 }
 
+// ExcludeYanked returns an ExclusionBehavior that excludes versions that have nothing but yanked
+// files.
 func ExcludeYanked(links []pep503.FileLink) pep440.ExclusionBehavior {
 	var ret excludeYanked
 	for _, link := range links {
+		fileInfo, err := bdist.ParseFilename(link.Text)
+		if err != nil {
+			continue
+		}
 		if IsYanked(link) {
-			fileInfo, err := bdist.ParseFilename(link.Text)
-			if err != nil {
-				continue
-			}
 			ret.yankedVersions = append(ret.yankedVersions, fileInfo.Version)
+		} else {
+			ret.goodVersions = append(ret.goodVersions, fileInfo.Version)
 		}
 	}
 	return ret
 }
 
 func (e excludeYanked) Allow(v pep440.Version) bool {
+	for _, good := range e.goodVersions {
+		if good.Cmp(v) == 0 {
+			return true
+		}
+	}
 	for _, yanked := range e.yankedVersions {
 		if yanked.Cmp(v) == 0 {
 			return false
diff --git a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
index 0fe1655..f72bc2a 100644
--- a/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
+++ b/pkg/python/pypa/simple_repo_api/pypa_repo_api.go
@@ -70,11 +70,20 @@ func (c Client) SelectWheel(ctx context.Context, pkgname string, version pep440.
 		return nil, fmt.Errorf("no matches for %q %q", pkgname, version.String())
 	}
 	links = nil
+	var yankedLinks []pep503.FileLink
 	for i, link := range whlLinks {
-		if versions[i].Cmp(*selectedVersion) == 0 {
+		if versions[i].Cmp(*selectedVersion) != 0 {
+			continue
+		}
+		if pep592.IsYanked(link) {
+			yankedLinks = append(yankedLinks, link)
+		} else {
 			links = append(links, link)
 		}
 	}
+	if len(links) == 0 {
+		links = yankedLinks
+	}
 	if len(links) == 1 {
 		ret := links[0]
 		return &ret, nil
-- 
2.43.0


From 343f7ddc9e3574ab8e259e700b2665f45947ec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:31 +0000
Subject: [PATCH 28/41] fix: image build: report an unreadable base config
 instead of crashing

---
 cmd_image_build.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd_image_build.go b/cmd_image_build.go
index 4735172..686072b 100644
--- a/cmd_image_build.go
+++ b/cmd_image_build.go
@@ -159,7 +159,10 @@ func init() {
 			}
 
 			if !flags.config.IsZero() {
-				configFile, _ := img.ConfigFile()
+				configFile, err := img.ConfigFile()
+				if err != nil {
+					return err
+				}
 
 				flags.config.ApplyTo(&configFile.Config)
 
-- 
2.43.0


From 894c15aa208dbd3c19589a44f9fe68a0c22d8f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:32 +0000
Subject: [PATCH 29/41] fix: python: keep the serial number of a pre-release
 interpreter

---
 pkg/python/platform.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/python/platform.go b/pkg/python/platform.go
index ffb6860..32f31d2 100644
--- a/pkg/python/platform.go
+++ b/pkg/python/platform.go
@@ -43,11 +43,11 @@ func (vi VersionInfo) PEP440() (*pep440.Version, error) {
 	}
 	switch vi.ReleaseLevel {
 	case "alpha":
-		ret.Pre = &pep440.PreRelease{L: "a", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "a", N: vi.Serial}
 	case "beta":
-		ret.Pre = &pep440.PreRelease{L: "b", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "b", N: vi.Serial}
 	case "candidate":
-		ret.Pre = &pep440.PreRelease{L: "rc", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "rc", N: vi.Serial}
 	case "final":
 		ret.Pre = nil
 	default:
-- 
2.43.0


From 8a9363f7b7dd358cc6e94cd8fa12a709be4d0305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:33 +0000
Subject: [PATCH 30/41] fix: pyinspect: accept absolute image paths that are
 not clean

---
 pkg/python/pyinspect/fs_image.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pyinspect/fs_image.go b/pkg/python/pyinspect/fs_image.go
index d22343c..c52d5e4 100644
--- a/pkg/python/pyinspect/fs_image.go
+++ b/pkg/python/pyinspect/fs_image.go
@@ -100,7 +100,12 @@ func (sys *ImageFS) Stat(name string) (FileInfo, error) {
 	if err := sys.ensureInitialized(); err != nil {
 		return nil, err
 	}
-	fileinfo, err := fs.Stat(sys.imgFS, name[1:])
+	// Unlike os.Stat, io/fs only takes clean names without the leading slash.
+	fsName := path.Clean(name)[1:]
+	if fsName == "" {
+		fsName = "."
+	}
+	fileinfo, err := fs.Stat(sys.imgFS, fsName)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 090e9970212aa6e7e5bd090f54b15c3dcae1e368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:04 +0000
Subject: [PATCH 31/41] fix: py_compile: report an empty compiler command
 instead of crashing

---
 pkg/python/py_compile.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/python/py_compile.go b/pkg/python/py_compile.go
index c70b0cf..3881db5 100644
--- a/pkg/python/py_compile.go
+++ b/pkg/python/py_compile.go
@@ -37,6 +37,9 @@ type Compiler func(
 //
 //     plat.Compile = ExternalCompiler("python3", "-m", "compileall")
 func ExternalCompiler(cmdline ...string) (Compiler, error) {
+	if len(cmdline) == 0 {
+		return nil, fmt.Errorf("no command given for compiling Python files")
+	}
 	exe, err := dexec.LookPath(cmdline[0])
 	if err != nil {
 		return nil, err
-- 
2.43.0


From da1871336e08fff51d32a61f198a35ae9413a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:51 +0000
Subject: [PATCH 32/41] fix: remove the image from Docker even when the context
 is canceled

---
 pkg/dockerutil/docker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/dockerutil/docker.go b/pkg/dockerutil/docker.go
index 061bb3d..ddc6cc2 100644
--- a/pkg/dockerutil/docker.go
+++ b/pkg/dockerutil/docker.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"time"
 
+	"github.com/datawire/dlib/dcontext"
 	"github.com/datawire/dlib/dexec"
 	"github.com/google/go-containerregistry/pkg/name"
 	ociv1 "github.com/google/go-containerregistry/pkg/v1"
@@ -34,6 +35,8 @@ func WithImage(
 		return err
 	}
 	defer func() {
+		// Don't let a canceled ctx keep the image from being removed.
+		ctx := dcontext.WithoutCancel(ctx)
 		maybeSetErr(dexec.CommandContext(ctx, "docker", "image", "rm", tag.String()).Run())
 	}()
 	cmd := dexec.CommandContext(ctx, "docker", "image", "load")
-- 
2.43.0


From 6e18351a337dbbbcdfb447bbe80390233f521a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:55 +0000
Subject: [PATCH 33/41] fix: dir: follow a link to the directory and refuse a
 non-directory

filepath.Walk does not follow the root if it is a symlink, and happily walks a
regular file; in both cases LayerFromDir silently made an empty layer.
---
 pkg/dir/dir.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index 01cc923..bfcb91f 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"syscall"
 	"time"
 
 	ociv1 "github.com/google/go-containerregistry/pkg/v1"
@@ -43,6 +44,23 @@ func LayerFromDir(
 		Info fs.FileInfo
 	}
 
+	// filepath.Walk doesn't follow symlinks (not even for the root), and doesn't require that
+	// the root be a directory.
+	rootname, err := filepath.EvalSymlinks(dirname)
+	if err != nil {
+		return nil, err
+	}
+	if info, err := os.Stat(rootname); err != nil {
+		return nil, err
+	} else if !info.IsDir() {
+		return nil, &fs.PathError{
+			Op:   "open",
+			Path: dirname,
+			Err:  syscall.ENOTDIR,
+		}
+	}
+	dirname = rootname
+
 	var byteWriter bytes.Buffer
 	tarWriter := tar.NewWriter(&byteWriter)
 
@@ -73,7 +91,7 @@ func LayerFromDir(
 		}
 	}
 
-	err := filepath.Walk(dirname, func(filename string, info fs.FileInfo, e error) error {
+	err = filepath.Walk(dirname, func(filename string, info fs.FileInfo, e error) error {
 		if e != nil {
 			return e
 		}
-- 
2.43.0


From e3616cf427d71c58c95cd0e85ca687d2fa8fd575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:15 +0000
Subject: [PATCH 34/41] fix: entry_points: close entry_points.txt after reading
 it

---
 pkg/python/pypa/entry_points/entry_points.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 628b968..409af8c 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -64,6 +64,7 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 		if err != nil {
 			return err
 		}
+		defer configReader.Close()
 
 		configData, err := configParser.Parse(configReader)
 		if err != nil {
-- 
2.43.0


From 80d16bea9ba3381666edf604affdd14433c61305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:56 +0000
Subject: [PATCH 35/41] fix: bdist: do not pass directories named "*.py" to the
 bytecode compiler

A wheel may contain explicit directory entries; one whose name ends in
".py" was handed to the compiler as a source file, which made the
installation fail.
---
 pkg/python/pypa/bdist/binary_distribution_format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index b175134..133abdb 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -359,7 +359,7 @@ func (wh *wheel) installToVFS(
 	//      enough to remove .pyc even if it is not mentioned in RECORD.)
 	var srcs []fsutil.FileReference //nolint:prealloc // 'continue' is quite likely
 	for _, file := range vfs {
-		if !strings.HasSuffix(file.Name(), ".py") {
+		if file.IsDir() || !strings.HasSuffix(file.Name(), ".py") {
 			continue
 		}
 		srcs = append(srcs, file)
-- 
2.43.0


From 5c67c9908b35a80d304150f788b9d57625795a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:00 +0000
Subject: [PATCH 36/41] fix: fsutil: comparing layers reports a truncated layer
 as an error

A layer whose data ends in the middle of a file was taken for one with a
shorter file, so the layers were said to differ instead of that one of
them cannot be read.
---
 pkg/fsutil/diff.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pkg/fsutil/diff.go b/pkg/fsutil/diff.go
index 7501c20..a05c510 100644
--- a/pkg/fsutil/diff.go
+++ b/pkg/fsutil/diff.go
@@ -10,17 +10,31 @@ import (
 	ociv1 "github.com/google/go-containerregistry/pkg/v1"
 )
 
+// readChunk is like io.ReadFull, but a short read because of the end of the data is not an error, and
+// so is distinguishable from the io.ErrUnexpectedEOF that a truncated stream gives.
+func readChunk(r io.Reader, buf []byte) (n int, err error) {
+	for n < len(buf) && err == nil {
+		var nn int
+		nn, err = r.Read(buf[n:])
+		n += nn
+	}
+	if errors.Is(err, io.EOF) {
+		err = nil
+	}
+	return n, err
+}
+
 func readersEqual(a, b io.Reader) (equal bool, err error) {
 	const chunkSize = 1024
 
 	var aBuf, bBuf [chunkSize]byte
 	for {
-		aLen, err := io.ReadFull(a, aBuf[:])
-		if err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
+		aLen, err := readChunk(a, aBuf[:])
+		if err != nil {
 			return false, err
 		}
-		bLen, err := io.ReadFull(b, bBuf[:])
-		if err != nil && !errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF) {
+		bLen, err := readChunk(b, bBuf[:])
+		if err != nil {
 			return false, err
 		}
 		if !bytes.Equal(aBuf[:aLen], bBuf[:bLen]) {
-- 
2.43.0


From f3bc36e9cf2f864e01e93083757532afd8fb2236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:20 +0000
Subject: [PATCH 37/41] fix: dir: LayerFromDir no longer writes the default
 mode to the caller's Prefix

---
 pkg/dir/dir.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index bfcb91f..1331c69 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -67,8 +67,9 @@ func LayerFromDir(
 	var log []logEntry
 
 	if prefix != nil {
-		if prefix.Mode == 0 {
-			prefix.Mode = 0o755
+		mode := prefix.Mode
+		if mode == 0 {
+			mode = 0o755
 		}
 		var dirs []string
 		for dir := prefix.DirName; dir != "."; dir = path.Dir(dir) {
@@ -80,7 +81,7 @@ func LayerFromDir(
 				Typeflag: tar.TypeDir,
 				ModTime:  clampTime,
 
-				Mode:  int64(prefix.Mode),
+				Mode:  int64(mode),
 				Uid:   prefix.UID,
 				Uname: prefix.UName,
 				Gid:   prefix.GID,
-- 
2.43.0


From 80ecfa54a8b7883b9eed6e104852e33da875b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:33 +0000
Subject: [PATCH 38/41] fix: fsutil: LayerFromFileReferences no longer reorders
 the caller's slice

---
 pkg/fsutil/fileref.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/fsutil/fileref.go b/pkg/fsutil/fileref.go
index c045ad0..7adb128 100644
--- a/pkg/fsutil/fileref.go
+++ b/pkg/fsutil/fileref.go
@@ -28,6 +28,7 @@ func LayerFromFileReferences(
 	clampTime time.Time,
 	opts ...ociv1tarball.LayerOption,
 ) (ociv1.Layer, error) {
+	vfs = append([]FileReference(nil), vfs...) // don't reorder the caller's slice
 	sort.Slice(vfs, func(i, j int) bool {
 		// Do a part-wise comparison, rather than a simple string compare on .Fullname(),
 		// because "-" < "/" < EOF.
-- 
2.43.0


From 4baa8b17bcb4a3ed607cb281f9116e95984283b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:33 +0000
Subject: [PATCH 39/41] fix: py_compile: don't write to spare capacity of the
 caller's command line

---
 pkg/python/py_compile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/py_compile.go b/pkg/python/py_compile.go
index 3881db5..6e99253 100644
--- a/pkg/python/py_compile.go
+++ b/pkg/python/py_compile.go
@@ -128,7 +128,7 @@ func ExternalCompiler(cmdline ...string) (Compiler, error) {
 		}
 
 		// Run the compiler
-		cmd := dexec.CommandContext(ctx, exe, append(cmdline[1:],
+		cmd := dexec.CommandContext(ctx, exe, append(cmdline[1:len(cmdline):len(cmdline)],
 			"-s", tmpdir, // strip-dir for the in-.pyc filename
 			"-p", "/", // prepend-dir for the in-.pyc filename
 			tmpdir, // directory to compile
-- 
2.43.0


From 4de5db9afac311ba1ea613bb095735bc6a10a6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:33 +0000
Subject: [PATCH 40/41] fix: pyinspect: don't write to spare capacity of the
 caller's command line

---
 pkg/python/pyinspect/pyinspect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pyinspect/pyinspect.go b/pkg/python/pyinspect/pyinspect.go
index aeb07ef..9b072ef 100644
--- a/pkg/python/pyinspect/pyinspect.go
+++ b/pkg/python/pyinspect/pyinspect.go
@@ -87,7 +87,7 @@ type DynamicInfo struct {
 }
 
 func Dynamic(ctx context.Context, cmdline ...string) (*DynamicInfo, error) {
-	cmd := dexec.CommandContext(ctx, cmdline[0], append(cmdline[1:], "-c", `
+	cmd := dexec.CommandContext(ctx, cmdline[0], append(cmdline[1:len(cmdline):len(cmdline)], "-c", `
 import json
 import sys
 from base64 import b64encode
-- 
2.43.0


From 41983bf77ee28b233918910fee605fc1e15593b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 41/41] fix: keep escaped slashes in the base URL when listing
 a package's files

---
 pkg/python/pep503/simple_repo_api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index 1c186d1..79d4321 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -259,6 +259,9 @@ func (c Client) ListPackageFiles(ctx context.Context, pkgname string) ([]FileLin
 	}
 	// "All URLs which respond with an HTML5 page MUST end with a `/`"
 	u.Path = path.Join(u.Path, normalize(pkgname)) + "/"
+	if u.RawPath != "" {
+		u.RawPath = path.Join(u.RawPath, normalize(pkgname)) + "/"
+	}
 	rawLinks, err := c.getHTML5Index(ctx, u.String())
 	if err != nil {
 		return nil, err
-- 
2.43.0

