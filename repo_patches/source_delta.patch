From d5038cf455197a4a1f49dc3e73487221c4ffd349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 01/35] fix: report a missing source when copying a file

CopyFile returned success without creating the destination when the source
could not be examined, so a repository could record a package whose file was
never put in place.
---
 src/ferryd/core/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index b70fa06..19c5b1b 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -38,7 +38,7 @@ func CopyFile(source, dest string) error {
 	// Stat the source first
 	st, err = os.Stat(source)
 	if err != nil {
-		return nil
+		return err
 	}
 	if src, err = os.Open(source); err != nil {
 		return err
-- 
2.43.0


From 77e7be931212f3799d0fd070ccfa5c49452111e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 02/35] fix: do not truncate a file that is copied onto itself

Copying a file onto itself, or onto an existing hard link to it, truncated it:
pulling a repository into itself emptied its asset files, and repeating an
interrupted insert destroyed the package in the pool, the repository and the
upload area alike.
---
 src/ferryd/core/util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 19c5b1b..370ba45 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -40,6 +40,11 @@ func CopyFile(source, dest string) error {
 	if err != nil {
 		return err
 	}
+	// Opening the destination truncates it: if it already is the source (same
+	// path, or an existing hard link to it), there is nothing to copy.
+	if dt, e := os.Stat(dest); e == nil && os.SameFile(st, dt) {
+		return nil
+	}
 	if src, err = os.Open(source); err != nil {
 		return err
 	}
-- 
2.43.0


From beb66ed1f2ffd4504ba7f588878f082f3ced26a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 03/35] fix: keep a package's deltas when another release of it
 is added

The rebuilt entry dropped the list of deltas, so they vanished from the index,
could never be released again, and later broke the repository they leaked from.
---
 src/ferryd/core/repo.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index c0344f5..f9158f7 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -632,6 +632,7 @@ func (r *Repository) buildSaneEntry(db libdb.Database, pool *Pool, newPkg *libeo
 	if entry != nil {
 		repoEntry.Available = entry.Available
 		repoEntry.Published = entry.Published
+		repoEntry.Deltas = entry.Deltas
 
 		pkgAvail, err := pool.GetEntry(db, repoEntry.Published)
 		if err == nil {
-- 
2.43.0


From 198d8df3002d68a800017e7576201e8f3e1a0f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 04/35] fix: honour skipIndex in CopySource instead of its
 opposite

---
 src/ferryd/core/api.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ferryd/core/api.go b/src/ferryd/core/api.go
index 71e97de..f66d02d 100644
--- a/src/ferryd/core/api.go
+++ b/src/ferryd/core/api.go
@@ -123,10 +123,10 @@ func (m *Manager) CopySource(repoID, target, sourceID string, release int, skipI
 	}
 
 	if skipIndex {
-		return m.Index(target)
-	} else {
 		return nil
 	}
+
+	return m.Index(target)
 }
 
 // TrimObsolete will ask the repo to remove obsolete packages
-- 
2.43.0


From b6d0e5261c6de43916870d71c5a04c3ea2cec176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 05/35] fix: trim every version of every obsolete package

Packages named on the obsolete list were never removed, only their -dbginfo
companions, and of those only the first version.
---
 src/ferryd/core/repo.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index f9158f7..5088bc8 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -1180,16 +1180,15 @@ func (r *Repository) TrimObsolete(db libdb.Database, pool *Pool) error {
 
 			// Check if its obsolete, if its automatically obsolete through our
 			// dbginfo trick, warn in the console
-			if r.dist != nil && r.dist.IsObsolete(nom) {
+			if r.dist.IsObsolete(poolEntry.Meta.Name) || r.dist.IsObsolete(nom) {
 				if nom != entry.Name {
 					// Scream really loudly, but remove it because its "just" dbginfo.
 					log.WithFields(log.Fields{
 						"repo": r.ID,
 						"name": poolEntry.Meta.Name,
 					}).Error("Abandoned obsolete package. Removing!")
-					removalIDs = append(removalIDs, id)
 				}
-				return nil
+				removalIDs = append(removalIDs, id)
 			}
 		}
 
-- 
2.43.0


From bd1489cc7fc7b099501d60659eba4f491c68d587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 06/35] fix: do not iterate into buckets whose name merely
 starts alike

Iteration and sequence allocation matched every bucket whose name starts with
that of the bucket at hand, so a repository showed, copied and deleted packages
of repositories named like it.
---
 src/libdb/leveldb.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libdb/leveldb.go b/src/libdb/leveldb.go
index 4dee577..5b782e6 100644
--- a/src/libdb/leveldb.go
+++ b/src/libdb/leveldb.go
@@ -56,7 +56,7 @@ func newLevelDBHandle(storagePath string) (*levelDb, error) {
 	handle.db = ldb
 	handle.prefix = []byte("|rootBucket|")
 	handle.keyPrefix = []byte("|rootBucket|-")
-	handle.prefixBytes = util.BytesPrefix(handle.prefix)
+	handle.prefixBytes = util.BytesPrefix(handle.keyPrefix)
 	handle.seqLock = &sync.Mutex{}
 	handle.initClosable()
 	return handle, nil
@@ -153,11 +153,12 @@ func (l *levelDbHandle) Bucket(id []byte) Database {
 	} else {
 		newID = []byte(fmt.Sprintf("%s-%s", string(bucketPrefix), id))
 	}
+	keyPrefix := []byte(fmt.Sprintf("%s-", string(newID)))
 	ret := &levelDbHandle{
 		db:          l.db,
 		prefix:      newID,
-		keyPrefix:   []byte(fmt.Sprintf("%s-", string(newID))),
-		prefixBytes: util.BytesPrefix(newID),
+		keyPrefix:   keyPrefix,
+		prefixBytes: util.BytesPrefix(keyPrefix), // not newID: it also matches longer bucket names
 		batch:       l.batch,
 		seqLock:     l.seqLock,
 	}
-- 
2.43.0


From defb5253cfaddfe230c2e5112039618d29c3b99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 07/35] fix: list active jobs even when one of them has no
 usable handler

A queued delta job, or one with malformed parameters, made every status request
fail until it had been dealt with.
---
 src/ferryd/jobs/store.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 292070b..0ce9a47 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -19,6 +19,7 @@ package jobs
 import (
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"sync"
 	"time"
 
@@ -357,14 +358,16 @@ func (s *JobStore) cloneCurrentJobs(ret *[]*libferry.Job, bucketID []byte) error
 				return err
 			}
 
-			// Now stuff the job into the ret
-			hnd, err := NewJobHandler(j)
-			if err != nil {
-				return err
+			// A job without a usable handler is going to fail when it runs, but
+			// must not hide every other job until then
+			description := fmt.Sprintf("Invalid job of type '%s'", j.Type)
+			if hnd, err := NewJobHandler(j); err == nil {
+				description = hnd.Describe()
 			}
 
+			// Now stuff the job into the ret
 			r := &libferry.Job{
-				Description: hnd.Describe(),
+				Description: description,
 				Timing:      j.Timing,
 			}
 			*ret = append(*ret, r)
-- 
2.43.0


From 9a855d7f3560664c88da7a6ceb918806e04428e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 08/35] fix: keep characters split over two writes intact in
 the index

The XML encoder hands over its buffer in 4096 byte pieces, so a multi-byte
character at such a boundary was replaced by U+FFFD characters.
---
 src/ferryd/core/escape.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/core/escape.go b/src/ferryd/core/escape.go
index c16991f..1e55daf 100644
--- a/src/ferryd/core/escape.go
+++ b/src/ferryd/core/escape.go
@@ -9,7 +9,8 @@ import (
 
 // EscapedWriter is a writer that escapes non-ASCII sequences written to it using HTML encoding.
 type EscapedWriter struct {
-	w io.Writer
+	w       io.Writer
+	partial []byte // Start of a character whose remainder is yet to be written
 }
 
 // NewEscapedWriter returns an initialised EscapedWriter.
@@ -20,9 +21,17 @@ func NewEscapedWriter(w io.Writer) *EscapedWriter {
 // Write implements [io.Writer].
 func (e *EscapedWriter) Write(b []byte) (n int, err error) {
 	n = len(b)
+	b = append(e.partial, b...)
+	e.partial = nil
 	escaped := make([]byte, 0, len(b))
 
 	for len(b) > 0 {
+		// Callers may split a character over several writes
+		if !utf8.FullRune(b) {
+			e.partial = append(e.partial, b...)
+			break
+		}
+
 		r, size := utf8.DecodeRune(b)
 		escaped = e.appendRune(escaped, r)
 		b = b[size:]
-- 
2.43.0


From 15adf8575fda5afe0ca12b5326e73d05b97c176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 09/35] fix: emit index text as character data rather than
 CDATA

Character references are not interpreted within CDATA sections, so every
escaped symbol or space of a summary, description or comment showed up as
literal '&#x...;' text in the index.
---
 src/libeopkg/distribution.go | 2 +-
 src/libeopkg/main.go         | 2 +-
 src/libeopkg/metadata.go     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libeopkg/distribution.go b/src/libeopkg/distribution.go
index 6105bff..1adb7ff 100644
--- a/src/libeopkg/distribution.go
+++ b/src/libeopkg/distribution.go
@@ -27,7 +27,7 @@ type Distribution struct {
 
 	// Translated description
 	Description []struct {
-		Value string `xml:",cdata"`
+		Value string `xml:",chardata"`
 		Lang  string `xml:"lang,attr,omitempty"`
 	}
 
diff --git a/src/libeopkg/main.go b/src/libeopkg/main.go
index 4cf8ee0..fd80694 100644
--- a/src/libeopkg/main.go
+++ b/src/libeopkg/main.go
@@ -40,7 +40,7 @@ var (
 // LocalisedField is used in various parts of the eopkg metadata to provide
 // a field value with an xml:lang attribute describing the language
 type LocalisedField struct {
-	Value string `xml:",cdata"`
+	Value string `xml:",chardata"`
 	Lang  string `xml:"http://www.w3.org/XML/1998/namespace lang,attr,omitempty"`
 }
 
diff --git a/src/libeopkg/metadata.go b/src/libeopkg/metadata.go
index 0ee0ef4..2d76bd5 100644
--- a/src/libeopkg/metadata.go
+++ b/src/libeopkg/metadata.go
@@ -71,10 +71,10 @@ type Update struct {
 	Date    string // When the update was issued
 	Version string // Version of the package at the time of this update
 	Comment struct {
-		Value string `xml:",cdata"` // Comment explaining  the update
+		Value string `xml:",chardata"` // Comment explaining  the update
 	}
 	Name struct {
-		Value string `xml:",cdata"` // Updater's name
+		Value string `xml:",chardata"` // Updater's name
 	}
 	Email string // Updater's email
 
-- 
2.43.0


From 65bb555daf8056083e61c13579716fce9d124cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 10/35] fix: do not crash on a package, component or group
 without localised text

Indexing the first element of an empty list took the whole daemon down, and
again after every restart because the job was still queued.
---
 src/libeopkg/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopkg/main.go b/src/libeopkg/main.go
index fd80694..f2ab204 100644
--- a/src/libeopkg/main.go
+++ b/src/libeopkg/main.go
@@ -47,7 +47,7 @@ type LocalisedField struct {
 // FixMissingLocalLanguage should be used on a set of LocalisedField to restore
 // the missing "en" that is required in the very first field set.
 func FixMissingLocalLanguage(fields *[]LocalisedField) {
-	if fields == nil {
+	if fields == nil || len(*fields) == 0 {
 		return
 	}
 	field := &(*fields)[0]
-- 
2.43.0


From 4745668060c9920c5b5313161391f2d2894f203a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 11/35] fix: reject packages whose metadata is incomplete or
 holds paths

A package without a source name or history crashed the daemon, and one whose
names contain path separators was stored, and later deleted, outside of the
pool and repository.
---
 src/libeopkg/metadata.go | 17 +++++++++++++++++
 src/libeopkg/package.go  |  3 +++
 2 files changed, 20 insertions(+)

diff --git a/src/libeopkg/metadata.go b/src/libeopkg/metadata.go
index 2d76bd5..a61568f 100644
--- a/src/libeopkg/metadata.go
+++ b/src/libeopkg/metadata.go
@@ -175,6 +175,23 @@ type Metadata struct {
 	Package MetaPackage `xml:"Package"` // Meta on the package itself
 }
 
+// isSane determines whether the metadata has everything that the rest of the
+// code relies on, and nothing that would lead a path made of it astray.
+func (m *MetaPackage) isSane() bool {
+	if m.Name == "" || m.Source.Name == "" || len(m.History) == 0 {
+		return false
+	}
+	if m.Source.Name == "." || m.Source.Name == ".." {
+		return false
+	}
+	for _, s := range []string{m.Name, m.Source.Name, m.GetVersion(), m.DistributionRelease, m.Architecture} {
+		if strings.ContainsRune(s, '/') {
+			return false
+		}
+	}
+	return true
+}
+
 // GetPathComponent will get the source part of the string which is used
 // in all subdirectories of the repository.
 //
diff --git a/src/libeopkg/package.go b/src/libeopkg/package.go
index e6aa1ab..6385b89 100644
--- a/src/libeopkg/package.go
+++ b/src/libeopkg/package.go
@@ -110,6 +110,9 @@ func (p *Package) ReadMetadata() error {
 	if err = dec.Decode(metadata); err != nil {
 		return err
 	}
+	if !metadata.Package.isSane() {
+		return ErrEopkgCorrupted
+	}
 	p.Meta = metadata
 	// Clean up extra junk
 	for i := range p.Meta.Package.Summary {
-- 
2.43.0


From 9e545dc935055da3771b973105c5448c82c9b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 12/35] fix: reject manifests naming files outside of the
 upload directory

Such files were added to the repository, linked into it, and then deleted from
wherever they were.
---
 src/ferryd/core/transit_manifest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/transit_manifest.go b/src/ferryd/core/transit_manifest.go
index 3088258..4155830 100644
--- a/src/ferryd/core/transit_manifest.go
+++ b/src/ferryd/core/transit_manifest.go
@@ -149,6 +149,11 @@ func NewTransitManifest(path string) (*TransitManifest, error) {
 			return nil, ErrInvalidPayload
 		}
 
+		// The payload always accompanies the manifest
+		if !filepath.IsLocal(f.Path) {
+			return nil, ErrInvalidPayload
+		}
+
 		if !strings.HasSuffix(f.Path, ".eopkg") {
 			return nil, ErrIllegalUpload
 		}
-- 
2.43.0


From 2cbdc73ee78e34d3fb3a6a72a48926151a3d41fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 13/35] fix: refuse repository names that are not a single path
 component

Repositories could be placed inside of one another, to be deleted together, or
outside of the base directory.
---
 src/ferryd/core/repo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 5088bc8..3751eeb 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -207,6 +207,11 @@ func (r *RepositoryManager) CreateRepo(db libdb.Database, id string) (*Repositor
 		return nil, fmt.Errorf("The specified repository '%s' already exists", id)
 	}
 
+	// The name becomes a directory, within several others
+	if id == "" || id == "." || id == ".." || strings.ContainsRune(id, '/') {
+		return nil, fmt.Errorf("The repository name '%s' is not valid", id)
+	}
+
 	// Make sure someone isn't intentionally fucking with us
 	rbase := filepath.Join(r.repoBase, id)
 	if PathExists(rbase) {
-- 
2.43.0


From 4bbd263b79b930f6ef3e4ffa14aaf2c6b63c160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 14/35] fix: overwrite leftovers of an interrupted run when
 (de)compressing

The compressors refuse to replace an existing file, so once a run had been cut
short a repository could not be indexed, or a delta not be produced, any more.
---
 src/libeopkg/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libeopkg/util.go b/src/libeopkg/util.go
index b4d7ec5..6cd75b3 100644
--- a/src/libeopkg/util.go
+++ b/src/libeopkg/util.go
@@ -57,6 +57,7 @@ func XzFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"xz",
 		"-6",
+		"-f",
 		"-T", "8",
 		inputPath,
 	}
@@ -73,6 +74,7 @@ func XzFile(inputPath string, keepOriginal bool) error {
 func UnxzFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"unxz",
+		"-f",
 		"-T", "8",
 		inputPath,
 	}
@@ -92,6 +94,7 @@ func ZstdFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"zstd",
 		"-3",
+		"-f",
 		"-T8",
 		inputPath,
 	}
@@ -108,6 +111,7 @@ func ZstdFile(inputPath string, keepOriginal bool) error {
 func UnzstdFile(inputPath string, keepOriginal bool) error {
 	cmd := []string{
 		"unzstd",
+		"-f",
 		"-T8",
 		inputPath,
 	}
-- 
2.43.0


From 0845bfc40ae7400e3c857c141e3356b84fc8b900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 15/35] fix: change a repository entry and the pool reference
 it holds in one transaction

They were written one after the other, so that a crash in between left a
reference nobody holds or, once the operation was repeated, a reference too
few: the package was then purged while another repository still held it.
---
 src/ferryd/core/repo.go | 96 +++++++++++++++++++++++++----------------
 1 file changed, 58 insertions(+), 38 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 3751eeb..e3cfdf6 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -377,17 +377,20 @@ func (r *Repository) RefDelta(db libdb.Database, pool *Pool, deltaID string) err
 		return err
 	}
 
-	// Grab the pool reference for this package
-	if err := pool.RefEntry(db, deltaID); err != nil {
-		return err
-	}
+	// The reference and our own record of it must never part
+	return db.Update(func(db libdb.Database) error {
+		// Grab the pool reference for this package
+		if err := pool.RefEntry(db, deltaID); err != nil {
+			return err
+		}
 
-	// Ensure the eopkg file is linked inside our own tree
-	if err := LinkOrCopyFile(localPath, targetPath, false); err != nil {
-		return err
-	}
+		// Ensure the eopkg file is linked inside our own tree
+		if err := LinkOrCopyFile(localPath, targetPath, false); err != nil {
+			return err
+		}
 
-	return r.putEntry(db, entry)
+		return r.putEntry(db, entry)
+	})
 }
 
 // AddDelta will first open and read the .delta.eopkg, before passing it back off to AddLocalDelta
@@ -441,18 +444,21 @@ func (r *Repository) AddLocalDelta(db libdb.Database, pool *Pool, pkg *libeopkg.
 		return err
 	}
 
-	// Grab the pool reference for this package
-	if _, err = pool.AddDelta(db, pkg, mapping, false); err != nil {
-		return err
-	}
+	// The reference and our own record of it must never part
+	return db.Update(func(db libdb.Database) error {
+		// Grab the pool reference for this package
+		if _, err := pool.AddDelta(db, pkg, mapping, false); err != nil {
+			return err
+		}
 
-	// Ensure the eopkg file is linked inside our own tree
-	source := pool.GetPackagePoolPath(pkg)
-	if err = LinkOrCopyFile(source, pkgTarget, false); err != nil {
-		return err
-	}
+		// Ensure the eopkg file is linked inside our own tree
+		source := pool.GetPackagePoolPath(pkg)
+		if err := LinkOrCopyFile(source, pkgTarget, false); err != nil {
+			return err
+		}
 
-	return r.putEntry(db, entry)
+		return r.putEntry(db, entry)
+	})
 }
 
 // Internal helper to remove packages
@@ -502,6 +508,14 @@ func (r *Repository) removeDeltaInternal(db libdb.Database, pool *Pool, id strin
 // Additionally, we'll locate stray deltas which lead either TO or FROM the given
 // package as they'll now be useless to anyone.
 func (r *Repository) UnrefPackage(db libdb.Database, pool *Pool, pkgID string) error {
+	// The references and our own records of them must never part
+	return db.Update(func(db libdb.Database) error {
+		return r.unrefPackageInternal(db, pool, pkgID)
+	})
+}
+
+// Internal helper to perform UnrefPackage within a transaction
+func (r *Repository) unrefPackageInternal(db libdb.Database, pool *Pool, pkgID string) error {
 	newHighest := 0
 	var newHighestID string
 
@@ -607,17 +621,20 @@ func (r *Repository) RefPackage(db libdb.Database, pool *Pool, pkgID string) err
 		return err
 	}
 
-	// Grab the pool reference for this package (Always copy)
-	if err = pool.RefEntry(db, pkgID); err != nil {
-		return err
-	}
+	// The reference and our own record of it must never part
+	return db.Update(func(db libdb.Database) error {
+		// Grab the pool reference for this package (Always copy)
+		if err := pool.RefEntry(db, pkgID); err != nil {
+			return err
+		}
 
-	// Ensure the eopkg file is linked inside our own tree
-	if err = LinkOrCopyFile(localPath, targetPath, false); err != nil {
-		return err
-	}
+		// Ensure the eopkg file is linked inside our own tree
+		if err := LinkOrCopyFile(localPath, targetPath, false); err != nil {
+			return err
+		}
 
-	return r.putEntry(db, repoEntry)
+		return r.putEntry(db, repoEntry)
+	})
 }
 
 // buildSaneEntry will either return a plain entry if none exists already, otherwise it will
@@ -694,18 +711,21 @@ func (r *Repository) AddLocalPackage(db libdb.Database, pool *Pool, pkg *libeopk
 		return err
 	}
 
-	// Grab the pool reference for this package (Always copy)
-	if _, err := pool.AddPackage(db, pkg, false); err != nil {
-		return err
-	}
+	// The reference and our own record of it must never part
+	return db.Update(func(db libdb.Database) error {
+		// Grab the pool reference for this package (Always copy)
+		if _, err := pool.AddPackage(db, pkg, false); err != nil {
+			return err
+		}
 
-	// Ensure the eopkg file is linked inside our own tree
-	source := pool.GetPackagePoolPath(pkg)
-	if err := LinkOrCopyFile(source, pkgTarget, false); err != nil {
-		return err
-	}
+		// Ensure the eopkg file is linked inside our own tree
+		source := pool.GetPackagePoolPath(pkg)
+		if err := LinkOrCopyFile(source, pkgTarget, false); err != nil {
+			return err
+		}
 
-	return r.putEntry(db, repoEntry)
+		return r.putEntry(db, repoEntry)
+	})
 }
 
 // AddPackage will attempt to load the local package and then add it to the
-- 
2.43.0


From 0b970611914b9074b2b893d9a1b09b0a815a02c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 16/35] fix: remove a repository's directories before
 forgetting it

A crash in between left directories behind that belonged to no repository, and
prevented one of that name from ever being created again.
---
 src/ferryd/core/repo.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index e3cfdf6..fd7418b 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -254,7 +254,7 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 
 	// Let's iterate over every one of our packages here and start up an unref
 	// cycle
-	err = db.Update(func(db libdb.Database) error {
+	return db.Update(func(db libdb.Database) error {
 		repoBucket := db.Bucket([]byte(DatabaseBucketRepo))
 		rootBucket := repoBucket.Bucket([]byte(repo.ID)).Bucket([]byte(DatabaseBucketPackage))
 
@@ -286,22 +286,25 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 		if err != nil {
 			return err
 		}
+
+		// Clean up the repo paths while the repository is still known: what is
+		// left behind would prevent it from ever being created again
+		repo.removePaths()
+
 		// Now remove the repository object itself
 		return repoBucket.DeleteObject([]byte(repo.ID))
 	})
+}
 
-	if err != nil {
-		return err
-	}
-
+// removePaths will remove everything the repository has on disk
+func (r *Repository) removePaths() {
 	deletionPaths := []string{
-		repo.path,
-		repo.assetPath,
-		repo.deltaPath,
-		repo.deltaStagePath,
+		r.path,
+		r.assetPath,
+		r.deltaPath,
+		r.deltaStagePath,
 	}
 
-	// Clean up the repo paths.
 	for _, p := range deletionPaths {
 		if !PathExists(p) {
 			continue
@@ -309,14 +312,12 @@ func (r *RepositoryManager) DeleteRepo(db libdb.Database, pool *Pool, id string)
 		// Just continue, warn in the log - do what we can here
 		if err := os.RemoveAll(p); err != nil {
 			log.WithFields(log.Fields{
-				"repo":  id,
+				"repo":  r.ID,
 				"path":  p,
 				"error": err,
 			}).Warning("Failed to remove repository path")
 		}
 	}
-
-	return nil
 }
 
 // GetEntry will return the package entry for the given ID
-- 
2.43.0


From b84a0adf67c0e8e1cae9f0e6407d58b54e272cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 17/35] fix: publish a remaining package even if its release is
 not positive

Otherwise the entry published nothing at all, and the repository could not be
indexed any more.
---
 src/ferryd/core/repo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index fd7418b..428766f 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -573,7 +573,7 @@ func (r *Repository) unrefPackageInternal(db libdb.Database, pool *Pool, pkgID s
 		}
 		// Learn highest relno here, it's going to be the published ID
 		curRel := availEntry.Meta.GetRelease()
-		if curRel > newHighest {
+		if newHighestID == "" || curRel > newHighest {
 			newHighest = curRel
 			newHighestID = id
 		}
-- 
2.43.0


From 4c16e8a0fd2c8e22b50c002fbd9f3b94af40868b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 18/35] fix: make the lock file exclude other daemons, and only
 live ones

The owner unlocked the file before removing it, so that two daemons could lock
two different files; a PID was written over a longer one without truncation;
and a PID left behind by a crash kept the daemon from starting for as long as
any process had that number.
---
 src/ferryd/lockfile.go | 73 +++++++++++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 26 deletions(-)

diff --git a/src/ferryd/lockfile.go b/src/ferryd/lockfile.go
index ec7746a..3c47c25 100644
--- a/src/ferryd/lockfile.go
+++ b/src/ferryd/lockfile.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strconv"
 	"sync"
 	"syscall"
 
@@ -93,32 +94,36 @@ func (l *LockFile) GetOwnerProcess() string {
 
 // Lock will attempt to lock the file, or return an error if this fails
 func (l *LockFile) Lock() error {
-	pid, err := l.readPID()
-
-	// Bail now.
-	if err != ErrDeadLockFile && err != ErrOwnedLockFile && err != nil {
-		return err
-	}
+	l.conlock.Lock()
 
-	// Not gonna test our *own* PID
-	if pid > 0 && pid != l.ourPID {
-		// Process is still active
-		// Unix this always works
-		p, _ := os.FindProcess(pid)
-		if err2 := p.Signal(syscall.Signal(0)); err2 == nil {
-			if p.Pid != l.ourPID {
-				l.owningPID = p.Pid
-				return ErrOwnedLockFile
+	for {
+		// The kernel alone knows whether an owner is still around, the PID
+		// might have been left behind and belong to just about anyone by now
+		err := syscall.Flock(int(l.fd.Fd()), syscall.LOCK_EX|syscall.LOCK_NB)
+		if err != nil {
+			l.conlock.Unlock()
+			if err != syscall.EWOULDBLOCK {
+				return err
+			}
+			if pid, e := l.readPID(); e == nil {
+				l.owningPID = pid
 			}
+			return ErrOwnedLockFile
 		}
-	}
 
-	l.conlock.Lock()
+		if l.isCurrent() {
+			break
+		}
 
-	// Finally lock it.
-	if err := syscall.Flock(int(l.fd.Fd()), syscall.LOCK_EX|syscall.LOCK_NB); err != nil {
-		l.conlock.Unlock()
-		return err
+		// We've locked a file that its owner meanwhile removed, which doesn't
+		// keep anyone from locking a new one
+		w, err := os.OpenFile(l.path, os.O_RDWR|os.O_CREATE, 00644)
+		if err != nil {
+			l.conlock.Unlock()
+			return err
+		}
+		l.fd.Close()
+		l.fd = w
 	}
 
 	l.owner = true
@@ -133,6 +138,16 @@ func (l *LockFile) Lock() error {
 	return nil
 }
 
+// isCurrent determines if the file we have open is still the lockfile
+func (l *LockFile) isCurrent() bool {
+	ours, err := l.fd.Stat()
+	if err != nil {
+		return false
+	}
+	current, err := os.Stat(l.path)
+	return err == nil && os.SameFile(ours, current)
+}
+
 // Unlock will attempt to unlock the file, or return an error if this fails
 func (l *LockFile) Unlock() error {
 	if l.fd == nil || !l.owner {
@@ -142,6 +157,7 @@ func (l *LockFile) Unlock() error {
 	if err := syscall.Flock(int(l.fd.Fd()), syscall.LOCK_UN); err != nil {
 		return err
 	}
+	l.owner = false
 	return nil
 }
 
@@ -177,7 +193,11 @@ func (l *LockFile) writePID() error {
 	}
 	l.conlock.Lock()
 	defer l.conlock.Unlock()
-	if _, err := fmt.Fprintf(l.fd, "%d", l.ourPID); err != nil {
+	// Don't leave any part of a longer PID behind
+	if err := l.fd.Truncate(0); err != nil {
+		return err
+	}
+	if _, err := l.fd.WriteAt([]byte(strconv.Itoa(l.ourPID)), 0); err != nil {
 		return err
 	}
 	return l.fd.Sync()
@@ -191,9 +211,10 @@ func (l *LockFile) Clean() error {
 		return nil
 	}
 
+	// Still holding the lock, or we'd remove the lockfile of the next owner
+	err := os.Remove(l.path)
+	l.owner = false
 	l.fd.Close()
-	if l.owner {
-		return os.Remove(l.path)
-	}
-	return nil
+	l.fd = nil
+	return err
 }
-- 
2.43.0


From c9d3ec60039afed0d52c923d872e599372c0a0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 19/35] fix: hold the lock until the daemon has finished
 shutting down

It was released first, with jobs still running and the databases open.
---
 src/ferryd/server.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 1fecf22..40f7ba0 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -231,11 +231,6 @@ func (s *Server) Close() {
 	if !s.running {
 		return
 	}
-	if s.lockFile != nil {
-		s.lockFile.Unlock()
-		s.lockFile.Clean()
-		s.lockFile = nil
-	}
 	s.StopWatching()
 	s.jproc.Close()
 	s.store.Close()
@@ -247,4 +242,10 @@ func (s *Server) Close() {
 	if !systemdEnabled {
 		os.Remove(s.socketPath)
 	}
+
+	// Nobody may take over before all of the above is done
+	if s.lockFile != nil {
+		s.lockFile.Clean()
+		s.lockFile = nil
+	}
 }
-- 
2.43.0


From 15f9b1edecc18759d0e4d252748ca5dbebb51a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 20/35] fix: do not crash on shutdown while a client is
 connected

Shutdown waits on its context, which was nil, for connections that are active.
---
 src/ferryd/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index 40f7ba0..da62f6b 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -17,6 +17,7 @@
 package main
 
 import (
+	"context"
 	"errors"
 	"net"
 	"net/http"
@@ -236,7 +237,13 @@ func (s *Server) Close() {
 	s.store.Close()
 	s.manager.Close()
 	s.running = false
-	s.srv.Shutdown(nil)
+
+	// Give pending requests a chance, but don't let a client hold us up
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	if err := s.srv.Shutdown(ctx); err != nil {
+		s.srv.Close()
+	}
 
 	// We don't technically fully own it if systemd created it
 	if !systemdEnabled {
-- 
2.43.0


From a48f2e8e942af3e5bf6538a2e465e880356ef9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 21/35] fix: start again after having been killed

The socket that was left behind made binding a new one fail until it had been
removed by hand.
---
 src/ferryd/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index da62f6b..daf3ac0 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -160,6 +160,12 @@ func (s *Server) Bind() error {
 		}
 		systemdEnabled = true
 	} else {
+		// A predecessor that was killed leaves its socket behind
+		if c, e := net.Dial("unix", s.socketPath); e == nil {
+			c.Close()
+		} else if errors.Is(e, syscall.ECONNREFUSED) {
+			os.Remove(s.socketPath)
+		}
 		l, e := net.Listen("unix", s.socketPath)
 		if e != nil {
 			return e
-- 
2.43.0


From be4356c0189a8c354ffc103f12e0e1581ebf51c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 22/35] fix: do not hold a delta whose packages are not held

---
 src/ferryd/core/repo.go  | 18 ++++++++++++++++++
 src/ferryd/jobs/delta.go |  4 ++++
 2 files changed, 22 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 428766f..8ad78fb 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -91,6 +91,19 @@ type RepoEntry struct {
 	Deltas        []string // Delta packages known for this package.
 }
 
+// joinedBy determines if both ends of the given delta are available here
+func (e *RepoEntry) joinedBy(delta *DeltaInformation) bool {
+	if delta == nil {
+		return false
+	}
+	hasFrom, hasTo := false, false
+	for _, id := range e.Available {
+		hasFrom = hasFrom || id == delta.FromID
+		hasTo = hasTo || id == delta.ToID
+	}
+	return hasFrom && hasTo
+}
+
 // Init will create our initial working paths and DB bucket
 func (r *RepositoryManager) Init(ctx *Context, db libdb.Database) error {
 	r.repoBase = filepath.Join(ctx.BaseDir, RepoPathComponent)
@@ -369,6 +382,11 @@ func (r *Repository) RefDelta(db libdb.Database, pool *Pool, deltaID string) err
 		}
 	}
 
+	// Another repository may have a delta of this name between other packages
+	if !entry.joinedBy(poolEntry.Delta) {
+		return libeopkg.ErrMismatchedDelta
+	}
+
 	// Insert this deltas ID to this package map
 	entry.Deltas = append(entry.Deltas, deltaID)
 	sort.Strings(entry.Deltas)
diff --git a/src/ferryd/jobs/delta.go b/src/ferryd/jobs/delta.go
index bbfc8ad..0804a5e 100644
--- a/src/ferryd/jobs/delta.go
+++ b/src/ferryd/jobs/delta.go
@@ -128,6 +128,10 @@ func (j *DeltaJobHandler) executeInternal(manager *core.Manager) error {
 		if entry != nil && err == nil {
 			if err := manager.RefDelta(j.repoID, deltaID); err != nil {
 				fields["error"] = err
+				if err == libeopkg.ErrMismatchedDelta {
+					log.WithFields(fields).Error("Existing delta is for other packages")
+					continue
+				}
 				log.WithFields(fields).Error("Failed to ref existing delta")
 				return err
 			}
-- 
2.43.0


From 020da9db5f4eaf3028a3717a253af8b65855090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:06 +0000
Subject: [PATCH 23/35] fix: remove a job and record its outcome at once

A crash in between lost the outcome, or moved the record on without writing
the slot it points to, so that an older outcome was shown instead.
---
 src/ferryd/jobs/store.go | 71 ++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 40 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 0ce9a47..772c493 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -212,8 +212,22 @@ func (s *JobStore) ClaimSequentialJob() (*JobEntry, error) {
 	return s.claimJobInternal([]byte(BucketSequentialJobs))
 }
 
+// retireJobInternal removes a job from its queue and records its outcome. Both
+// happen at once, a crash must not make us forget about either.
+func (s *JobStore) retireJobInternal(j *JobEntry, bucketID []byte) error {
+	s.modMut.Lock()
+	defer s.modMut.Unlock()
+
+	return s.db.Update(func(db libdb.Database) error {
+		if err := db.Bucket(bucketID).DeleteObject(j.id); err != nil {
+			return err
+		}
+		return s.markCompletion(db, j)
+	})
+}
+
 // Used to mark the completion of a job and store in the appropriate bucket
-func (s *JobStore) markCompletion(j *JobEntry) error {
+func (s *JobStore) markCompletion(db libdb.Database, j *JobEntry) error {
 	var bucketID []byte
 	if j.failure != nil {
 		bucketID = BucketFailJobs
@@ -223,13 +237,14 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 
 	// We're already locked at this point so its safe to work out our next
 	// index
-	bucket := s.db.Bucket(bucketID).Bucket(BucketRecord)
+	bucket := db.Bucket(bucketID)
+	recordBucket := bucket.Bucket(BucketRecord)
 	record := IndexRecord{
 		Index: 0,
 	}
 
 	// Try to grab it, otherwise reset it
-	if err := bucket.GetObject(IndexRecordKey, &record); err != nil {
+	if err := recordBucket.GetObject(IndexRecordKey, &record); err != nil {
 		record.Index = 0
 	} else {
 		// Grabbed an existing record, so increment the key
@@ -242,7 +257,7 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 	}
 
 	// Ensure we update the pointer
-	if err := bucket.PutObject(IndexRecordKey, &record); err != nil {
+	if err := recordBucket.PutObject(IndexRecordKey, &record); err != nil {
 		return err
 	}
 
@@ -251,52 +266,28 @@ func (s *JobStore) markCompletion(j *JobEntry) error {
 	binary.BigEndian.PutUint64(nextID, record.Index)
 
 	// We'll need to figure out how to truncate our buckets..
-	return s.db.Update(func(db libdb.Database) error {
-		bucket := db.Bucket(bucketID)
-
-		storeJob := libferry.Job{
-			Timing:      j.Timing,
-			Description: j.description,
-		}
+	storeJob := libferry.Job{
+		Timing:      j.Timing,
+		Description: j.description,
+	}
 
-		// Mark relevant failure fields
-		if j.failure != nil {
-			storeJob.Error = j.failure.Error()
-			storeJob.Failed = true
-		}
+	// Mark relevant failure fields
+	if j.failure != nil {
+		storeJob.Error = j.failure.Error()
+		storeJob.Failed = true
+	}
 
-		return bucket.PutObject(nextID, &storeJob)
-	})
+	return bucket.PutObject(nextID, &storeJob)
 }
 
 // RetireAsyncJob removes a completed asynchronous job
 func (s *JobStore) RetireAsyncJob(j *JobEntry) error {
-	s.modMut.Lock()
-	defer s.modMut.Unlock()
-
-	err := s.db.Update(func(db libdb.Database) error {
-		return db.Bucket(BucketAsyncJobs).DeleteObject(j.id)
-	})
-
-	if err != nil {
-		return err
-	}
-	return s.markCompletion(j)
+	return s.retireJobInternal(j, BucketAsyncJobs)
 }
 
 // RetireSequentialJob removes a completed synchronous job
 func (s *JobStore) RetireSequentialJob(j *JobEntry) error {
-	s.modMut.Lock()
-	defer s.modMut.Unlock()
-
-	err := s.db.Update(func(db libdb.Database) error {
-		return db.Bucket(BucketSequentialJobs).DeleteObject(j.id)
-	})
-
-	if err != nil {
-		return err
-	}
-	return s.markCompletion(j)
+	return s.retireJobInternal(j, BucketSequentialJobs)
 }
 
 // pushJobInternal is identical between sync and async jobs, it
-- 
2.43.0


From 6e3f7e8e42d088f23f05efcc3ef9702b4964b26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 24/35] fix: reset a job history at once

A crash after the index was removed left all outcomes in place, and the ones
that followed replaced recent ones rather than the oldest.
---
 src/ferryd/jobs/store.go | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/ferryd/jobs/store.go b/src/ferryd/jobs/store.go
index 772c493..9cd4779 100644
--- a/src/ferryd/jobs/store.go
+++ b/src/ferryd/jobs/store.go
@@ -411,21 +411,14 @@ func (s *JobStore) resetInternal(bucketID []byte) error {
 	s.modMut.Lock()
 	defer s.modMut.Unlock()
 
-	bucket := s.db.Bucket(bucketID).Bucket(BucketRecord)
-	hasIndex, err := bucket.HasObject(IndexRecordKey)
-	if err != nil {
-		return err
-	}
-	if hasIndex {
-		if err := bucket.DeleteObject(IndexRecordKey); err != nil {
+	// batch delete the jobs together with the index
+	return s.db.Update(func(db libdb.Database) error {
+		bucket := db.Bucket(bucketID)
+		if err := bucket.Bucket(BucketRecord).DeleteObject(IndexRecordKey); err != nil {
 			return err
 		}
-	}
-
-	// batch delete the jobs
-	return s.db.Bucket(bucketID).Update(func(db libdb.Database) error {
-		return db.ForEach(func(k, v []byte) error {
-			return db.DeleteObject(k)
+		return bucket.ForEach(func(k, v []byte) error {
+			return bucket.DeleteObject(k)
 		})
 	})
 }
-- 
2.43.0


From eaa409ebfee2ea2bc23258e9a47cd5518a51b70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:26 +0000
Subject: [PATCH 25/35] fix: a copy that fails leaves nothing of it behind

A part of a package or of a delta was left in its place, where it was later
taken for all of it.
---
 src/ferryd/core/util.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 370ba45..863c062 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -53,11 +53,15 @@ func CopyFile(source, dest string) error {
 		return err
 	}
 	// Copy the files
-	if _, err = io.Copy(dst, src); err != nil {
-		dst.Close()
+	_, err = io.Copy(dst, src)
+	if e := dst.Close(); err == nil {
+		err = e
+	}
+	if err != nil {
+		// Never leave a part of it behind
+		os.Remove(dest)
 		return err
 	}
-	dst.Close()
 	// If it fails, meh.
 	os.Chtimes(dest, st.ModTime(), st.ModTime())
 	os.Chown(dest, os.Getuid(), os.Getgid())
-- 
2.43.0


From f256dc22d984ab641e7741ddfddbe5eb7face40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 26/35] fix: a staged delta left by a cut off run is never
 included

It was taken for the delta to be made, although it could be incomplete, or be
one between other packages of the same releases.
---
 src/ferryd/core/repo.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 8ad78fb..2158690 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -854,10 +854,9 @@ func (r *Repository) CreateDelta(db libdb.Database, oldPkg, newPkg *libeopkg.Met
 	fileName := libeopkg.ComputeDeltaName(oldPkg, newPkg)
 	fullPath := filepath.Join(r.deltaStagePath, fileName)
 
-	// This guy exists, no point in trying to rebuild it
-	if PathExists(fullPath) {
-		return fullPath, nil
-	}
+	// Whatever is there was left by a run that was cut off. It may be incomplete,
+	// or be of packages that had the same releases.
+	os.Remove(fullPath)
 
 	oldPath := filepath.Join(r.path, oldPkg.PackageURI)
 	newPath := filepath.Join(r.path, newPkg.PackageURI)
-- 
2.43.0


From 2d824cdec31c504e79a8e88d97b14051df7721d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:53 +0000
Subject: [PATCH 27/35] fix: keep repository names intact on the way from
 client to job

Names were put into request paths as they are, so that a name with a '?', '#' or
'%' ended up as another one, and paths were redirected to similar ones, so that
one with a leading or trailing slash did.
---
 src/ferryd/server.go |  3 +++
 src/libferry/main.go | 27 ++++++++++++++-------------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/ferryd/server.go b/src/ferryd/server.go
index daf3ac0..5adb8f9 100644
--- a/src/ferryd/server.go
+++ b/src/ferryd/server.go
@@ -65,6 +65,9 @@ type Server struct {
 // NewServer will return a newly initialised Server which is currently unbound
 func NewServer() (*Server, error) {
 	router := httprouter.New()
+	// Whatever a request would be redirected to is not what was asked for
+	router.RedirectTrailingSlash = false
+	router.RedirectFixedPath = false
 	s := &Server{
 		srv: &http.Server{
 			Handler: router,
diff --git a/src/libferry/main.go b/src/libferry/main.go
index b06a13d..75e6565 100644
--- a/src/libferry/main.go
+++ b/src/libferry/main.go
@@ -24,6 +24,7 @@ import (
 	"fmt"
 	"net"
 	"net/http"
+	"net/url"
 	"time"
 )
 
@@ -143,25 +144,25 @@ func (c *Client) postBasicResponse(url string, inT interface{}, outT interface{}
 
 // CreateRepo will attempt to create a repository in the daemon
 func (c *Client) CreateRepo(id string) error {
-	uri := c.formURI("/api/v1/create/repo/" + id)
+	uri := c.formURI("api/v1/create/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // DeleteRepo will attempt to delete a remote repository
 func (c *Client) DeleteRepo(id string) error {
-	uri := c.formURI("/api/v1/remove/repo/" + id)
+	uri := c.formURI("api/v1/remove/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // DeltaRepo will attempt to reproduce deltas in the given repo
 func (c *Client) DeltaRepo(id string) error {
-	uri := c.formURI("/api/v1/delta/repo/" + id)
+	uri := c.formURI("api/v1/delta/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // IndexRepo will attempt to index a repository in the daemon
 func (c *Client) IndexRepo(id string) error {
-	uri := c.formURI("/api/v1/index/repo/" + id)
+	uri := c.formURI("api/v1/index/repo/" + url.PathEscape(id))
 	return c.getBasicResponse(uri, &Response{})
 }
 
@@ -171,7 +172,7 @@ func (c *Client) ImportPackages(repoID string, pkgs []string) error {
 	iq := ImportRequest{
 		Path: pkgs,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/import/"+repoID), &iq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/import/"+url.PathEscape(repoID)), &iq, &Response{})
 }
 
 // CloneRepo will ask the backend to clone an existing repository into a new repository
@@ -180,7 +181,7 @@ func (c *Client) CloneRepo(repoID, newClone string, copyAll bool) error {
 		CloneName: newClone,
 		CopyAll:   copyAll,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/clone/"+repoID), &cq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/clone/"+url.PathEscape(repoID)), &cq, &Response{})
 }
 
 // PullRepo will ask the backend to pull from target into repoID
@@ -188,7 +189,7 @@ func (c *Client) PullRepo(sourceID, targetID string) error {
 	pq := PullRepoRequest{
 		Source: sourceID,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/pull/"+targetID), &pq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/pull/"+url.PathEscape(targetID)), &pq, &Response{})
 }
 
 // RemoveSource will ask the backend to remove packages by source name
@@ -197,7 +198,7 @@ func (c *Client) RemoveSource(repoID, sourceID string, relno int) error {
 		Source:  sourceID,
 		Release: relno,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/remove/source/"+repoID), &sq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/remove/source/"+url.PathEscape(repoID)), &sq, &Response{})
 }
 
 // CopySource will ask the backend to copy packages by source name
@@ -208,7 +209,7 @@ func (c *Client) CopySource(fromID, targetID, sourceID string, relno int, skipIn
 		Release:   relno,
 		SkipIndex: skipIndex,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/copy/source/"+fromID), &sq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/copy/source/"+url.PathEscape(fromID)), &sq, &Response{})
 }
 
 // TrimPackages will request that packages in the repo are trimmed to maxKeep
@@ -216,12 +217,12 @@ func (c *Client) TrimPackages(repoID string, maxKeep int) error {
 	tq := TrimPackagesRequest{
 		MaxKeep: maxKeep,
 	}
-	return c.postBasicResponse(c.formURI("api/v1/trim/packages/"+repoID), &tq, &Response{})
+	return c.postBasicResponse(c.formURI("api/v1/trim/packages/"+url.PathEscape(repoID)), &tq, &Response{})
 }
 
 // TrimObsolete will request that all packages marked obsolete are removed
 func (c *Client) TrimObsolete(repoID string) error {
-	uri := c.formURI("/api/v1/trim/obsoletes/" + repoID)
+	uri := c.formURI("api/v1/trim/obsoletes/" + url.PathEscape(repoID))
 	return c.getBasicResponse(uri, &Response{})
 }
 
@@ -241,12 +242,12 @@ func (c *Client) GetStatus() (*StatusRequest, error) {
 
 // ResetFailed asks the daemon to reset failed jobs
 func (c *Client) ResetFailed() error {
-	uri := c.formURI("/api/v1/reset/failed")
+	uri := c.formURI("api/v1/reset/failed")
 	return c.getBasicResponse(uri, &Response{})
 }
 
 // ResetCompleted asks the daemon to reset completed jobs
 func (c *Client) ResetCompleted() error {
-	uri := c.formURI("/api/v1/reset/completed")
+	uri := c.formURI("api/v1/reset/completed")
 	return c.getBasicResponse(uri, &Response{})
 }
-- 
2.43.0


From aea0750b0ac539d7bf5e1e0b8fa2f57f1f5eba25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:53 +0000
Subject: [PATCH 28/35] fix: record what kind of job it was that has no usable
 handler

---
 src/ferryd/jobs/worker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ferryd/jobs/worker.go b/src/ferryd/jobs/worker.go
index 5226b33..9889bcc 100644
--- a/src/ferryd/jobs/worker.go
+++ b/src/ferryd/jobs/worker.go
@@ -17,6 +17,7 @@
 package jobs
 
 import (
+	"fmt"
 	"math/rand"
 	"sync"
 	"time"
@@ -183,6 +184,7 @@ func (w *Worker) processJob(job *JobEntry) {
 	if err != nil {
 		fields["error"] = err
 		job.failure = err
+		job.description = fmt.Sprintf("Invalid job of type '%s'", job.Type)
 		log.WithFields(fields).Error("No known job handler, cannot continue with job")
 		return
 	}
-- 
2.43.0


From 2b85b3ee3fc74c3949ab09d99b04a20a97c64553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:33 +0000
Subject: [PATCH 29/35] fix: keep noticing uploads after the watcher reported
 an error

---
 src/ferryd/monitor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index 6e7870b..7c86ad8 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -61,6 +61,11 @@ func (s *Server) WatchIncoming() {
 						s.processTransitManifest(filepath.Base(event.Name))
 					}
 				}
+			case err := <-s.watcher.Errors:
+				// It waits for us to take these, too
+				log.WithFields(log.Fields{
+					"error": err,
+				}).Error("Failed to notice some of the incoming uploads")
 			case <-s.watchChan:
 				return
 			}
-- 
2.43.0


From 242bf52e2f866893a3226693188d8b111009a782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:33 +0000
Subject: [PATCH 30/35] fix: keep the language of a distribution's descriptions

---
 src/libeopkg/distribution.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopkg/distribution.go b/src/libeopkg/distribution.go
index 1adb7ff..9157675 100644
--- a/src/libeopkg/distribution.go
+++ b/src/libeopkg/distribution.go
@@ -28,7 +28,7 @@ type Distribution struct {
 	// Translated description
 	Description []struct {
 		Value string `xml:",chardata"`
-		Lang  string `xml:"lang,attr,omitempty"`
+		Lang  string `xml:"http://www.w3.org/XML/1998/namespace lang,attr,omitempty"`
 	}
 
 	Version    string // Published version number for compatibility
-- 
2.43.0


From b36cc51220afccb214111ecf28d10f4e73d5914b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:29:40 +0000
Subject: [PATCH 31/35] fix: include a delta only while both of its packages
 are there

---
 src/ferryd/core/repo.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ferryd/core/repo.go b/src/ferryd/core/repo.go
index 2158690..095456c 100644
--- a/src/ferryd/core/repo.go
+++ b/src/ferryd/core/repo.go
@@ -454,6 +454,16 @@ func (r *Repository) AddLocalDelta(db libdb.Database, pool *Pool, pkg *libeopkg.
 		}
 	}
 
+	// The packages may have been removed while the delta was produced, and
+	// another repository may have a delta of this name between other packages
+	delta := mapping
+	if poolEntry, err := pool.GetEntry(db, pkg.ID); err == nil {
+		delta = poolEntry.Delta
+	}
+	if !entry.joinedBy(delta) {
+		return libeopkg.ErrMismatchedDelta
+	}
+
 	// Insert this deltas ID to this package map
 	entry.Deltas = append(entry.Deltas, pkg.ID)
 	sort.Strings(entry.Deltas)
-- 
2.43.0


From d228ed8352e6bc1ca5d08e776a3e1be1a89c14fb Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:29:40 +0000
Subject: [PATCH 32/35] fix: tell a client when its job could not be queued

---
 src/ferryd/handlers.go       | 29 ++++++++++++++++++-----------
 src/ferryd/jobs/processor.go |  7 +++----
 src/ferryd/monitor.go        |  7 ++++++-
 3 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/ferryd/handlers.go b/src/ferryd/handlers.go
index 09b19a8..c743860 100644
--- a/src/ferryd/handlers.go
+++ b/src/ferryd/handlers.go
@@ -62,6 +62,13 @@ func (s *Server) sendStockError(err error, w http.ResponseWriter, r *http.Reques
 	w.Write(buf.Bytes())
 }
 
+// pushJob will queue the job, or let the client know that we could not
+func (s *Server) pushJob(w http.ResponseWriter, job *jobs.JobEntry) {
+	if err := s.jproc.PushJob(job); err != nil {
+		http.Error(w, err.Error(), http.StatusInternalServerError)
+	}
+}
+
 // GetStatus will return the current status of the ferryd instance
 func (s *Server) GetStatus(w http.ResponseWriter, r *http.Request, _ httprouter.Params) {
 	ret := libferry.StatusRequest{
@@ -146,7 +153,7 @@ func (s *Server) CreateRepo(w http.ResponseWriter, r *http.Request, p httprouter
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository creation requested")
-	s.jproc.PushJob(jobs.NewCreateRepoJob(id))
+	s.pushJob(w, jobs.NewCreateRepoJob(id))
 }
 
 // DeleteRepo will handle remote requests for repository deletion
@@ -155,7 +162,7 @@ func (s *Server) DeleteRepo(w http.ResponseWriter, r *http.Request, p httprouter
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository deletion requested")
-	s.jproc.PushJob(jobs.NewDeleteRepoJob(id))
+	s.pushJob(w, jobs.NewDeleteRepoJob(id))
 }
 
 // DeltaRepo will handle remote requests for repository deltaing
@@ -164,7 +171,7 @@ func (s *Server) DeltaRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository delta requested")
-	s.jproc.PushJob(jobs.NewDeltaRepoJob(id))
+	s.pushJob(w, jobs.NewDeltaRepoJob(id))
 }
 
 // IndexRepo will handle remote requests for repository indexing
@@ -173,7 +180,7 @@ func (s *Server) IndexRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Repository indexing requested")
-	s.jproc.PushJob(jobs.NewIndexRepoJob(id))
+	s.pushJob(w, jobs.NewIndexRepoJob(id))
 }
 
 // ImportPackages will bulk-import the packages in the request
@@ -192,7 +199,7 @@ func (s *Server) ImportPackages(w http.ResponseWriter, r *http.Request, p httpro
 		"npackages": len(req.Path),
 	}).Info("Repository bulk import requested")
 
-	s.jproc.PushJob(jobs.NewBulkAddJob(id, req.Path))
+	s.pushJob(w, jobs.NewBulkAddJob(id, req.Path))
 }
 
 // CloneRepo will proxy a job to clone an existing repository
@@ -212,7 +219,7 @@ func (s *Server) CloneRepo(w http.ResponseWriter, r *http.Request, p httprouter.
 		"fullClone": req.CopyAll,
 	}).Info("Repository clone requested")
 
-	s.jproc.PushJob(jobs.NewCloneRepoJob(id, req.CloneName, req.CopyAll))
+	s.pushJob(w, jobs.NewCloneRepoJob(id, req.CloneName, req.CopyAll))
 }
 
 // PullRepo will proxy a job to pull an existing repository
@@ -231,7 +238,7 @@ func (s *Server) PullRepo(w http.ResponseWriter, r *http.Request, p httprouter.P
 		"target": target,
 	}).Info("Repository pull requested")
 
-	s.jproc.PushJob(jobs.NewPullRepoJob(req.Source, target))
+	s.pushJob(w, jobs.NewPullRepoJob(req.Source, target))
 }
 
 // RemoveSource will proxy a job to remove an existing set of packages by source name + relno
@@ -251,7 +258,7 @@ func (s *Server) RemoveSource(w http.ResponseWriter, r *http.Request, p httprout
 		"repo":    target,
 	}).Info("Source removal requested")
 
-	s.jproc.PushJob(jobs.NewRemoveSourceJob(target, req.Source, req.Release))
+	s.pushJob(w, jobs.NewRemoveSourceJob(target, req.Source, req.Release))
 }
 
 // CopySource will proxy a job to copy a package by source&relno into target
@@ -273,7 +280,7 @@ func (s *Server) CopySource(w http.ResponseWriter, r *http.Request, p httprouter
 		"skipIndex":  req.SkipIndex,
 	}).Info("Source copy requested")
 
-	s.jproc.PushJob(jobs.NewCopySourceJob(sourceRepo, req.Target, req.Source, req.Release, req.SkipIndex))
+	s.pushJob(w, jobs.NewCopySourceJob(sourceRepo, req.Target, req.Source, req.Release, req.SkipIndex))
 }
 
 // TrimPackages will proxy a job to remove excess fat from a repo
@@ -292,7 +299,7 @@ func (s *Server) TrimPackages(w http.ResponseWriter, r *http.Request, p httprout
 		"maxKeep": req.MaxKeep,
 	}).Info("Package trim requested")
 
-	s.jproc.PushJob(jobs.NewTrimPackagesJob(target, req.MaxKeep))
+	s.pushJob(w, jobs.NewTrimPackagesJob(target, req.MaxKeep))
 }
 
 // TrimObsolete will proxy a job to remove obsolete packages from a repo
@@ -301,7 +308,7 @@ func (s *Server) TrimObsolete(w http.ResponseWriter, r *http.Request, p httprout
 	log.WithFields(log.Fields{
 		"id": id,
 	}).Info("Obsoletes trim requested")
-	s.jproc.PushJob(jobs.NewTrimObsoleteJob(id))
+	s.pushJob(w, jobs.NewTrimObsoleteJob(id))
 }
 
 // ResetCompleted will ask the job store to remove completed jobs. This is blocking.
diff --git a/src/ferryd/jobs/processor.go b/src/ferryd/jobs/processor.go
index a62515e..54e03f0 100644
--- a/src/ferryd/jobs/processor.go
+++ b/src/ferryd/jobs/processor.go
@@ -107,10 +107,9 @@ func (j *Processor) Begin() {
 
 // PushJob will automatically determine which queue to push a job to and place
 // it there for immediate execution
-func (j *Processor) PushJob(job *JobEntry) {
+func (j *Processor) PushJob(job *JobEntry) error {
 	if job.sequential {
-		j.store.PushSequentialJob(job)
-	} else {
-		j.store.PushAsyncJob(job)
+		return j.store.PushSequentialJob(job)
 	}
+	return j.store.PushAsyncJob(job)
 }
diff --git a/src/ferryd/monitor.go b/src/ferryd/monitor.go
index 7c86ad8..da0ea8f 100644
--- a/src/ferryd/monitor.go
+++ b/src/ferryd/monitor.go
@@ -96,5 +96,10 @@ func (s *Server) processTransitManifest(name string) {
 	log.WithFields(log.Fields{
 		"id": name,
 	}).Info("Received transit manifest upload")
-	s.jproc.PushJob(jobs.NewTransitJob(fullpath))
+	if err := s.jproc.PushJob(jobs.NewTransitJob(fullpath)); err != nil {
+		log.WithFields(log.Fields{
+			"id":    name,
+			"error": err,
+		}).Error("Failed to queue transit manifest upload")
+	}
 }
-- 
2.43.0


From f8cbfde252fc1f3ab717af4d2c51e523ea46e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:45 +0000
Subject: [PATCH 33/35] fix: read files to hash them

A file that is truncated by someone else while it is mapped makes the access to
its pages fatal, so a client still writing to its upload took the daemon down.
---
 src/ferryd/core/mmap.go | 71 -----------------------------------------
 src/ferryd/core/util.go | 32 +++++++++----------
 2 files changed, 16 insertions(+), 87 deletions(-)
 delete mode 100644 src/ferryd/core/mmap.go

diff --git a/src/ferryd/core/mmap.go b/src/ferryd/core/mmap.go
deleted file mode 100644
index 179a1d7..0000000
--- a/src/ferryd/core/mmap.go
+++ /dev/null
@@ -1,71 +0,0 @@
-//
-// Copyright © 2017-2019 Solus Project
-//
-// Licensed under the Apache License, Version 2.0 (the "License");
-// you may not use this file except in compliance with the License.
-// You may obtain a copy of the License at
-//
-//      http://www.apache.org/licenses/LICENSE-2.0
-//
-// Unless required by applicable law or agreed to in writing, software
-// distributed under the License is distributed on an "AS IS" BASIS,
-// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
-// See the License for the specific language governing permissions and
-// limitations under the License.
-//
-
-package core
-
-import (
-	"os"
-	"syscall"
-)
-
-// An MmapFile is used to easily wrap the syscall mmap() functions to be readily
-// usable from golang.
-// This helps heaps (pun intended) when it comes to computing the hash sum for
-// very large files, such as the index and eopkg files, in a zero copy fashion.
-type MmapFile struct {
-	f    *os.File
-	Data []byte
-	len  int64
-	m    bool
-}
-
-// MapFile will attempt to mmap() the input file
-func MapFile(path string) (*MmapFile, error) {
-	var err error
-	ret := &MmapFile{}
-	ret.f, err = os.Open(path)
-	if err != nil {
-		return nil, err
-	}
-	st, err := ret.f.Stat()
-	if err != nil {
-		ret.f.Close()
-		return nil, err
-	}
-	ret.len = st.Size()
-	ret.Data, err = syscall.Mmap(int(ret.f.Fd()), 0, int(ret.len), syscall.PROT_READ, syscall.MAP_PRIVATE)
-	if err != nil {
-		ret.f.Close()
-		return nil, err
-	}
-	ret.m = true
-	return ret, nil
-}
-
-// Close will close the previously mmapped filed
-func (m *MmapFile) Close() error {
-	var err error
-	if m.f == nil {
-		return nil
-	}
-	if m.m {
-		err = syscall.Munmap(m.Data)
-		m.m = false
-	}
-	m.f.Close()
-	m.f = nil
-	return err
-}
diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 863c062..75f01fc 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -20,6 +20,7 @@ import (
 	"crypto/sha1"
 	"crypto/sha256"
 	"encoding/hex"
+	"hash"
 	"io"
 	"io/ioutil"
 	"os"
@@ -108,30 +109,29 @@ func RemovePackageParents(path string) error {
 	return nil
 }
 
-// FileSha1sum is a quick wrapper to grab the sha1sum for the given file
-func FileSha1sum(path string) (string, error) {
-	mfile, err := MapFile(path)
+// hashFile will write the contents of the given file to the hash. The file is
+// read, and not mapped: someone might truncate it meanwhile, and access to the
+// missing pages of a mapping is fatal.
+func hashFile(path string, h hash.Hash) (string, error) {
+	fi, err := os.Open(path)
 	if err != nil {
 		return "", err
 	}
-	defer mfile.Close()
-	h := sha1.New()
-	// Pump from memory into hash for zero-copy sha1sum
-	h.Write(mfile.Data)
+	defer fi.Close()
+	if _, err := io.Copy(h, fi); err != nil {
+		return "", err
+	}
 	return hex.EncodeToString(h.Sum(nil)), nil
 }
 
+// FileSha1sum is a quick wrapper to grab the sha1sum for the given file
+func FileSha1sum(path string) (string, error) {
+	return hashFile(path, sha1.New())
+}
+
 // FileSha256sum is a quick wrapper to grab the sha256sum for the given file
 func FileSha256sum(path string) (string, error) {
-	mfile, err := MapFile(path)
-	if err != nil {
-		return "", err
-	}
-	defer mfile.Close()
-	h := sha256.New()
-	// Pump from memory into hash for zero-copy sha1sum
-	h.Write(mfile.Data)
-	return hex.EncodeToString(h.Sum(nil)), nil
+	return hashFile(path, sha256.New())
 }
 
 // WriteSha1sum will take the sha1sum of the input path and then dump it to
-- 
2.43.0


From 7516ef4f6f1b3782a125fa8629946eeb07d1ffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:16 +0000
Subject: [PATCH 34/35] fix: take uploads from regular files within the upload
 directory only

A payload or manifest that is a symbolic link made the daemon read whatever it
leads to, and a FIFO kept the queue waiting forever. Importing a FIFO did so as
well.
---
 src/ferryd/core/transit_manifest.go | 33 +++++++++++++++++++++++++++++
 src/libeopkg/package.go             |  8 +++++++
 2 files changed, 41 insertions(+)

diff --git a/src/ferryd/core/transit_manifest.go b/src/ferryd/core/transit_manifest.go
index 4155830..d2ecd54 100644
--- a/src/ferryd/core/transit_manifest.go
+++ b/src/ferryd/core/transit_manifest.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"os"
 	"path/filepath"
 	"strings"
 
@@ -116,6 +117,10 @@ func NewTransitManifest(path string) (*TransitManifest, error) {
 		id:   filepath.Base(abs),
 	}
 
+	if err := checkUploaded(ret.dir, ret.path); err != nil {
+		return nil, err
+	}
+
 	blob, err := ioutil.ReadFile(ret.path)
 	if err != nil {
 		return nil, err
@@ -162,6 +167,31 @@ func NewTransitManifest(path string) (*TransitManifest, error) {
 	return ret, nil
 }
 
+// checkUploaded ensures that the path really is a regular file within the upload
+// directory, and neither leads anywhere else by means of a symbolic link, nor
+// keeps us waiting as a FIFO would.
+func checkUploaded(dir, path string) error {
+	dir, err := filepath.EvalSymlinks(dir)
+	if err != nil {
+		return err
+	}
+	target, err := filepath.EvalSymlinks(path)
+	if err != nil {
+		return err
+	}
+	if rel, err := filepath.Rel(dir, target); err != nil || !filepath.IsLocal(rel) {
+		return ErrInvalidPayload
+	}
+	st, err := os.Stat(target)
+	if err != nil {
+		return err
+	}
+	if !st.Mode().IsRegular() {
+		return ErrInvalidPayload
+	}
+	return nil
+}
+
 // ValidatePayload will verify the files listed in the manifest locally, ensuring
 // that they actually exist, and that the hashes match to prevent any corrupted
 // uploads being inadvertently imported
@@ -169,6 +199,9 @@ func (t *TransitManifest) ValidatePayload() error {
 	for i := range t.File {
 		f := &t.File[i]
 		path := filepath.Join(t.dir, f.Path)
+		if err := checkUploaded(t.dir, path); err != nil {
+			return err
+		}
 		sha, err := FileSha256sum(path)
 		if err != nil {
 			return err
diff --git a/src/libeopkg/package.go b/src/libeopkg/package.go
index 6385b89..c0dc590 100644
--- a/src/libeopkg/package.go
+++ b/src/libeopkg/package.go
@@ -59,6 +59,14 @@ func Open(path string) (*Package, error) {
 		Path: path,
 		ID:   filepath.Base(path),
 	}
+	// Opening a FIFO would keep us waiting for someone to write to it
+	st, err := os.Stat(path)
+	if err != nil {
+		return nil, err
+	}
+	if !st.Mode().IsRegular() {
+		return nil, ErrEopkgCorrupted
+	}
 	zipFile, err := zip.OpenReader(path)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From aa8c6d9d84eb47e60d3949eeb606c19156859e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:16 +0000
Subject: [PATCH 35/35] fix: link the file that a symbolic link leads to

A package imported by way of a symbolic link ended up in the pool as that link,
which leads nowhere from there when it is relative, and elsewhere when its
target is replaced.
---
 src/ferryd/core/util.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ferryd/core/util.go b/src/ferryd/core/util.go
index 75f01fc..3449632 100644
--- a/src/ferryd/core/util.go
+++ b/src/ferryd/core/util.go
@@ -77,6 +77,11 @@ func LinkOrCopyFile(source, dest string, forceCopy bool) error {
 	if forceCopy {
 		return CopyFile(source, dest)
 	}
+	// The link must be to the file, and not to a symbolic link that might lead
+	// nowhere from its new place
+	if target, err := filepath.EvalSymlinks(source); err == nil {
+		source = target
+	}
 	if os.Link(source, dest) == nil {
 		return nil
 	}
-- 
2.43.0

