#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))
C='src/ferryd/core/'; J='src/ferryd/jobs/'; F='src/ferryd/'
NOTEST="No existing test creates a repository, adds a package or runs a job: the suite parses fixture files, opens an empty manager and escapes one string."

prop('C01','Pool reference counts equal the number of repositories holding the package',
 "After any history of repository operations (successful or refused), every package or delta in the shared pool has a reference count equal to the number of repositories that currently hold it, and the pool contains exactly the packages and deltas held by at least one repository. A pool file is deleted exactly when its last holder drops it, never earlier.",
 ['histories','inputs'],"All sequences of create, delete, import, upload, clone, pull, copy, remove, trim, delta and index operations over any repositories and packages, including repeated and refused ones.",
 NOTEST+" Counts only go wrong after specific multi-repository sequences.",
 [C+'pool.go',C+'repo.go',C+'api.go'],
 [('reference on add / ref / add-delta / ref-delta',C+'pool.go addPackageInternal, AddDelta, RefEntry'),('unreference and purge',C+'pool.go UnrefEntry'),('per-repository membership',C+'repo.go buildSaneEntry, UnrefPackage, DeleteRepo')],
 [('pool entries','package id -> count, metadata','goleveldb bucket pool'),('repository entries','package name -> held ids, published id, delta ids','goleveldb bucket repo/<id>/package')],
 ['pool listing','pool/ and repo/ directory trees'])

prop('C02','Held packages stay on disk, byte for byte as they were added',
 "Every package or delta a repository holds is present in that repository's tree and in the pool at its indexed location, with exactly the bytes that were first added, whatever operations ran since and whether files are hard-linked or copied. No operation on one repository modifies, truncates or removes a file another repository still holds, and a package a repository no longer holds is no longer in its tree.",
 ['histories','inputs','configurations'],"All operation histories, all package contents, hard-link and cross-filesystem copy configurations, including operations whose source and destination coincide.",
 NOTEST+" File aliasing (hard links, same source and target) shows only in particular sequences.",
 [C+'util.go',C+'pool.go',C+'repo.go'],
 [('link or copy into place',C+'util.go LinkOrCopyFile, CopyFile'),('removal of file and empty parents',C+'util.go RemovePackageParents, '+C+'repo.go removePackageInternal')],
 [('repository and pool trees','eopkg files','repo/<id>/..., pool/...')],['file contents'])

prop('C03','The published package is always the newest one held for its name',
 "For every package name in a repository the published package is one of the held packages of that name and no held package of that name has a higher release. A newly added package replaces the published one only if its release is strictly higher; when the published one is removed the newest remaining one takes over, and a name with no remaining package disappears from the repository.",
 ['histories','inputs'],"All orders of adding, pulling, copying, cloning, removing and trimming packages with any releases, including ties and out-of-order arrival.",
 NOTEST+" The rule is a function of the whole history.",
 [C+'repo.go'],[('choice on insert',C+'repo.go buildSaneEntry'),('choice on removal',C+'repo.go UnrefPackage')],
 [('published id','tip of a package name','repository entry')],['repository entries','index'])

prop('C04','The index lists exactly the published, non-obsolete packages, correctly',
 "After any operation that indexes a repository, its index lists exactly one entry per package name, the published one, except names that are obsolete (or the -dbginfo companion of an obsolete name), sorted by package identifier, together with the repository's own distribution, component and group data. Each entry's hash, size and location match the file stored there, and its delta list is exactly the held deltas leading to that release, with their source release, hash, size and location.",
 ['inputs','histories'],"All repository contents, metadata (any text), asset files and obsolete lists reachable by any history.",
 NOTEST+" No test ever emits an index.",
 [C+'repo_index.go',C+'pool.go','src/libeopkg/metadata.go','src/libeopkg/distribution.go'],
 [('index emission',C+'repo_index.go emitIndex, emitIndexPackage, pushDeltaPackages'),('hash/size/location capture',C+'pool.go addPackageInternal')],
 [('index','eopkg-index.xml','repo/<id>/eopkg-index.xml')],['eopkg-index.xml'])

prop('C05','Index files are complete whenever visible and agree after every index run',
 "At every instant, including during an index run and after a crash or failure at any point of it, every visible index file is complete: the previous version or the new one in full, never partial. When an index run succeeds, the checksum files and the two compressed copies all match the index; a run that fails before publication leaves the previously published files untouched, and a later run after a crash or failure succeeds.",
 ['crash_points','fault_sequences','inputs'],"Every crash point and every single failing file-system, database or compressor step of an index run, followed by a restart and re-run.",
 "The tests never index; crash points and failing steps inside one run cannot be sampled by unit tests.",
 [C+'repo_index.go','src/libeopkg/util.go',C+'util.go'],
 [('write aside then rename',C+'repo_index.go Index'),('compressors','src/libeopkg/util.go XzFile, ZstdFile'),('checksums',C+'util.go WriteSha1sum, WriteSha256sum')],
 [('nine index files','xml, xz, zst and their sha1/sha256','repo/<id>/')],['repo/<id>/eopkg-index.*'])

prop('C06','An operation on one repository never changes any other repository',
 "Every operation changes the package set, published packages, deltas, files, assets and index of only the repository it targets; all others stay exactly as they were, whatever the names of repositories and packages. Clone, pull and copy leave their source untouched, and an operation naming a repository that does not exist changes nothing.",
 ['histories','inputs'],"All operations with all pairs of repository names (including names that are prefixes or extensions of each other) and package names.",
 NOTEST+" Interference depends on the particular names stored side by side.",
 [C+'repo.go',C+'api.go','src/libdb/leveldb.go'],[('nested key prefixes','src/libdb/leveldb.go Bucket, ForEach'),('per-repository paths',C+'repo.go bakeRepo')],
 [('all repositories','entries, trees, assets, index','database and base directory')],['repository listing, entries, trees'])

prop('C07','A clone holds exactly the tips, or exactly everything, of its source',
 "A tip clone creates a new indexed repository whose packages are exactly the source's published packages, each published there too; a full clone holds exactly the source's packages and deltas, publishing the same releases. Both carry over the source's distribution, component and group files, and cloning an unknown source or onto an existing repository is refused without changing anything.",
 ['histories','inputs'],"All reachable source repositories (several releases per name, ties, deltas, assets) and both clone modes.",
 NOTEST,[C+'repo.go',C+'api.go',J+'clone_repo.go'],[('clone',C+'repo.go CloneFrom, '+C+'api.go CloneRepo'),('mode parameter',J+'clone_repo.go')],
 [('clone','new repository','database')],['entries, tree, index of the clone'])

prop('C08','Pull brings in exactly the newer tips, and refuses to go backwards',
 "Pulling from a source adds to the target exactly the source's published packages that the target lacks by name or holds only in an older published release, keeps everything the target already had, copies the source's asset files and indexes the target. If the target publishes a newer release of any package than the source, the pull is refused and no package is added.",
 ['histories','inputs'],"All pairs of reachable repositories, including diverged, empty and identical ones and a repository pulled into itself.",
 NOTEST,[C+'repo.go',C+'api.go',J+'pull_repo.go'],[('pull selection',C+'repo.go PullFrom'),('assets',C+'repo.go pullAssets'),('direction of parameters',J+'pull_repo.go')],
 [('target','entries after pull','database')],['entries, assets, index of the target'])

prop('C09','Copy-source and remove-source act on exactly the matching packages',
 "Copying or removing by source name acts on exactly the packages of the repository that come from that source and have the given release (or any release when none is given), across all package names, and on no others; if nothing matches the request fails and changes nothing. Removal re-indexes the repository, and copying re-indexes the target unless the caller asked to skip indexing, in which case the index is left alone.",
 ['histories','inputs'],"All repository contents, source names and releases, with and without index skipping.",
 NOTEST,[C+'repo.go',C+'api.go',J+'copy_source.go',J+'remove_source.go','src/ferryctl/cmd/copy_source.go'],
 [('selection',C+'repo.go RemoveSource, CopySourceFrom'),('index switch',C+'api.go CopySource')],
 [('entries','held packages with source name and release','database')],['entries, tree, index'])

prop('C10','Trimming keeps the newest packages of each name and always the published one',
 "Trimming a repository to a maximum number of packages removes, for each name holding more than that, all but that many of its newest packages, and never the published one; names within the limit are untouched. A maximum below one is refused without any change, and the index is refreshed.",
 ['histories','inputs'],"All repository contents and limits, including ties, single-package names, and limits at, above and below the number held.",
 NOTEST,[C+'repo.go',J+'trim_packages.go'],[('selection',C+'repo.go TrimPackages')],[('entries','held packages','database')],['entries, tree, index'])

prop('C11','Trimming obsoletes removes exactly the obsolete packages',
 "Trimming obsoletes removes every held version of each package whose name is on the repository's obsolete list, and of its -dbginfo companion, and nothing else, then re-indexes. It is refused without any change when the repository has no distribution file.",
 ['histories','inputs'],"All obsolete lists and repository contents, with several versions per name and companion packages whose base is or is not held.",
 NOTEST+" Only parsing of the obsolete list is tested.",
 [C+'repo.go',C+'repo_index.go','src/libeopkg/distribution.go'],[('selection',C+'repo.go TrimObsolete'),('obsolete set','src/libeopkg/distribution.go IsObsolete')],
 [('obsolete names','distribution.xml','assets/<id>/')],['entries, tree, index'])

prop('C12','An upload is accepted only if its manifest verifies and it moves forward',
 "An upload manifest is acted on only if its version, target and every listed file are valid and every file's checksum matches; otherwise nothing is added and its files stay in place. Each package of a verified upload is added only if the target does not already publish the same or a newer release of that name; when everything is accepted the packages are added and indexed and exactly the manifest and the files it lists are removed from the upload area.",
 ['inputs','histories'],"All manifests (missing or malformed sections, wrong checksums, wrong file types, missing files, unknown targets, several files) against all repository states.",
 "Existing tests parse one valid manifest and check its fields; they never process an upload or reject one.",
 [C+'transit_manifest.go',C+'repo.go',J+'transit_job.go',F+'monitor.go'],[('manifest validation',C+'transit_manifest.go NewTransitManifest, ValidatePayload'),('strict insert',C+'repo.go AddPackage'),('clean-up',J+'transit_job.go Execute')],
 [('upload area','manifest and payload files','incoming/')],['incoming/, entries, job outcome'])

prop('C13','Queued jobs run in order, each exactly once, sequential ones one at a time',
 "Every accepted job is executed exactly once: no job is claimed by two workers, skipped, or dropped, whatever the interleaving of submissions, claims, completions, status queries and history resets. Sequential jobs run one at a time in the order they were accepted.",
 ['schedules','histories'],"All interleavings of concurrent submitters, sequential and parallel workers, status readers and resets, for queues of any length.",
 "No test touches the job store or the workers; interleavings and long queues (sequence-number widths) are out of reach of unit tests.",
 [J+'store.go',J+'worker.go',J+'processor.go','src/libdb/leveldb.go'],[('claim under the store lock',J+'store.go claimJobInternal'),('sequence allocation','src/libdb/leveldb.go NextSequence, '+J+'store.go pushJobInternal'),('single sequential worker',J+'processor.go')],
 [('queues','sequence number -> job','job database buckets Async, Sync')],['job execution order'])

prop('C14','Accepted jobs survive crashes and restarts and are run again in order',
 "A job that was accepted and not yet completed when the daemon stops or crashes at any point is still queued, with the same type and arguments, when it starts again, marked as not running, and is executed in its original order. A completed job is not executed again, and stopping the daemon normally first lets the running job finish and be recorded.",
 ['crash_points','histories'],"Every crash point between accepting, claiming, executing and completing a job, for any mix of queued and running jobs in both queues.",
 "No test restarts a job store.",
 [J+'store.go',J+'worker.go',J+'processor.go',F+'server.go'],[('unclaim at start',J+'store.go unclaimJobs, setup'),('retire after execution',J+'worker.go Start'),('orderly stop',J+'processor.go Close')],
 [('claimed flag','job is running','job record')],['jobs executed after restart'])

prop('C15','Job history keeps the newest hundred outcomes and resets on request',
 "The completed and failed histories each list exactly the most recent outcomes of that kind, at most one hundred, each once with its own description, times, and (only for failures) error text; successes never appear as failures or the reverse. Resetting one history empties exactly that one, after which new outcomes are recorded as from a fresh start.",
 ['histories'],"All sequences of successful and failed jobs of any length (several wrap-arounds), resets at any point, and restarts.",
 "No test completes a job, let alone more than one hundred.",
 [J+'store.go'],[('ring position and slot',J+'store.go markCompletion'),('reset',J+'store.go resetInternal')],[('history rings','slot -> outcome, next position','job database buckets CompletedSuccess, CompletedFailure')],['status'])

prop('C16','A delta plus the old package reconstructs the new package',
 "For any two versions of a package, a produced delta carries the new package's metadata and file list unchanged, and its archive holds exactly the new package's entries whose content is not already in the old package (plus its directories), unmodified; so every file of the new package is obtainable from the delta or the old package. No delta is produced between packages that differ in name, distribution release or architecture or do not increase the release, and production leaves no working files behind.",
 ['inputs'],"All pairs of package file sets: added, removed, changed, moved, duplicated, empty, linked files and directories, and any metadata.",
 "Existing tests build one delta from two fixture packages and check only that it is produced.",
 ['src/libeopkg/delta.go','src/libeopkg/package.go','src/libeopkg/util.go',C+'util.go'],[('content-hash difference','src/libeopkg/delta.go produceInstallBall'),('copy of archive and metadata','src/libeopkg/delta.go copyInstallPartial, copyZipPartial, pushInstallBall')],
 [('delta','eopkg archive','deltaStaging/<id>/')],['delta archive contents'])

prop('C17','A repository holds a delta only while it holds both its endpoints',
 "Generating deltas for a package yields, for each older held version, at most one delta to the newest, recorded with the right endpoints and releases, reusing one already pooled, and never retrying one already found pointless. Every delta a repository holds joins two packages it holds: it is dropped when either endpoint leaves, survives every other operation (including adding further packages), and is carried over by a full clone.",
 ['histories','inputs'],"All interleavings of adding, removing, trimming, cloning and delta generation over several releases and repositories.",
 NOTEST,[C+'repo.go',C+'pool.go',J+'delta.go',C+'repo_index.go'],[('garbage collection',C+'repo.go UnrefPackage'),('insertion and reuse',C+'repo.go AddLocalDelta, RefDelta, '+J+'delta.go'),('skip marks',C+'pool.go MarkDeltaFailed')],
 [('delta ids','deltas of a package name','repository entry'),('skip marks','deltas known pointless','database')],['entries, tree, index'])

prop('C18','Repository state survives crashes: re-running the cut-off job repairs it',
 "If the daemon dies at any point of a repository operation, restarting and running that operation again ends in the same repository state as if it had never been interrupted, with exact reference counts and every held package intact on disk. State that was complete before a stop or crash is unchanged after restart.",
 ['crash_points','histories'],"Every crash point (each database write and each file-system change) of every operation from any reachable state, followed by restart and re-run.",
 "No test interrupts anything; the windows lie between individual database writes and file operations.",
 [C+'repo.go',C+'pool.go',C+'api.go','src/libdb/leveldb.go'],[('transactions','src/libdb/leveldb.go Update'),('order of file and database changes',C+'repo.go AddLocalPackage, RefPackage, UnrefPackage, DeleteRepo')],
 [('database and trees','as C01, C02','base directory')],['state after restart and re-run'])

prop('C19','The key-value store isolates buckets and applies updates all-or-nothing',
 "Reading, iterating, writing or deleting in one bucket sees and affects only the objects stored in that bucket, iteration yields each of them once in key order, and what is read back is what was last written. An update is applied entirely or, if it reports an error, not at all, and in a bucket of sequence-numbered objects the next number is always greater than every one in use there.",
 ['inputs','histories'],"All nestings and names of buckets, keys and values, and all sequences of operations, updates, failures and re-opens.",
 "The store has no test of its own.",
 ['src/libdb/leveldb.go','src/libdb/main.go','src/libdb/transcoder.go'],[('key construction','src/libdb/leveldb.go getRealKey, Bucket'),('batching','src/libdb/leveldb.go Update'),('sequence','src/libdb/leveldb.go NextSequence')],
 [('store','bucket path x key -> object','goleveldb')],['store API'])

prop('C20','At most one daemon owns a base directory, until its shutdown is complete',
 "However many daemons are started, stopped or killed at the same time on one base directory, at most one owns it at any moment; ownership lasts until that daemon has finished its running jobs and closed its stores. Once no daemon owns the directory, a new one can take ownership, whatever a dead predecessor left behind.",
 ['schedules','crash_points'],"All interleavings of start, stop and kill of several processes at the granularity of their file operations.",
 "No test takes the lock, and interleavings of several processes cannot be sampled by unit tests.",
 [F+'lockfile.go',F+'server.go'],[('advisory lock plus owner record',F+'lockfile.go Lock, writePID, Clean'),('release order',F+'server.go Close')],
 [('lock file','owner process id, advisory lock','<base>/ferryd.lock')],['lock acquisition result'])

prop('C21','Index text escaping is independent of how the text is chunked',
 "The escaped output depends only on the bytes written, never on how they are split across writes: symbols, control and space characters beyond ASCII become numeric references, all other valid text passes through unchanged, and invalid bytes become the replacement character. Package text therefore reads back from the index exactly as it was in the package, wherever it falls and however large the index is.",
 ['inputs'],"All byte strings and all ways of splitting them into writes, and indexes of any size.",
 "The existing test escapes short strings in a single write.",
 [C+'escape.go',C+'repo_index.go'],[('escaping writer',C+'escape.go Write')],[('carried-over bytes','incomplete character between writes','escaping writer')],['index text'])

prop('C22','Malformed input fails its own job and nothing else',
 "Any malformed or hostile package, manifest, asset file or request makes at most its own job fail with a recorded error: the daemon does not crash, later jobs run normally, and repositories, pool and index are unchanged by the rejected input. No input causes the daemon to write, delete or read payload outside the directories assigned to it.",
 ['inputs'],"All package, manifest and asset file contents (truncated, empty, missing sections, path-like names) and request parameters.",
 "The tests only use well-formed fixtures.",
 ['src/libeopkg/package.go','src/libeopkg/main.go','src/libeopkg/metadata.go',C+'transit_manifest.go',C+'repo.go',J+'worker.go'],[('metadata validation','src/libeopkg/package.go ReadMetadata'),('manifest validation',C+'transit_manifest.go'),('failure recording',J+'worker.go processJob')],
 [('job outcome','failed with error','history')],['daemon liveness, state, surrounding files'])

prop('C23','Every request becomes the job it asks for, and status reports it truly',
 "Each accepted client request results in exactly one job of the requested kind with exactly the arguments given, in the order accepted, and each accepted upload likewise. Status always succeeds and lists precisely the queued and running jobs and the recorded outcomes, and the repository and pool listings show exactly the existing repositories and pooled items with their counts.",
 ['inputs','histories'],"All requests with all argument values (names with unusual characters, negative and zero numbers, empty lists, flags), in any order, with any jobs queued.",
 "No test exercises the client, the HTTP interface or a job handler.",
 [F+'handlers.go','src/libferry/main.go','src/libferry/types.go',J+'main.go',J+'store.go',F+'monitor.go'],[('routes and handlers',F+'handlers.go, '+F+'server.go'),('job parameters',J+'*.go New...Job / New...JobHandler'),('status',J+'store.go ActiveJobs')],
 [('job queue','type and parameters','job database')],['client API'])

prop('C24','Repositories are created once, deleted completely, and can be recreated',
 "Creating a repository succeeds exactly when its name is valid, unused and has no leftovers on disk, and yields an empty indexed repository; creating an existing one is refused without changing it. Deleting a repository removes its record, packages, deltas and directories and releases everything it held in the pool, after which the same name can be created again as a fresh, empty repository.",
 ['histories','inputs'],"All histories of creation, use, deletion and recreation, for any names and contents, across restarts.",
 NOTEST,[C+'repo.go',C+'api.go'],[('creation checks',C+'repo.go CreateRepo'),('deletion',C+'repo.go DeleteRepo')],[('repository record','name','database'),('repository directories','tree, assets, delta areas','base directory')],['repository listing, directories'])

prop('C25','The client asks for exactly what its command line says, and shows the answers',
 "Each ferryctl command line asks the daemon for exactly one job of the kind named, with exactly the names, numbers and flags given and, for an import, exactly the packages (no deltas or other files) found below each path given, in the order of the paths; or, where it is not a valid command line or cannot be carried out, for nothing at all, and says so. What it lists of repositories, pool and jobs is what the daemon answered: every repository in order of name, every pooled item with its count, the most recent finished and failed and the next current jobs (all of them with --all) with their true totals; and resetting one history empties exactly that one.",
 ['inputs'],"All command lines (any words, numbers, flags, order of flags), all directory trees below the paths imported, all sizes of queue and histories.",
 "The client has no tests.",
 ['src/ferryctl/cmd/import.go','src/ferryctl/cmd/copy_source.go','src/ferryctl/cmd/remove_source.go','src/ferryctl/cmd/trim_packages.go','src/ferryctl/cmd/status.go','src/ferryctl/cmd/clone_repo.go','src/libferry/main.go'],
 [('arguments','src/ferryctl/cmd/*.go'),('directory walk','src/ferryctl/cmd/import.go GetEopkgs'),('tables','src/ferryctl/cmd/status.go'),('requests','src/libferry/main.go')],
 [('job queue','type and parameters of what was asked for','job database')],['jobs queued, standard output and error'])

prop('C26','The index says of each package and asset what its own document says',
 "However a package came into a repository (import, upload, clone, pull, copy) and whatever happened since (restarts, other packages coming and going), the index says of it exactly what its metadata.xml says: name, summaries and descriptions in each language (without surrounding white space, the first being English unless marked otherwise), IsA, PartOf, licences, dependencies with all their bounds, conflicts, replaced packages, provided names, the whole history with its actions, build host, distribution, architecture, sizes, format and source. Likewise of the repository's distribution, and of its components and groups, sorted by name. How a document is written (order of different elements, white space, escapes, CDATA, comments, elements unknown to ferryd) makes no difference, and no well-formed document is refused.",
 ['inputs','histories'],"All documents: any texts, any number of each element, any spelling; all ways into a repository.",
 NOTEST+" The package tests read three real documents and never compare them with an index.",
 ['src/libeopkg/metadata.go','src/libeopkg/package.go','src/libeopkg/distribution.go','src/libeopkg/components.go','src/libeopkg/groups.go',C+'repo_index.go',C+'pool.go'],
 [('schemas','src/libeopkg/*.go struct tags'),('clean-up of texts','src/libeopkg/package.go ReadMetadata, main.go FixMissingLocalLanguage'),('storage','core/pool.go PoolEntry, libdb encoding'),('index emission',C+'repo_index.go')],
 [('pool entry','Meta of the entry','database'),('index','eopkg-index.xml','repo/<id>/eopkg-index.xml')],['eopkg-index.xml'])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
