'''Writes properties.jsonl (kept as a script so that the long texts stay readable).'''
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': ['src/s3ql/' + f if not f.startswith('contrib') else f for f in files],
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': list(observe), 'hook_needed': None},
    })


prop('C01', 'File system calls agree with a POSIX reference model',
     'For every sequence of file system calls (create, mkdir, symlink, mknod, link, unlink, rmdir, rename, open, read, write, truncate, attribute changes, extended attributes, directory listing), each call gives the same result or the same error as a simple in-memory POSIX model, and afterwards contents (holes read as zeros), sizes, attributes, timestamps, link counts and listings are those of the model. '
     'This holds no matter when cached blocks or inodes are flushed, evicted or dropped, and across unmount and remount, with or without the local cache. '
     'Unlinked files stay usable until the last handle is closed.',
     ['histories', 'inputs'],
     'all call sequences over a small name space, arbitrary offsets/sizes around block boundaries, all block sizes, any placement of sync, cache drop, eviction and remount',
     't3_fs_api tests run one short scripted scenario per call with an unlimited cache; the FUSE tests that run longer histories cannot run here and use one fixed script.',
     ['fs.py', 'block_cache.py', 'inode_cache.py', 'mount.py'],
     [('Operations handlers', 'fs.py'), ('block splitting / zero fill', 'fs.py _readwrite'), ('inode write-back cache', 'inode_cache.py')],
     ['file system call results', 'state after remount'])
prop('C02', 'Concurrent calls behave as if executed one at a time',
     'For every interleaving of concurrent reads, writes, truncations, removals, syncs, cache drops, evictions, background uploads and object removals, each read returns, block by block, data that some sequential order of the overlapping calls allows, nothing acknowledged is lost once all calls have finished, and no call blocks forever. '
     'After a final sync, what the backend holds is exactly the final contents, also when transient upload faults happen on the way.',
     ['schedules', 'histories'],
     'all interleavings of a few concurrent clients at every scheduling point, all upload/remove queue timings',
     'The block cache tests force three hand-picked interleavings; the others run single-task.',
     ['block_cache.py', 'multi_lock.py', 'fs.py', '_linked_dict.py'],
     [('per-block lock', 'multi_lock.py'), ('in_transit / dirty flags', 'block_cache.py'), ('upload and removal queues', 'block_cache.py')],
     ['read results', 'backend objects after sync'])
prop('C03', 'A cleanly unmounted file system is always structurally sound',
     'After every history of file system calls that ends in a clean unmount, a forced file system check finds nothing to repair, the metadata stored in the backend is identical to the local metadata, and the backend holds exactly the data objects that live files refer to. '
     'The check itself does not change any file, attribute or directory.',
     ['histories'],
     'all histories of calls, snapshots, locks, tree removals, cache drops and periodic metadata uploads, followed by unmount',
     'The existing tests run the checker only after single scripted scenarios, and those that unmount a real file system cannot run here.',
     ['fs.py', 'block_cache.py', 'mount.py', 'fsck.py', 'database.py'],
     [('reference counts of inodes, names, blocks, objects', 'fs.py, block_cache.py'), ('unmount sequence', 'mount.py')],
     ['fsck exit code and log', 'backend object listing'])
prop('C04', 'Identical blocks share one object, removed exactly when unreferenced',
     'Whenever all pending uploads and removals have completed, the backend holds exactly one data object per distinct block content in use: writing data that is already stored uploads nothing new, and an object disappears once - and only once - no file or snapshot refers to it. '
     'A failed upload or removal may leave the object to be handled later but never makes a stored block point to data that is not there.',
     ['histories', 'fault_sequences'],
     'all histories of writes, overwrites, truncations, copies and deletions drawing contents from a small pool, under all upload orders and fault placements',
     'Deduplication tests cover two or three fixed write sequences.',
     ['block_cache.py', 'fs.py'],
     [('hash lookup before upload', 'block_cache.py upload_if_dirty'), ('reference counting', 'block_cache.py _deref_obj')],
     ['backend objects'])
prop('C05', 'A replicated tree equals its source and is independent of it',
     'Replicating a directory tree yields a tree with the same names, contents, attributes, symlinks, extended attributes (of the entries in it) and hard-link structure as the source at that moment, including data still waiting to be uploaded. '
     'Later changes to either tree (writes, truncation, removal, renames) never show in the other, and replicating stores no file data again.',
     ['histories', 'schedules'],
     'all source trees (hard links, special files, sparse and dirty files) and all later modification histories of both trees',
     'Two scripted copy tests with a handful of files.',
     ['fs.py', 'cp.py'],
     [('copy_tree', 'fs.py')],
     ['walk of both trees'])
prop('C06', 'Locked trees cannot change; tree removal removes exactly the tree',
     'Once a tree is made immutable, no later file system call changes any name, content or attribute inside it, while everything outside stays modifiable and the tree can still be replicated or removed as a whole. '
     'Fast tree removal deletes exactly the named tree: hard links to its files from elsewhere and all other entries keep their data and link counts.',
     ['histories'],
     'all trees, all locked roots, all mutating calls against locked objects, all removal targets',
     'The tests lock one small tree and try one call of each kind.',
     ['fs.py', 'lock.py', 'remove.py'],
     [('locked flag checks', 'fs.py'), ('remove_tree', 'fs.py')],
     ['walk before/after'])
prop('C07', 'After a crash at any point a check recovers all synced data',
     'If the process is killed at any instant (during file operations, uploads, periodic metadata backups or unmount), a following file system check succeeds, leaves a mountable file system that a second check finds clean, and every file that was fully synced before the crash and not touched since is readable with exactly its contents. '
     'Data that was written but not yet uploaded survives as well as long as the local cache directory does; a file never contains data that was never written to it.',
     ['crash_points', 'histories'],
     'all histories, all crash instants (every file-system-level event of the process), crash followed by recovery with the surviving cache directory',
     'The tests kill no process at chosen points; they only simulate two specific crash images.',
     ['mount.py', 'block_cache.py', 'database.py', 'fsck.py', 'backends/local.py'],
     [('params is_mounted / seq_no', 'mount.py, database.py'), ('cache recovery', 'fsck.py check_cache'), ('atomic rename of objects and params', 'backends/local.py, database.py')],
     ['fsck exit codes, tree after remount'])
prop('C08', 'The file system check repairs damage, converges and spares intact data',
     'For every combination of metadata damage (missing or dangling rows, wrong reference counts, wrong sizes, broken names, lost or extra data objects; not the loss of the root directory itself), the check terminates, reports the damage, and leaves a file system on which a second check finds nothing to repair (oddities without a defined repair, like a symlink without target, are reported each time). '
     'Files that the damage did not touch keep their names, contents and attributes; detached files and directories become reachable under lost+found, and files with lost data are reported there instead of staying silently corrupted.',
     ['inputs', 'fault_sequences'],
     'all combinations of elementary damages applied to generated file systems',
     'The tests apply each single elementary damage to an empty file system, never combinations, and do not check that unrelated files survive.',
     ['fsck.py'],
     [('individual check_* passes', 'fsck.py')],
     ['fsck logs', 'tree after repair'])
prop('C09', 'Every retained metadata backup restores the state of its time',
     'For every history of metadata changes, backups, expirations, size changes and interrupted backups, downloading the latest metadata reproduces the local database exactly, and every backup that is still listed can be restored to exactly the database it was taken from. '
     'Expiration keeps the documented recent and older backups and removes nothing that a kept backup needs.',
     ['histories', 'fault_sequences'],
     'all sequences of database modifications (growing, shrinking, sparse), incremental/full uploads, expirations and restores, at several block sizes, with upload failures in between',
     'Tests take a few backups of one growing table and never combine shrinking, expiration, failure and restore.',
     ['database.py', 'adm.py', 'mount.py', 'sqlite3ext.pyx', '_sqlite3ext.cpp'],
     [('write tracking', '_sqlite3ext.cpp'), ('versioned metadata blocks', 'database.py upload_metadata/download_metadata'), ('expire_objects', 'database.py')],
     ['bytes of the database after download'])
prop('C10', 'Outdated, in-use or damaged metadata is never silently used',
     'For every sequence of mounts, crashes, checks and administrative commands from several machines sharing one backend, mounting either uses metadata identical to the newest committed state or refuses with the documented error: never an outdated local copy, never a file system that another machine may still have mounted or that is marked for checking. '
     'Creating a file system never overwrites an existing one.',
     ['histories', 'crash_points'],
     'all sequences of mount/crash/unmount/check/create from two or more cache directories',
     'A few fixed scenarios; mount itself is not run by the runnable tests.',
     ['mount.py', 'fsck.py', 'mkfs.py', 'adm.py', 'database.py'],
     [('sequence numbers', 'database.py read_cached_params, mount.py get_metadata')],
     ['exit codes, tree seen after mount'])
prop('C11', 'Modified, exchanged or truncated encrypted objects are always detected',
     'For every encrypted object and every modification of its stored bytes or stored metadata, its truncation or extension, its replacement by another object, or its reading under a wrong passphrase, fetching or looking it up raises the documented corruption error, or returns exactly what was originally stored under that name. '
     'It never returns altered contents or metadata and never fails in any other way.',
     ['inputs'],
     'all object contents and metadata, all byte-level modifications, swaps, truncations, replays and passphrases',
     'Tests flip one byte at one position per storage format.',
     ['backends/comprenc.py', 'backends/common.py'],
     [('HMAC over metadata with object name', 'backends/comprenc.py'), ('AES-CTR + HMAC trailer', 'backends/comprenc.py')],
     ['fetch/lookup results'])
prop('C12', 'Stored objects read back exactly, with every compression and passphrase',
     'For every content, metadata dictionary, name, compression algorithm and level, with and without encryption, what is fetched equals what was stored, including from objects written with other settings and through every way of storing and fetching. '
     'With encryption neither contents nor metadata values nor repeated contents are recognisable in what is stored, and compressed copies never exceed the uncompressed form beyond a small constant.',
     ['inputs', 'configurations'],
     'all byte contents (compressible, random, empty, around buffer sizes), metadata, names, algorithm/level/passphrase combinations, read offsets',
     'Fixed 2-3 payloads per format.',
     ['backends/comprenc.py', 'common.py'],
     [('compress_fh / decompress_fh / encrypt_fh / decrypt_fh', 'backends/comprenc.py')],
     ['fetch/readinto/lookup results', 'raw stored bytes'])
prop('C13', 'Every storage backend is a key-value map, also under transient faults',
     'Against a server that follows the protocol, every sequence of store, fetch, lookup, size, existence, listing, single and bulk deletion gives the results of an in-memory map, including metadata, prefixes and listings spanning several pages. '
     'Transient faults (error responses, dropped connections, truncated bodies, expired sessions) are retried so that callers see the same results, never partial or mixed data; permanent errors surface as the documented exceptions.',
     ['histories', 'fault_sequences', 'configurations'],
     'all operation sequences over keys, values and metadata, all placements of transient faults, for local, S3-compatible (v2 and v4 signatures), Swift (single and bulk) and Google Storage backends',
     'Each test injects one fault into one call with a mock server that never paginates.',
     ['backends/local.py', 'backends/s3c.py', 'backends/s3c4.py', 'backends/swift.py', 'backends/gs.py', 'backends/common.py'],
     [('retry wrappers', 'backends/common.py'), ('request/response code of each backend', 'backends/')],
     ['results of backend calls', 'server-side contents'])
prop('C14', 'The HTTP client delivers exact messages over reused connections',
     'For every sequence of requests with bodies given as bytes or streams (with or without waiting for permission to send) and every valid server framing (fixed length, chunked, until close, empty, informational responses), the client sends exactly the given request and returns exactly the status, headers and body the server sent, in order, also when reusing connections. '
     'Truncated or malformed responses and closed connections raise an error and are never taken for a complete message.',
     ['inputs', 'histories', 'fault_sequences'],
     'all request/response sequences, split points of the byte stream, framings and cut points',
     'Fixed scripted responses.',
     ['http.py'],
     [('connection state machine', 'http.py')],
     ['bytes on the wire, returned bodies'])
prop('C15', 'Object metadata encoding round-trips and rejects malformed input cleanly',
     'Every dictionary of supported values (strings, bytes, integers, floats, complex numbers, booleans, null) survives encoding and decoding unchanged, and equal dictionaries have equal checksums. '
     'For every other byte string the decoder either returns a dictionary or raises its documented error; it never executes anything, never fails otherwise, and name escaping is injective and reversible.',
     ['inputs'],
     'all supported dictionaries; arbitrary and mutated byte strings',
     'A dozen fixed examples.',
     ['common.py', 'backends/local.py'],
     [('freeze/thaw_basic_mapping', 'common.py'), ('escape/unescape', 'common.py')],
     ['decoded value'])
prop('C16', 'The control channel and malformed calls cannot crash the file system',
     'For every control command with arbitrary arguments (well-formed, malformed, referring to missing or wrong objects), the call either takes effect as documented or returns an error code, and the mounted file system stays fully usable with unchanged files. '
     'Calls with invalid names or on missing or stale inodes give an error code, not a crash.',
     ['inputs', 'histories'],
     'all control attribute names and values, all invalid arguments, interleaved with normal calls',
     'Tests send only well-formed commands.',
     ['fs.py', 'common.py', 'ctrl.py', 'cp.py', 'lock.py', 'remove.py'],
     [('control attribute handlers', 'fs.py setxattr'), ('parse_literal', 'common.py')],
     ['error codes, subsequent calls'])
prop('C17', 'Lost or corrupted data is reported, never replaced by wrong data',
     'If data objects are missing in the backend or corrupted (in any way for encrypted file systems; for others in any way that the header or the compression of the stored form reveals), every read that needs them fails with an I/O error (or returns the correct bytes if still cached), all other data stays readable, the file system becomes read-only and the next mount is refused until a check has run. '
     'No read ever returns bytes that differ from what was written.',
     ['fault_sequences', 'histories'],
     'all sets of missing or corrupted objects, all cache states, all read/write/truncate/copy sequences afterwards',
     'The failsafe tests need FUSE and damage one object.',
     ['fs.py', 'block_cache.py', 'mount.py'],
     [('failsafe flag', 'fs.py'), ('download of blocks', 'block_cache.py')],
     ['errno and data of reads, mount exit code'])
prop('C18', 'Verification reports exactly the missing and corrupted objects',
     'For every set of missing, truncated, corrupted or wrongly sized data objects, the verification tool lists exactly the missing ones as missing and exactly the bad ones as corrupted (contents only in the full mode), exits with the documented status, and modifies nothing. '
     'This holds for any number of parallel connections and any starting point. After the reported objects have been deleted and the file system checked, verification finds nothing and the data that did not depend on them is unchanged.',
     ['inputs', 'fault_sequences', 'schedules'],
     'all subsets of damaged objects, both modes, all parallelism settings and starting offsets',
     'One damaged object per test.',
     ['verify.py'],
     [('retrieve_objects', 'verify.py')],
     ['report files, exit code'])
prop('C19', 'Backup expiry keeps what the age ranges require',
     'For every list of cycles and every history of backups, the expiry script keeps a backup for every age range whenever one exists that can fill it now or later (so that with uninterrupted use every range has one at all times), keeps no backups that are redundant for this, and never deletes anything but backup directories. '
     'Repeated runs are stable, refused and dry runs change nothing, and a lost state file can be rebuilt exactly if backups were made in fixed intervals.',
     ['histories', 'inputs'],
     'all cycle specifications and backup/expire histories incl. gaps, lost state files, dry runs',
     'There is no runnable test for the script.',
     ['contrib/expire_backups.py'],
     [('generation simulation', 'contrib/expire_backups.py')],
     ['remaining directories'])
prop('C20', 'Credentials and options come from exactly the matching sections',
     'For every authentication file and storage URL, each setting is taken from the last section whose URL prefix matches, settings of non-matching sections are never used, and command line values take precedence. '
     'Files readable by others are refused, malformed files, unknown keys, backend options and compression specifications are rejected with the documented exit status, and nothing is silently ignored.',
     ['inputs', 'configurations'],
     'all files, URLs, option strings and compression specifications',
     'A few fixed files.',
     ['authinfo.py', 'parse_args.py', 'backends/__init__.py', 'mount.py'],
     [('Authinfo.from_file', 'authinfo.py'), ('parse_suboptions', 'parse_args.py')],
     ['effective settings'])
prop('C21', 'Temporary failures are retried with bounded back-off, others surface at once',
     'For every sequence of outcomes of a retried operation, failures classified as temporary are retried, with exponentially growing delays up to the documented maximum or the delay the server asks for, until success or the overall time limit; the first result or permanent error is delivered unchanged and nothing is executed again after it. '
     'Every upload retry starts from the beginning of the data and every download retry leaves exactly one copy of the data.',
     ['fault_sequences', 'inputs'],
     'all outcome sequences, retry-after values, payload sizes and failure offsets',
     'Fixed sequences of at most three failures.',
     ['backends/common.py'],
     [('retry decorator', 'backends/common.py'), ('payload rewind', 'backends/common.py')],
     ['calls made, virtual clock'])
prop('C22', 'Passphrase changes and key recovery never lose access to data',
     'After every sequence of passphrase changes, failed or interrupted attempts, key backups damage and master-key recoveries, the file system opens with the passphrase that was set last (or the previous one if the change was interrupted), with no other passphrase, and all data reads back unchanged. '
     'Stored data is not re-encrypted, so the master key printed at creation always recovers access.',
     ['histories', 'fault_sequences', 'inputs'],
     'all sequences of changes/recoveries, all passphrases, interruption points',
     'One change and one recovery with fixed passphrases.',
     ['adm.py', 'mkfs.py', 'backends/comprenc.py', 'backends/__init__.py'],
     [('key slots', 'adm.py change_passphrase/recover')],
     ['open with each candidate passphrase'])
prop('C23', 'Reported statistics match the file system contents',
     'At every quiescent point (all data uploaded, no call in progress) s3qlstat reports the true number of inodes, directory entries and stored data objects, the total, de-duplicated and compressed data sizes, and the number and size of cached and dirty blocks; inodes, entries, total size and cache figures are right at any time between calls. '
     'Per-file block counts follow from the file size. statfs reports the inodes and bytes in use (at most 30 seconds old) with consistent, positive free figures and the maximum length of names. The command line tool prints the figures it receives.',
     ['histories'],
     'all histories of file system calls and syncs',
     'Tests check one file.',
     ['fs.py', 'statfs.py', 'database.py', 'block_cache.py'],
     [('extstat / statfs', 'fs.py'), ('get_usage', 'block_cache.py')],
     ['s3qlstat record, statfs'])
prop('C24', 'The local cache respects its limits and is reused only when valid',
     'After each call the number and total size of cached blocks exceed the configured limits by at most the block that was accessed last (one per client when several work at once), and the reported size equals the true size of the cache files. '
     'Blocks are removed from the cache only when a limit is reached, least recently used blocks first and no more than needed; dirty blocks are uploaded before they are dropped, and the cache is empty after dropping it. '
     'A cache kept across unmount is used (without fetching again) only for blocks that are still current. Incomplete or failing writes to cache files never silently corrupt data.',
     ['histories', 'configurations'],
     'all limits, access sequences, remounts with kept, stale, foreign or partially deleted cache directories',
     'Two expiry tests with fixed sizes.',
     ['block_cache.py', 'mount.py', '_linked_dict.py'],
     [('expire', 'block_cache.py'), ('load/keep cache', 'block_cache.py')],
     ['cache directory, reported usage'])

prop('C25', 'An upgrade keeps the file system and can be resumed after any interruption',
     'For every cleanly unmounted file system of the previous revision, the upgrade command gives a file system of the current revision with exactly the same files, contents, label and block size, which older versions refuse to use. '
     'If it is interrupted at any instant, running it again completes the upgrade (also when the file system has been used in between, once it can be), and nothing is lost. '
     'File systems that cannot be upgraded (not cleanly unmounted, outdated or missing local metadata, too old, or not confirmed) are refused with the documented status and left unchanged, and a second upgrade changes nothing.',
     ['crash_points', 'inputs', 'configurations'],
     'all file systems, interruption points, uses in between, refusal reasons',
     'The upgrade test needs an installation of the previous version and is skipped.',
     ['adm.py', 'database.py'],
     [('upgrade', 'adm.py')],
     ['remote and local parameters, file system tree'])

prop('C26', 'The storage format stays that of file system revision 26',
     'Every object and every cleanly unmounted file system that is written can be decoded exactly (contents, metadata, attributes, encryption and integrity codes, parameters) by an independent implementation of the revision 26 format. '
     'Everything that another release stores in that format is read back identically, passes fsck and verification, and keeps its contents when it is used: all compression algorithms, encrypted or not, very old objects with a payload offset or without recorded size, any numbering of objects, inodes and metadata versions.',
     ['inputs', 'histories', 'configurations'],
     'all contents, settings, file system trees and numberings',
     'The tests read only what the same code has written.',
     ['backends/comprenc.py', 'backends/local.py', 'common.py', 'database.py', 'mkfs.py'],
     [('object format', 'backends/comprenc.py'), ('metadata', 'database.py')],
     ['stored objects', 'contents read from foreign objects'])

prop('C27', 'Unmounting waits until all data is stored, and parallel copying is complete',
     'umount.s3ql returns success only after the mount process has stored everything and ended, however long that takes and whatever the state of the mount (lazily, already being unmounted, busy, not an S3QL mountpoint); otherwise it reports the documented failure and the file system stays mounted and usable. '
     'pcp.py gives the same destination as a single recursive rsync run for all source trees, numbers of processes and options, and reports failures.',
     ['inputs', 'schedules', 'fault_sequences'],
     'all mount states, process lifetimes, failures of system commands; source trees',
     'The tests unmount idle file systems only; pcp.py is tested with one tree.',
     ['umount.py', 'contrib/pcp.py'],
     [('umount', 'umount.py'), ('pcp', 'contrib/pcp.py')],
     ['exit status, order of events, destination tree'])

prop('C28', 'What has been idle for the documented time survives the loss of the computer',
     'While a file system is mounted, every block that has not been accessed for the upload delay (plus the time to notice and transfer it) is stored in the backend. '
     'Every file and directory that has not been changed for the metadata backup interval plus the upload delay is restored exactly (contents, size, attributes, extended attributes) from the backend alone after the total loss of the computer and its cache, '
     'at any instant, also while other files are being changed (if metadata was just being uploaded, by restoring the latest complete backup).',
     ['histories', 'crash_points', 'schedules'],
     'all histories of operations and pauses, upload delays, backup intervals and instants of the loss',
     'The background tasks are only tested with one file and for the mere existence of an upload.',
     ['mount.py', 'block_cache.py', 'database.py', 'fs.py'],
     [('CommitTask / MetadataUploadTask', 'mount.py'), ('upload_if_dirty', 'block_cache.py')],
     ['backend contents, tree restored elsewhere'])

prop('C29', 'An internal failure ends the mount, but nothing written before is lost',
     'When mount.s3ql cannot go on (a request fails unexpectedly, the disk of the cache is full, too many open files, the backend rejects an upload, download or removal for good) or receives a termination signal, it always terminates with a non-zero exit status '
     'whatever other requests and uploads are in progress, and the next file system check succeeds and restores every file with exactly what had been written (at most calls that had not returned may be missing or incomplete). After SIGINT it unmounts cleanly and no check is required.',
     ['histories', 'schedules', 'fault_sequences'],
     'all concurrent histories of calls, kinds of failure and instants',
     'The tests do not cover failing handlers with concurrent requests at all.',
     ['mount.py', 'block_cache.py', 'multi_lock.py', 'fs.py', 'fsck.py'],
     [('upload_if_dirty / _do_upload / destroy', 'block_cache.py'), ('release', 'multi_lock.py'), ('main_async', 'mount.py')],
     ['exit status, termination, contents after the check'])

prop('C30', 'With TLS nothing is sent to a server that does not prove its identity',
     'Unless no-ssl is given (or the server itself hands out an unencrypted address), the network backends talk to every host (authentication, storage, upload and download hosts, after redirects, directly or through a proxy) only with TLS 1.2 or newer, and send no part of a request unless the host presents a certificate for its name that is valid now, intended for servers and has a complete chain to one of the trusted authorities: exactly those in ssl-ca-path (file or directory) if given, otherwise those of the default store. With such certificates everything works.',
     ['inputs', 'configurations'],
     'all backends, certificates, chains, certificate stores, protocol versions, with and without a proxy',
     'The tests connect to one server with one valid certificate.',
     ['http.py', 'backends/common.py', 'backends/s3c.py', 'backends/s3.py', 'backends/gs.py', 'backends/swift.py', 'backends/swiftks.py'],
     [('get_ssl_context', 'backends/common.py'), ('connect / _tunnel', 'http.py')],
     ['bytes received by the servers'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as fh:
    for p in P:
        fh.write(json.dumps(p) + '\n')
