#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements stay readable)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    P.append(d)

SRV = 'bversion/server.py'; VS = 'bversion/storage/versioned_storage.py'; SDB = 'bversion/storage/server_db.py'
CLI = 'bversion/client.py'; JFS = 'bversion/storage/journaling_filesystem.py'; CFI = 'bversion/storage/client_filesystem_interface.py'
CDB = 'bversion/storage/client_db.py'; HS = 'bversion/http/http_server.py'; HC = 'bversion/http/http_client.py'
HCR = 'bversion/http/client_http_request.py'; HCO = 'bversion/http/http_common.py'; RM = 'bversion/repo_manager.py'
S3 = 'bversion/backup/s3_interface.py'; BC = 'bversion/backup/crypto.py'; MRG = 'bversion/merge_client_and_server_changes.py'
COM = 'bversion/common.py'

prop('P01', 'Commits are all-or-nothing and readers see only finished commits',
 'At every instant, including after the server, a client or a connection dies at any point of a commit, the current revision of a repository is a completed commit of which the complete file tree and every file content can be read. A commit becomes visible all at once or not at all, with nothing from unfinished or abandoned attempts in it. Reads made while a commit is in progress see only completed revisions, consistently within one revision.',
 ['crash_points','schedules','fault_sequences','histories'],
 'every server crash point (each file-system, database and network operation), every interleaving of connections, every sequence of commit attempts, aborts, resumes and I/O errors',
 'The suite runs one client at a time in-process, never kills the server and injects no I/O error, so none of the intermediate states exists in it.',
 [VS, SDB, SRV],
 [('new objects are written before the head pointer, which is replaced by rename', VS+' commit'), ('unfinished commit state lives in the transient database until head moves', SDB)],
 [('head','hash of the current revision','<repo>/head'),('index objects','commits and trees by hash','<repo>/index'),('file objects','contents by hash','<repo>/files')],
 ['list_versions / list_files / list_changes / pull_file responses', 'repository directory after each operation'])

prop('P02', 'An acknowledged commit is permanent',
 'Once a client has been told that its commit succeeded, that revision with its author, message, change list and every file in it, and all revisions before it, stay in the history and can be read back byte for byte from then on, whatever crashes, restarts, failed, aborted or resumed commits and other clients\' commits follow. History only ever grows by appending to the current revision.',
 ['histories','crash_points','fault_sequences'],
 'every later history of commits, aborts, rollbacks of interrupted commits, server crashes (including repeated ones) and I/O errors',
 'Tests check one rollback on a healthy server; losing an old object needs a particular crash followed by a particular recovery.',
 [VS, SDB, SRV],
 [('rollback deletes only objects logged as new in the unfinished commit, and nothing if that commit became head', VS+' rollback'), ('objects are content-addressed and never rewritten', VS+' write_index_object, fs_put_from_file')],
 [('gc_log','objects first stored by the commit in progress', SDB)],
 ['history and file reads over the HTTP API', 'object store contents'])

prop('P03', 'Commits are serialised and only accepted from the current revision',
 'For one repository at most one connection can be between a successful begin of a commit and its end, even when several server processes share the repository. A commit is accepted only if the client\'s base revision is the current head, so the parent of every revision is exactly the revision its author had, and of two concurrent commits from the same base at most one succeeds. A connection that does not hold the lock of a repository can neither upload to, delete from, finish nor abort a commit in that repository.',
 ['schedules','histories'],
 'every interleaving of any number of connections, users and server processes',
 'The test suite never has two connections open at the same time.',
 [SRV, VS, HS],
 [('exclusive flock per repository taken in begin_commit, released at commit/abort/disconnect', VS+' lock/unlock, '+SRV+' begin_commit'), ('base revision compared with head under the lock', SRV+' begin_commit')],
 [('context.lock','this connection is inside a commit', HS+' ConnectionContext')],
 ['begin_commit/push_file/delete_files/commit responses', 'parent links of the revision chain'])

prop('P04', 'A successful commit publishes exactly the working copy\'s changes',
 'When commit reports success, the new revision\'s file tree is the previous revision with exactly the client\'s additions, modifications and deletions (ignored files aside) applied, so it equals the working copy, and the change list recorded with it is exactly that difference. This also holds when an earlier attempt was interrupted at any point and files were edited, deleted or restored before the commit was retried, and when another working copy of the same user retries. A file modified while commit is running is afterwards either published in its present state or still reported as locally changed (what was read while the file was being written may be recorded, as long as it stays reported). Names with line breaks, and a tree in which one name is both a file and a directory, are outside this.',
 ['histories','crash_points','inputs','schedules'],
 'every sequence of edits, interruptions (client, server or connection) and retries; every file name a POSIX client may have except names containing carriage returns or not valid UTF-8',
 'One resume case with unchanged files is tested; edits between the interrupted attempt and the retry, deletions on resume and concurrent edits are not.',
 [CLI, SRV, SDB, VS, COM],
 [('change detection by manifest comparison', CLI+' find_local_changes'), ('partial uploads are offered on resume and matched by hash', SRV+' begin_commit, '+CLI+' commit'), ('manifest updated from the acknowledged changes', CLI+' commit')],
 [('manifest','last known server state of each local file', CDB)],
 ['committed tree and change list versus working copy', 'bvn status after commit'])

prop('P05', 'A completed update brings the working copy to the head revision',
 'After update completes, every file that is not locally modified and not excluded by a filter has exactly the content it has in the revision the update reports, and files deleted in it are gone; an update that failed or was interrupted is completed by running it again, and an update that could not fetch every file does not claim to have reached the revision. When nobody edits any more, updating and committing in each working copy makes all of them identical to the server\'s head.',
 ['histories','fault_sequences','inputs'],
 'every history of commits by other clients (including file/directory replacements, re-adds and reverts of content), every interruption or error of previous updates',
 'Tests use a flat handful of files, one interruption point and two clients.',
 [CLI, MRG, SRV, VS],
 [('three-way comparison of server changes since the base revision with local changes', MRG), ('changes since a revision are folded oldest to newest', VS+' get_changes_since'), ('revision advanced only at the end of update', CLI+' update')],
 [('have_revision','base revision of the working copy', CDB)],
 ['working copy contents versus revision tree'])

prop('P06', 'Local work is never lost or overridden without the user\'s say',
 'No update, commit, status or listing command changes or removes content that the user added or modified in the working copy (ignored files aside) and that is not committed, unless the user resolved that path\'s conflict in the server\'s favour; nor does it bring back a file the user deleted. A path changed both locally and on the server since the working copy\'s base revision is always reported as a conflict before anything is done to it, and a path changed on only one side never is. A commit from a working copy that is not at the head revision is refused and changes nothing.',
 ['histories','schedules','fault_sequences'],
 'every history of concurrent edits in several working copies, commits, updates, crashes of client and server and lost replies',
 'Conflicts are tested in one arrangement of four files, always from a clean state.',
 [CLI, MRG, SRV],
 [('classification of every status pair', MRG), ('refusal of a commit whose base is not head', SRV+' begin_commit')],
 None, ['working copy before and after each command', 'conflict prompt and conflict resolution file'])

prop('P07', 'Conflict resolutions are carried out as chosen',
 'For every conflicting path, choosing the server leaves exactly the server\'s version (or its absence) in the working copy, and choosing the client leaves the local version (or its absence) there and makes the next commit publish it; a manual resolution file is applied per path. An unresolved, incomplete or wrong resolution file makes update refuse and change nothing in the tracked files. Once an update has completed, the conflicts it settled are not reported again and its answers are not applied to later conflicts; an interrupted update is completed by running it again.',
 ['histories','inputs','crash_points'],
 'every combination of conflict kinds (changed, new, deleted on either side, equal content, content changed and changed back) with every choice, and every interruption',
 'Only one fixed set of four conflicts, with three fixed choices, is tested, without interruptions.',
 [CLI, MRG],
 [('resolution by prompt or by .bvn/conflict_resolution', CLI+' resolve_update_conflicts'), ('update applies the resolved lists, then drops the resolution file', CLI+' update')],
 None, ['working copy after update, revision after the next commit'])

prop('P08', 'A killed or failing client command leaves a sound working copy',
 'If a client command is killed at any point or stops because of a disk, database or network error, then once the next command has run every file in the working copy is either entirely its old or entirely its new version, never partial, mixed or missing; files the user did not touch are not reported as local changes by later commands, and repeating the command completes it (a checkout that had not yet written its configuration is started over). No command writes or deletes anything outside its working copy. Edits a user makes to the very files of an interrupted transaction before the next command has recovered them are outside this. A command does not run while another one is running in the same working copy.',
 ['crash_points','fault_sequences','schedules'],
 'every operation of every client command as crash, interrupt or error point, repeatedly, with any later sequence of commands and edits',
 'One simulated failure after the second pulled file is all that is tested; no file-system error, no crash inside a file replacement.',
 [CLI, CFI, JFS, CDB],
 [('file replacement and manifest change in one journalled transaction', CFI+' fs_put, fs_delete'), ('leftover journals are rolled back', JFS+' begin'), ('lock file per working copy', CLI+' init')],
 [('journal','undo records of the running transaction', CDB+' journal table')],
 ['working copy contents, bvn status, next update'])

prop('P09', 'Journalled file transactions are atomic',
 'Any sequence of file writes, moves and deletions performed in one journalled transaction is all-or-nothing: if the process dies or an error occurs at any point before the transaction commits, including repeatedly during rollback, then after recovery every file in the data directory has exactly its content and modification time from before the transaction; if it committed, all changes are present. No data of any other file is touched, and leftovers of earlier transactions are never mistaken for data of a later one.',
 ['crash_points','inputs','fault_sequences'],
 'every program of put/move/delete operations over existing and new paths, every crash point and I/O error, including crashes during recovery and several transactions in a row',
 'Five rollback tests on an undisturbed process; none crashes, none rolls back in a new process, none checks the contents restored.',
 [JFS, CFI, CDB],
 [('undo record committed before each action', JFS+' do_action'), ('reverse replay, each record removed when done', JFS+' rollback'), ('clearing the journal is the commit point', JFS+' commit')],
 [('journal','undo records', CDB), ('tmp dir','saved originals','.bvn/tmp')],
 ['data directory contents after recovery'])

prop('P10', 'The commit lock is always released and committing stays possible',
 'Whatever happened before (clients or connections dying at any byte of a request, servers crashing, stalled peers, aborted or half-finished commits, disk errors), once faults stop and broken connections have had their timeout, a user who updates and commits succeeds within a few attempts. A connection that ends, for whatever reason, no longer holds the commit lock and its server-side handler terminates.',
 ['fault_sequences','schedules','crash_points'],
 'every fault history followed by a fault-free period',
 'Tests release the lock by hand; there is no real connection, timeout or crash in them.',
 [HS, SRV, VS, SDB, CLI],
 [('shutdown handler releases the lock when the connection ends', HS+' handle_connection'), ('socket timeout', HS), ('leftover active commit is resumed or rolled back at the next begin', SRV+' begin_commit')],
 None, ['result of begin_commit / bvn commit after faults stop'])

prop('P11', 'Only authorised users act, and credentials expire as stated',
 'A session is granted only for a signature, by the named user\'s registered key, of a challenge the server issued for that repository to that address less than 30 seconds ago and that has not been used before, and only if the user may use that repository; one challenge yields at most one session even under concurrent attempts. A session is accepted only from the address it was issued to, for that repository, while the user still has permission, and within two hours of its last use (longer only for the session whose commit is in progress); every other request is refused, discloses nothing and changes nothing. A valid session or signature within these limits is not refused.',
 ['schedules','histories','inputs'],
 'every interleaving of authentication requests, every clock advance, replay, mixture of tokens, users, addresses and repositories, restarts and permission changes',
 'Only successful authentication by one user is exercised by the tests.',
 [SRV, SDB],
 [('one-time tokens and session tokens with expiry and address', SDB), ('permission and signature checks', SRV+' authenticate, have_authenticated_user')],
 [('tokens, session_tokens','issued credentials', SDB)],
 ['responses of every endpoint'])

prop('P12', 'Abandoned commits leave nothing behind; contents are stored once',
 'When a commit is aborted, or an interrupted one is discarded in favour of another commit, the stored objects are exactly those that were there before it began, whatever the server was killed in the middle of; objects that existing revisions use are never removed by this. After any history each distinct file content is stored exactly once under its own digest, and a successful uninterrupted commit that sends each path once adds only objects the new revision uses.',
 ['histories','crash_points'],
 'every sequence of uploads (with duplicate and previously known contents), deletions, aborts, server crashes and recoveries',
 'One rollback with two files is tested.',
 [VS, SDB, SRV],
 [('log of newly stored objects', SDB+' gc_log_item'), ('rollback', VS+' rollback'), ('content addressing', VS+' fs_put_from_file')],
 None, ['object store listing'])

prop('P13', 'Requests and replies cross the connection exactly or not at all',
 'Over one connection each request is delivered to the server exactly as sent and each reply to the client exactly as produced, in order, however the network splits, delays or partially accepts the bytes and whatever the sizes are; a body cut short by a broken connection is never taken for complete and a file upload cut short is never stored. When the peer closes or resets the connection both sides notice and stop; a peer which silently vanished is dropped by the server within its timeout; one broken, stalled or malformed connection does not affect others or the server.',
 ['fault_sequences','schedules','inputs'],
 'every segmentation, short read and short write, every disconnect point, every body size and header value without carriage returns',
 'The tests replace the whole HTTP layer with a mock.',
 [HS, HC, HCR, HCO],
 [('length-delimited bodies', HCO+' read_body'), ('request loop per connection', HS+' handle_connection'), ('response parsing', HC)],
 None, ['handler inputs and client outputs'])

prop('P14', 'A finished backup restores the repository exactly',
 'After a backup run completes, a restore into an empty place yields the same head and history with every object byte for byte, however often earlier backup or restore runs were interrupted or failed, and with commits made between or during runs (runs which overlap each other are outside this, and the bucket keeps versions). A commit marked as backed up on the remote has all its objects there, and an interrupted restore or an incomplete remote never produces a repository that passes for complete. Nothing but ciphertext and hashed names of contents is sent to the remote.',
 ['fault_sequences','histories','schedules'],
 'every point of failure of remote operations and of the process, every repository history, listing page boundaries, file sizes around the chunk size including empty files',
 'Backup and restore have no tests.',
 [RM, S3, BC, 'bversion/backup/pipeline.py', 'bversion/backup/pipeline_common.py'],
 [('per-commit marker written last', RM+' backup'), ('objects already on the remote are skipped', RM+' backup'), ('multipart upload completed at the end', S3+' streaming_upload'), ('authenticated stream encryption', BC)],
 None, ['remote bucket contents, restored directory'])

prop('P15', 'Garbage collection removes only what nothing needs',
 'Garbage collection never removes or alters an object that any revision, or an unfinished commit that can still be resumed, needs, whatever runs at the same time or was interrupted before, and it can itself be interrupted anywhere and repeated. It runs only while no commit is in progress, refuses a repository which has objects but no head, and after it completes no unneeded object is left and committing is possible again.',
 ['histories','schedules','crash_points'],
 'every history of commits, aborted and interrupted commits, concurrent clients and crashes before and during collection',
 'Garbage collection has no tests.',
 [VS, RM],
 [('mark from head over commits and trees, sweep the rest', VS+' garbage_collect'), ('commit lock held while collecting', VS+' garbage_collect')],
 None, ['object store listing before and after bvn_repo gc'])

prop('P16', 'Verification detects damage and raises no false alarm',
 'Verification never reports a repository as sound when an object that some revision needs is missing, or when any stored object\'s bytes have changed in any way; it reports a repository with an undamaged history as sound, also after any number of crashes and aborted commits on a repository that has at least one revision. It changes nothing.',
 ['fault_sequences','histories'],
 'every stored byte or object as the place of damage (flips, truncation, extension, removal, swapped objects), on any repository history',
 'Verification has no tests.',
 [VS, RM],
 [('reachability from head and rehash of every object', VS+' verify_fs')],
 None, ['output of bvn_repo verify'])

prop('P17', 'Filters keep files out of commits and working copies, never off the server',
 'A file matching an ignore filter is never uploaded, and a file matching a pull-ignore filter is never downloaded by update, while everything else is. Pull-ignoring files, by command or by editing the filter file, whatever is interrupted, never makes a commit delete or alter them on the server; after the filter is removed a full update brings back exactly the ones which are no longer in the working copy or are unmodified there.',
 ['histories','crash_points','inputs'],
 'every filter, moment of adding or removing it, answer to the prompts, and interruption point',
 'One filter of each kind is tested on one new file.',
 [CLI, COM],
 [('filters applied to local scan and to pulled files', CLI+' init, find_local_changes, update'), ('pull-ignore command', CLI+' pull_ignore')],
 None, ['committed trees and working copies'])

prop('P18', 'Revert restores exactly the requested files',
 'A confirmed revert gives every file matching its arguments exactly the content it has in the selected revision, whether the file was modified or deleted locally, and touches no other file; reverting to the working copy\'s own revision leaves those files unmodified in the eyes of status, reverting to another revision leaves them as changes to commit. If it is interrupted or fails, no file is left partially written and repeating it completes it; a declined revert changes nothing.',
 ['histories','fault_sequences','inputs'],
 'every revision, path selection and local state, every interruption point',
 'Revert has no tests.',
 [CLI, CFI],
 [('file list of the revision filtered by arguments, each file fetched and journalled in', CLI+' revert')],
 None, ['working copy before and after'])

prop('P19', 'Repositories on one server do not affect each other',
 'Operations, sessions, locks, unfinished commits, crashes and aborts in one repository never change, block or become visible in another repository of the same server, even when one connection or one user works with both, and whatever object names, revisions or paths a request carries, nothing outside the directories of the repositories is read out or written.',
 ['schedules','histories'],
 'every interleaving of requests to several repositories over the same and different connections',
 'All tests use a single repository.',
 [SRV, SDB, VS, HS],
 [('per-repository directories and transient databases', SRV), ('per-thread database handle keyed by path', SDB+' get_server_db_instance_for_thread')],
 None, ['state of each repository versus its own history'])

prop('P20', 'Committed revisions survive a power failure',
 'If the machine the server runs on loses power at any moment, so that anything not yet forced to stable storage may be lost or torn, the repository is afterwards at a completed revision that is complete and readable, and every commit acknowledged before the failure is in it; users can go on committing, also by resuming what the failure interrupted. (The transient SQLite database is taken to be durable at its own commits.)',
 ['crash_points','fault_sequences'],
 'every moment of power loss, every subset of unforced writes allowed by a journalling file system',
 'Tests cannot cut power; nothing in them distinguishes forced from unforced writes.',
 [VS, COM, SRV],
 [('write then rename of objects and head', VS+' write_index_object, commit')],
 None, ['repository after simulated power loss'])

prop('P21', 'A password-protected private key opens only with its password',
 'A private key generated under a password is recovered exactly with that password and with no other.',
 ['inputs'], 'every key and password',
 'Only that unlocking does not throw is tested.',
 ['bversion/crypto.py'], [('argon2 and secretbox', 'bversion/crypto.py')])

prop('P22', 'TLS connections authenticate the server',
 'A client connecting to an https address exchanges data only over TLS with the named server.',
 ['configurations'], 'every server address and certificate',
 'No test opens a connection.',
 [HC], [('socket wrapping', HC+' connect')])

with open('/verif/properties.jsonl', 'w') as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
