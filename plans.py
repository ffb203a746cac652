"""Which profiles decide which property, and how much of each."""
REAL = ['bversion/* and cli_tools/* from /repo (executed unmodified)', 'CPython io buffering, json, hashlib', 'SQLite library', 'libsodium signatures and secretbox', 'file contents on a real (tmpfs) file system']
STUB = ['thread scheduler', 'clock and timers', 'TCP sockets', 'process lifetime (kill, Ctrl-C)', 'file timestamps, directory order, flock', 'disk error injection', 'random bytes', 'terminal input',
        'Argon2 password hashing (fast stand-in)', 'S3 service (in-memory object store) where used']
ASSUME = ['context switches happen at intercepted operations (file system, database, network, locks, clock), not between two bytecodes of pure computation',
          'a killed process keeps everything it had already handed to the operating system (power loss is P20 only)']
SRV_RULE = ('Random server histories: 2-4 protocol-level clients with random commit attempts, reads and intrusions against 1-2 real server processes and 1-2 repositories, '
            'with random scheduling, server crashes, disk and database errors, connection resets/blackholes, partial sends. Non-trivial = at least one commit was acknowledged.')
AUTH_RULE = ('Random credential histories: 1-3 clients on two addresses using, mixing up, racing and letting expire challenges and sessions for two repositories on 1-2 real server processes, '
             'with permission changes, restarts, crashes, disk errors and connection resets. Non-trivial = at least one session was granted.')
CLI_RULE = ('Random working-copy histories: 1-3 working copies driven by the real bvn commands (checkout, commit, update [-f], status, revert, pull-ignore, listings, two at a time) against a real server process, '
            'with user edits before and during commands, answers and hand-edited conflict files, server crashes, client kills, Ctrl-C, disk and database errors, connection resets/blackholes; judged by a reference model of '
            'what the user may expect, then faults stop and everything has to converge. Non-trivial = a commit, a conflict, a revert or a filter took effect.')
JFS_RULE = ('Random transactions of 1-8 journalled changes (put, move, delete, overwrites, nested directories) in a working copy, killed or failed at a random operation, recovered by a new process which may be killed or fail as well. '
            'Non-trivial = at least one change had been applied when the transaction was interrupted.')
BACKUP_RULE = ('Random histories of commits, backups and restores between a server and an in-memory S3 service with versioned buckets: kills, disk errors and failing or truncated transfers during backup and restore, damaged, exchanged or deleted '
               'remote objects, listings in pages. Non-trivial = at least one backup completed.')
POWER_RULE = ('Random server histories with power failures: every server process dies at a random operation, then names and contents which were not forced to stable storage are lost, cut or zeroed under one of two file system models; '
              'users resume or restart what was interrupted. Non-trivial = the power failed at least once.')
WIRE_RULE = ('Random exchanges between the real HTTP client and the real HTTP server, 1-4 connections with bodies of 0 to 2000003 bytes read in different ways, files changing while they are sent, awkward header values, and peers which send nonsense, '
             'break off or fall silent; network resets, losses, delays, partial sends, short receives, server crashes. Non-trivial = at least one request was answered.')
Q = (3000, 70)
QC = (3600, 80)
T = (60000, 1500)


def P(rule, *profiles, quick=Q, thorough=T, level='exploration', **kw): return dict(level=level, quick=quick, thorough=thorough, rule=rule, profiles=list(profiles), **kw)


PROPS = {
    'P01': P(SRV_RULE, ('srv', 2, {}), ('srv', 1, {'p_readers': 1, 'p_one_server': 0.5})),
    'P02': P(SRV_RULE, ('srv', 5, {'p_faulty': 0.9, 'p_deep': 0.2}), ('cli', 1, {})),
    'P03': P(SRV_RULE, ('srv', 1, {'p_one_server': 0.4, 'p_lag': 0.35, 'p_hold': 0.3})),
    'P04': P(CLI_RULE + ' One run in eight is a server history: ' + SRV_RULE, ('cli', 5, {'focus': 'commit'}), ('cli', 2, {}), ('srv', 1, {}), quick=QC),
    'P05': P(CLI_RULE + ' One run in seven is a server history with readers: ' + SRV_RULE, ('cli', 3, {'focus': 'update'}), ('cli', 1, {'focus': 'conflict'}), ('cli', 1, {'focus': 'filter'}), ('cli', 1, {}), ('srv', 1, {'p_readers': 1}), quick=QC),
    'P06': P(CLI_RULE, ('cli', 2, {'focus': 'update'}), ('cli', 3, {'focus': 'conflict'}), ('cli', 1, {'focus': 'commit'}), ('cli', 1, {}), quick=QC),
    'P07': P(CLI_RULE, ('cli', 4, {'focus': 'conflict'}), ('cli', 1, {'focus': 'crash'}), quick=QC),
    'P08': P(CLI_RULE, ('cli', 4, {'focus': 'crash'}), ('cli', 1, {'focus': 'update'}), ('cli', 1, {'focus': 'filter'}), ('cli', 1, {'focus': 'revert'}), quick=QC),
    'P17': P(CLI_RULE, ('cli', 5, {'focus': 'filter'}), ('cli', 1, {}), quick=QC),
    'P18': P(CLI_RULE, ('cli', 5, {'focus': 'revert'}), ('cli', 1, {}), quick=QC),
    'P10': P(SRV_RULE + ' One run in six is a working-copy history: ' + CLI_RULE + ' One in six: ' + WIRE_RULE, ('srv', 4, {}), ('cli', 1, {'focus': 'commit'}), ('wire', 1, {})),
    'P11': P(AUTH_RULE + ' One run in six is a server history: ' + SRV_RULE, ('auth', 5, {}), ('srv', 1, {}), quick=(4000, 45), thorough=(150000, 1500)),
    'P12': P(SRV_RULE, ('srv', 1, {'no': ['err'], 'p_faulty': 0.7})),
    'P13': P(SRV_RULE + ' One run in three: ' + WIRE_RULE + ' One run in three: ' + CLI_RULE, ('wire', 1, {}), ('srv', 1, {}), ('cli', 1, {'focus': 'commit'})),
    'P15': P(SRV_RULE + ' Operators run bvn_repo gc meanwhile (and after damage, and last with everything idle).', ('srv', 1, {'tools': ['gc', 'gc', 'gc', 'verify'], 'damage': ['gc'], 'p_faulty': 0.9, 'p_deep': 0.25})),
    'P16': P(SRV_RULE + ' Operators run bvn_repo verify meanwhile, and at the end over repositories damaged in one place.', ('srv', 2, {'tools': ['verify', 'verify'], 'damage': ['verify'], 'p_deep': 0.35}), ('srv', 1, {'tools': ['verify', 'verify', 'gc'], 'damage': ['verify'], 'p_deep': 0.35})),
    'P09': P(JFS_RULE, ('jfs', 1, {}), quick=(30000, 70), thorough=(300000, 1500)),
    'P14': P(BACKUP_RULE, ('backup', 1, {})),
    'P20': P(POWER_RULE, ('power', 1, {})),
    'P19': P(SRV_RULE, ('srv', 1, {'repos': 2, 'probe': 0.87})),
}
# properties not claimed (yet), with the reason
NOT_APPLICABLE = {
    'P21': 'a pure function of key and password (libsodium secretbox under Argon2): no scheduling, time, I/O or fault for the answer to depend on, so simulation has nothing to decide',
    'P22': 'TLS is the ssl module working on a kernel socket outside any seam the simulator can own; simulating it would replace exactly the code the property is about (and ssl.wrap_socket, which the code calls, no longer exists in this Python)',
}
for p in ('P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P14', 'P15', 'P16', 'P17', 'P18', 'P20'):
    if p not in PROPS: NOT_APPLICABLE[p] = 'check not built yet'
