RT = 'runtime monitoring: '
PROPS = []
NA = {}
def P(id, title, st, over, q, why, files, mech, tech, note, level='exploration'):
    PROPS.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files,
                      mech=mech, tech=RT + tech, note=note, level=level))

P('P01', 'Session handshake authenticates exactly the peers that completed it',
  'When a session handshake succeeds on a side, the peer that side reports is the party that really holds that identity\'s private keys and took part in this very handshake, and both sides end up able to exchange messages. An initiator never completes against a responder other than the one it asked for, and a handshake in which any byte was altered, replayed, truncated or taken from another handshake fails with an error on at least the side that received it, never with a panic. No key material of one handshake is of use in another one.',
  ['inputs', 'histories'], 'every byte of every handshake message, every kind of impostor and replay, both roles',
  'kx_test runs two honest peers once; it sends no altered, replayed or forged message and never checks who was authenticated.',
  ['session/kx.go', 'zkidentity/zkidentity.go', 'doc/session.txt'],
  [('Initiate/Respond', 'session/kx.go'), ('identity encryption and transcript proof', 'session/kx.go')],
  'hostile man-in-the-middle and an independent reference peer against the real handshake, oracle on the authenticated identity',
  'Every class of alteration at many byte positions, both roles, against real and independently written peers; sampled, not exhaustive over bytes.')
P('P02', 'Session channel delivers intact, in order, once, or fails',
  'After a handshake each side receives exactly the messages the other side sent, intact, in order and once, for any payload from empty to the announced maximum size and for arbitrarily many messages. A message that was altered, replayed, reordered, dropped, reflected, truncated or injected makes the receiving side report an error and is never delivered as data. A message larger than the maximum is refused by the sender without damaging the channel.',
  ['inputs', 'histories', 'fault_sequences'], 'all message sequences and sizes, all splits of the byte stream, all attacks on the stream',
  'The tests send a few messages over a clean pipe; they never cut, reorder, replay or resize frames.',
  ['session/kx.go'], [('Read/Write, sequence nonces', 'session/kx.go')],
  'an in-path monitor of the byte stream that mutates frames, oracle comparing delivered with sent',
  'Random schedules of messages, sizes, fragmentation and thirteen attacks; long channels cross the nonce byte carries.')
P('P03', 'Concurrent handshakes do not disturb each other',
  'Any number of handshakes running at the same time in one process, as initiator and as responder, each succeed and authenticate the right peers exactly as they would alone. There is no data race between them.',
  ['schedules'], 'all interleavings of handshakes in one process',
  'The tests run one handshake at a time.',
  ['session/kx.go'], [('Init, Initiate, Respond', 'session/kx.go')],
  'race detector plus per-handshake oracle under stalled and interleaved handshakes',
  'Handshakes are held at each message boundary so that they overlap; the race detector sees only executed schedules.')
P('P04', 'Ratchet messages decrypt exactly once, in any order, within the gap limit',
  'Whatever the order, loss, duplication and alteration of messages between two users, each message a user sent decrypts to exactly what was sent at most once, as long as it is not lost behind a gap larger than the documented limit. Replayed, altered, foreign or truncated messages are refused with an error, do not panic, and leave later genuine messages readable. Once a message has been decrypted, the receiver\'s state no longer contains what is needed to decrypt it.',
  ['inputs', 'histories'], 'all interleavings of sends, deliveries, losses, duplications and alterations in both directions',
  'ratchet_test walks a handful of scripted orders; hostile input, gap limits and interplay of many chains are not explored.',
  ['ratchet/ratchet.go', 'doc/ratchet.txt'],
  [('Encrypt/Decrypt', 'ratchet/ratchet.go'), ('saved keys for skipped messages', 'ratchet/ratchet.go')],
  'model-based monitor: an exact reference model of who sent what predicts every decryption result, over random hostile schedules',
  'Random schedules with an exact oracle; the reference accepts what the documented protocol must accept and nothing else.')
P('P05', 'Saved ratchets resume exactly where they were',
  'Saving a conversation\'s ratchet and restoring it, at any moment and any number of times, changes nothing: every message that could be read or sent before can be read or sent after, nothing that was refused becomes acceptable. Keys kept for late messages last at least as long as promised and are then dropped. Damaged saved state is refused or leads to errors, never to a panic.',
  ['histories', 'inputs', 'crash_points'], 'all moments at which a save/restore can happen, all damaged states',
  'The tests save and restore at a few fixed points with no skipped keys outstanding.',
  ['ratchet/ratchet.go', 'ratchet/disk/disk.go'], [('Marshal/Unmarshal', 'ratchet/ratchet.go'), ('disk.RatchetState', 'ratchet/disk')],
  'same reference model as P04 with save/restore inserted at random points and a controlled clock',
  'Random schedules; expiry is driven by rewriting the saved timestamps, not by waiting.')
P('P06', 'Ratchet key exchange sets up a conversation only between genuine peers',
  'Two users who complete the ratchet key exchange with each other\'s identities can exchange messages in both directions immediately. An exchange message that was altered, truncated, replayed from another exchange or made by someone else is refused or yields a ratchet with which no message passes, and never panics.',
  ['inputs', 'histories'], 'all alterations and substitutions of exchange messages',
  'The tests complete one honest exchange and a couple of refusals.',
  ['ratchet/ratchet.go'], [('FillKeyExchange/CompleteKeyExchange', 'ratchet/ratchet.go')],
  'hostile input generation against the real exchange, with message exchange as the oracle',
  'Sampled alterations of every field.')
P('P07', 'Sealed blobs open only with the right key and are never silently wrong',
  'Data sealed under a password opens to exactly that data with that password and salt, for any data and any password. With any other password, key, nonce or salt, or if any bit of the sealed data changed or bytes were added or removed, opening fails; short or malformed packed input is refused with an error rather than a panic. Every seal uses a fresh nonce and every new key a fresh salt, also under concurrent use.',
  ['inputs', 'schedules'], 'all data, passwords and single-bit changes; concurrent use',
  'blobshare_test seals one blob.',
  ['blobshare/blobshare.go'], [('NewKey/DeriveKey', 'blobshare/blobshare.go'), ('Pack/Unpack helpers', 'blobshare/blobshare.go')],
  'property monitor over generated data with exhaustive single-bit changes on small blobs, race detector',
  'Passwords that HMAC itself identifies (trailing NULs, long-key hashing) are excluded from the wrong-password oracle.')
P('P08', 'Identities: only the key holder signs; altered public identities are refused',
  'A signature verifies exactly for the signer\'s identity and the signed message. A public identity that was altered in any field is refused when it is unmarshalled or verified, so a name, nick, key or identifier cannot be attached to another user\'s keys. Marshalling and unmarshalling identities loses nothing, and malformed input gives an error, never a panic.',
  ['inputs'], 'all identities, messages and alterations, including multi-field ones that recompute public checksums',
  'zkidentity_test checks a round trip and one bad signature.',
  ['zkidentity/zkidentity.go'], [('PublicIdentity.Verify, digest and signature', 'zkidentity/zkidentity.go')],
  'hostile mutation of marshalled identities field by field, oracle on acceptance',
  'An attacker may recompute digests but not sign; every field and many bit flips are tried.')
P('P09', 'Ini database returns what was stored and keeps the promised backups',
  'After any sequence of additions, replacements and deletions of tables and records that is saved, reopening the database yields exactly the saved records, no more and no less. Operations on tables or records that do not exist report so. Saving keeps at most the configured number of newest backups, each a complete earlier version, and never touches other files.',
  ['inputs', 'histories'], 'all operation sequences over the keys, values and tables the format can represent, any backup depth',
  'inidb_test runs one scripted sequence on a small database.',
  ['inidb/inidb.go'], [('New/Save/backup pruning', 'inidb/inidb.go')],
  'model-based monitor: random histories against an in-memory reference, with directory inspection',
  'Domain: strings the line format can represent; the database is used by one process.')
P('P10', 'A crash or disk error while saving never loses the ini database',
  'If the process dies or the disk refuses a write at any point of a save, the next open of the database yields either the complete state before or the complete state after that save. A save that could not be completed reports an error.',
  ['crash_points', 'fault_sequences'], 'every system call of a save as a crash point, every byte count at which the disk fills up',
  'No test injects a crash or a write error.',
  ['inidb/inidb.go'], [('Save: temporary file, backup, rename', 'inidb/inidb.go')],
  'crash-point enumeration: the saving process is killed at every file system call in turn and at write limits, recovery oracle on reopen',
  'Process crashes and write errors, not power loss (page cache survives).', 'fault_enumeration')
P('P11', 'Message tags in flight are unique and never lost',
  'The tag pool hands out each tag to at most one holder at a time, and every tag that was returned becomes available again, for any number of concurrent users and any size. A blocking pool makes the taker wait until a tag is returned and never loses a wakeup; a non-blocking pool reports exhaustion or overflow instead.',
  ['schedules', 'histories'], 'all interleavings of takers and returners',
  'tagstack_test is almost sequential.',
  ['tagstack/tagstack.go'], [('Push/Pop/Depth', 'tagstack/tagstack.go')],
  'race detector plus linearizability checking of recorded concurrent histories against a stack specification',
  'Histories recorded under stress, checked with porcupine.')
P('P12', 'Address book lookups agree and nicks stay unique',
  'At every moment each nick in the address book names exactly one identity, looking up by nick or by identity gives the same entries, and an identity that was removed is found by no lookup. Adding an identity whose nick is taken yields a different free nick and never replaces or hides the other entry. This holds under concurrent use.',
  ['histories', 'schedules'], 'all sequences of add, delete and lookup, also concurrent',
  'The addressbook package has a small scripted test at most.',
  ['zkclient/addressbook/addressbook.go'], [('Add/Del/Find', 'zkclient/addressbook/addressbook.go')],
  'model-based monitor over random histories, race detector for concurrent use',
  'Nicks drawn from a small colliding alphabet.')
P('P13', 'Mailbox hands every message to the recipient at least once, intact, in order',
  'Every message accepted for an account is handed to the account\'s owner when online, unaltered, with its true sender and kind, and messages of one sender arrive in the order they were accepted and with the time they were accepted at, whether that was while the owner was offline, online, or while going on- or offline, and whatever happens to the clock of the server. Mail that an older server version stored is handed out too. A message stays stored until it is acknowledged and is then never handed out again; messages handed out but not acknowledged are handed out again at the next login or server restart. Messages of one account never reach another.',
  ['schedules', 'histories'], 'all interleavings of deliveries, logins, logouts, acknowledgements and restarts',
  'account_test delivers a few messages sequentially.',
  ['zkserver/account/account.go'], [('Deliver/Online/Offline/Delete', 'zkserver/account/account.go')],
  'history monitor over concurrent workloads: conservation and per-sender order oracle, race detector',
  'Order is required per sender for messages accepted one after the other.')
P('P14', 'A message the server accepted survives a crash and is never damaged',
  'Once the server has accepted a message for a user, the message is delivered intact after the server was killed at any moment and restarted. A message whose acceptance was cut short by the crash is delivered either completely or not at all, and never keeps other messages from being delivered. A write error while accepting a message is reported and leaves nothing behind that is delivered.',
  ['crash_points', 'fault_sequences'], 'every file system call while accepting or removing a message',
  'No test kills the server.',
  ['zkserver/account/account.go', 'zkserver/zkserver.go'], [('Deliver', 'zkserver/account/account.go'), ('Delete', 'zkserver/account/account.go')],
  'crash-point enumeration: the delivering process is killed at each file system call, recovery oracle through the real mailbox',
  'Process crashes and write errors, not power loss.', 'fault_enumeration')
P('P15', 'Server routes messages only to the addressee, with authenticated sender',
  'A message a client sends to a user reaches that user and nobody else, byte for byte, marked with the identity the sender proved in its session, whatever the client claims. A message to an unknown user is refused with an error to the sender. Each request is acknowledged exactly once with the request\'s own tag, after its effect is durable.',
  ['histories', 'schedules', 'inputs'], 'all traffic patterns among any number of clients',
  'zkserver has no end-to-end test with several clients.',
  ['zkserver/zkserver.go', 'zkserver/cache.go'], [('handleCache, handleSession', 'zkserver/zkserver.go')],
  'protocol-level bots against the real server program, global history oracle',
  'Bots speak the real protocol through the session library under test.')
P('P16', 'Hostile clients cannot crash or wedge the server',
  'No sequence of bytes or messages, before or after login, makes the server terminate or stop serving other users. A client that violates the protocol at most loses its own connection, and its user can connect again. What the server holds for a connection is released when the connection ends.',
  ['inputs', 'histories'], 'all byte sequences and message sequences at each protocol phase',
  'No test sends the server malformed traffic.',
  ['zkserver/zkserver.go', 'zkserver/account.go', 'zkserver/rendezvous.go', 'zkserver/cache.go'],
  [('preSession, handleSession, welcome', 'zkserver/zkserver.go')],
  'hostile protocol bots against the real server program, liveness probe by an honest user after each attack',
  'Sampled hostile traffic covering each command and field at its boundaries.')
P('P17', 'A user has one live session; a newer login takes over cleanly',
  'A user never has two live sessions. When a user logs in again, the older connection is ended, whatever it was doing, and after at most a few further attempts the new connection serves the user with nothing lost. After any sequence of connects and disconnects, however abrupt and however close together, the user can log in and receives messages sent to it, and nothing of the ended sessions remains in the server. The session of a client that has fallen silent is ended, that of one that pings as clients do is not.',
  ['schedules', 'histories'], 'all interleavings of logins, drops and traffic of one user',
  'No test opens two sessions of the same user.',
  ['zkserver/zkserver.go', 'zkserver/account/account.go'], [('handleSession registration and cleanup', 'zkserver/zkserver.go'), ('Online/Offline', 'zkserver/account/account.go')],
  'race-instrumented real server under reconnect storms, delivery oracle afterwards',
  'Sampled interleavings.')
P('P18', 'Accounts are created only as the policy allows; tokens work once, in time',
  'With account creation closed no account is ever created, with token policy only by presenting a token that was issued, is not expired and was never used before, and with open policy by anyone. An existing account, enabled or disabled, is never overwritten or revived by a creation request, and an identity that does not verify gets no account. An identity without an account gets no session. Concurrent requests with the same token create at most one account, and concurrent requests with different valid tokens all succeed. An account is created completely or not at all, also when the server is killed in between.',
  ['schedules', 'inputs', 'configurations'], 'all policies, tokens and concurrent requests',
  'No test drives account creation over the network.',
  ['zkserver/account.go', 'zkserver/pending.go', 'zkserver/account/account.go'], [('validToken', 'zkserver/pending.go'), ('handleAccountCreate', 'zkserver/account.go')],
  'bots against the real server program under each policy, exactly-once oracle on tokens',
  'Sampled interleavings; the oracle inspects the accounts directory.')
P('P19', 'Disabling an account shuts it out; enabling restores it whole',
  'Once disabling an account has been confirmed the account has no live session, cannot log in and accepts no messages, and a request for an unknown or malformed account is refused without harm. Enabling it again restores login, identity and the messages stored before.',
  ['schedules', 'inputs'], 'all moments relative to login, delivery and logout',
  'Only the account package is tested for this, sequentially.',
  ['zkserver/zkserver.go', 'zkserver/account/account.go', 'zkserver/socketapi/socketapi.go'],
  [('handleIdentityDisable/Enable', 'zkserver/zkserver.go'), ('Enable/Disable', 'zkserver/account/account.go')],
  'bots and the administration socket against the real server program',
  'Sampled interleavings and malformed administration requests.')
P('P20', 'Rendezvous blobs are returned exactly as stored to whoever has the token',
  'A blob pushed to the rendezvous service is returned byte for byte to everyone who presents its token, at least until it expires, across restarts and kills of the server once the push was acknowledged. Tokens of live blobs are distinct, also for concurrent pushes, and an unknown token yields an error. One user\'s push never removes or alters another\'s.',
  ['schedules', 'inputs', 'histories'], 'all concurrent pushes and pulls, blobs of any content',
  'No test covers the rendezvous service.',
  ['zkserver/rendezvous.go'], [('handleRendezvous, handleRendezvousPull', 'zkserver/rendezvous.go')],
  'bots against the real server program, key-value history oracle',
  'Sampled interleavings.')
P('P21', 'Server settings and the user directory take effect as documented',
  'What the configuration says about identifying users, the directory, welcome properties and limits is what clients experience, and each user\'s entry in the directory is shown exactly as the user published it and only if the directory is enabled. A setting that is invalid is reported at start.',
  ['configurations', 'inputs'], 'all combinations of the documented settings',
  'settings has no test against a running server.',
  ['zkserver/settings/settings.go', 'zkserver/zkserver.go', 'zkserver/account.go'], [('settings.Load', 'zkserver/settings/settings.go'), ('welcome', 'zkserver/zkserver.go')],
  'configuration-sweep bots against the real server program',
  'Pairwise sampling of settings.')
P('P22', 'The server is free of data races under load',
  'Under any mix of concurrent logins, messages, acknowledgements, account creations, rendezvous, administration commands and disconnects the server has no data race, does not deadlock and keeps serving.',
  ['schedules'], 'all interleavings of concurrent client activity',
  'The tests never run the server with concurrent clients, nor under the race detector.',
  ['zkserver/zkserver.go', 'zkserver/account/account.go'], [('session map and per-session goroutines', 'zkserver/zkserver.go')],
  'race detector on the real server program under a mixed stress workload with liveness probes',
  'The race detector judges executed schedules only.')
P('P23', 'Nothing a server or peer sends can crash the client',
  'No message from the server and no content from another user makes the client terminate, hang or write terminal control sequences of the sender\'s choosing (other than colours) to the terminal. Messages that cannot be handled are reported and the client goes on serving later ones.',
  ['inputs', 'histories'], 'all message contents from peers, including malformed, compressed and boundary ones',
  'zkclient has almost no tests.',
  ['zkclient/push.go', 'zkclient/zkclient.go', 'zkclient/msg.go', 'zkclient/chunk.go', 'zkclient/groupchat.go'],
  [('handlePush', 'zkclient/push.go')],
  'hostile protocol bots as peers of the real client program on a pseudo terminal, liveness probe after each attack',
  'Sampled hostile content for each message kind.')
P('P24', 'Received files are intact and stay inside the download directory',
  'A file that was sent to a user in full arrives byte for byte in the receiver\'s download directory, under its name as far as that is free, whatever its size (an empty file included) and content, however many transfers of the same or other senders run at the same time, when it is sent again after it was given up half way, and when the receiver starts again in between; the user is told. A file larger than the server allows is refused before anything is sent. No name, size, offset, digest or chunk from a sender makes the client write outside that directory, change files already there, keep more of a file than was announced, put something there that is not what was announced, or disturb the transfers of others.',
  ['inputs', 'histories'], 'all file names, chunk orders and concurrent transfers',
  'No test covers transfers.',
  ['zkclient/chunk.go', 'zkclient/send.go'], [('doHandleChunk', 'zkclient/chunk.go')],
  'fair and hostile senders written for the monitor, and real clients, send files to the real client program; the oracle compares the trees of files before and after',
  'Sampled names, sizes, interleavings and attacks; the client\'s root is nested in a scratch directory that no name used by the monitor leaves. Files of equal content sent at the same time need to arrive once only (the protocol tells them apart by digest).')
P('P25', 'Only the group administrator changes a group, and only members speak',
  'Group membership changes only by a message of the group\'s administrator, and a message, kick, kill or part from anyone else has no effect on the group. Every member sees the group messages of the other members.',
  ['inputs', 'histories'], 'all group messages from members, non members and administrators, in any order',
  'No test covers group chat.',
  ['zkclient/groupchat.go', 'zkclient/push.go'], [('handleGroup*', 'zkclient/groupchat.go')],
  'bots as group members and outsiders of the real client program, model of the membership',
  'Sampled histories.')
P('P26', 'Group invites admit exactly the invited, once, while valid',
  'A person joins a group only with the invitation it was sent, an invitation works once and not after it expired, and a join by anyone else or with a wrong token has no effect.',
  ['inputs', 'histories', 'schedules'], 'all invitations and join attempts',
  'No test covers invitations.',
  ['zkclient/groupinvites.go'], [('invite and join database', 'zkclient/groupinvites.go')],
  'bots against the real client program',
  'Sampled histories.')
P('P27', 'The client talks only to the identities it exchanged keys with',
  'A key exchange adds to the address book exactly the identity that took part in it and whose published identity is genuine, under a nick of its own, and both sides can talk to each other afterwards; this holds for exchanges either side starts, through the directory, by a shared password or by rendezvous, when both start at the same time, and when a client starts again in between. Exchange messages that are forged, altered, replayed or come from a different user than they name add or change nothing, and the secrets of an exchange are not logged.',
  ['inputs', 'histories'], 'all key-exchange messages, honest and forged',
  'No test covers the client key exchange.',
  ['zkclient/identity.go', 'zkclient/zkclient.go', 'zkclient/push.go'], [('step1..4 of the key exchange', 'zkclient/push.go')],
  'honest and forging peers written for the monitor against the real client program, and pairs of real clients; oracle on the saved address book and on conversations working afterwards',
  'Sampled forgeries at each step; messages of an exchange are delivered in order and at most once, as the server does.')
P('P28', 'A ratchet reset affects only the conversation of who asked for it',
  'When a user resets a conversation both can talk to each other afterwards, whatever the state it was in: with messages under way, with the other side offline, when both reset at the same time, when one resets again before the first reset is done, when either starts again in between, on servers with and without directory. A reset request changes only the conversation with its authenticated sender; requests of strangers, malformed and unknown requests change nothing, and other conversations go on meanwhile. No text is shown twice or to someone else because of a reset.',
  ['histories', 'inputs'], 'all resets in any state of any conversation',
  'No test covers resets.',
  ['zkclient/reset.go', 'zkclient/push.go'], [('handleProxyControl, ratchet reset', 'zkclient/push.go')],
  'three real clients connected by a monitor that holds back and releases what they send, and a played peer; oracle on saved conversations and on texts arriving',
  'Sampled histories of ten kinds of resets; each request is delivered once. Texts under way during a reset may be lost, never duplicated.')
P('P29', 'Messages between users arrive in order, at most once, across failures',
  'What a user types for another user or for a group is shown at most once, unaltered, under the right person and in the order typed, whatever happens to connections, to the server and to the clients in between. It is shown eventually, unless the connection of the sender broke, or the server or the client of the sender was stopped, before the server had taken it: nothing is lost because it was typed while the sender was offline, or because the receiver was offline, lost its connection or was restarted. A client comes back by itself when its connection breaks, and requests (texts, exchanges, lookups) work again after that. A client acknowledges to the server only what that server sent in the same session, each message once and after it was handled.',
  ['schedules', 'faults', 'histories'], 'all interleavings and connection failures',
  'No test runs two clients.',
  ['zkclient/msg.go', 'zkclient/zkclient.go', 'zkclient/push.go', 'zkserver/zkserver.go'],
  [('scheduleMsg, step1, step2, handleOnlineState', 'zkclient/msg.go'), ('session', 'zkclient/zkclient.go'), ('session loop', 'zkserver/zkserver.go')],
  'three real clients on a real server through connections that are cut, stalled and delayed, programs killed and restarted; an end-to-end judge of every text; and a server played by the harness that watches tags and acknowledgements over many sessions',
  'Sampled fault schedules. Texts in flight when the sender\'s connection breaks may be lost.')
P('P30', 'Client state survives being killed at any time',
  'After the client was killed at any moment it starts again. Everyone it knew is still known, under the same nick and with the same keys; every group is as it was before or after the interrupted action; conversations and group conversations with everyone else go on in both directions. Of the texts only those being handled when it was killed may be missing, and none is shown twice. A join, an invitation, a creation or end of a group that was interrupted can be done again (a group that was begun is left first), and a conversation whose reset was interrupted is brought back by a reset of the other side.',
  ['crash_points', 'histories'], 'all moments in all actions of the client',
  'No test kills a client.',
  ['zkclient/zkclient.go', 'zkclient/groupchat.go', 'zkclient/push.go', 'zkclient/reset.go', 'zkclient/kx.go', 'ratchet/disk/disk.go', 'inidb/inidb.go'],
  [('saveMsg, saveRatchet, saveIdentity, loadIdentities', 'zkclient/zkclient.go'), ('saving of groups', 'zkclient/groupchat.go'), ('resets', 'zkclient/reset.go')],
  'kill injection on the real client program: its file operations are stretched in time and it is killed at random moments and at each observed change of the saved files; a model of all people, groups and texts judges what it is after the restart',
  'Sampled kill moments in 15 kinds of actions. Interrupted key exchanges with new people are not judged, except that they harm no one else.', 'fault_enumeration')
P('P31', 'Administration tools do exactly what they say',
  'What zkexport exports imports with zkimport as exactly the same identity or server; altered or truncated exports are refused and change nothing. zkimport does not replace an existing or disabled account, or the server a client is set up with, unless that is forced. A token of zkservertoken is accepted by the server exactly once, until its time, and no other token is. zkserverctl reports success exactly if the server changed the account as told. zkserverdump lists exactly the accounts that exist, one line each, disabled ones marked with a leading dot, whatever their names are, and changes nothing.',
  ['inputs', 'configurations', 'histories'], 'all identities, accounts, tokens and sequences of uses of the tools',
  'The tools have no tests.',
  ['tools/zkexport', 'tools/zkimport', 'tools/zkservertoken', 'tools/zkserverctl', 'tools/zkserverdump'], [('export/import', 'tools')],
  'the real tool programs with generated, altered and conflicting data next to a running server; a model of all accounts compared with the disk after each use', 'Sampled data. The tools of different processes are run one after another.')
P('P32', 'Programs of one protocol version understand each other and what they saved',
  'Programs built from this tree work together with any other program of protocol version 9: every message has that version\'s encoding and decodes to exactly what was sent, and sessions, key exchanges, conversations, groups, file transfers, resets and password-sealed blobs work in every mix of clients and servers. Identities, conversations, accounts, waiting mail and databases saved by other programs of that version (mail also by servers that did not know messages in the clear) are read with the same meaning, and the other way round. A server of another protocol version is refused by the client. Malformed bytes give an error, not a panic, and what is decoded encodes back to the same.',
  ['inputs', 'configurations', 'histories'], 'all values of all messages, all saved states, all mixes of programs',
  'The tests only use one version on both sides, so a change on both sides that breaks every deployed program passes.',
  ['rpc/rpc.go', 'session/kx.go', 'ratchet/ratchet.go', 'ratchet/disk/disk.go', 'blobshare/blobshare.go', 'zkidentity/zkidentity.go', 'inidb/inidb.go', 'zkserver/account/account.go'],
  [('wire structures and commands', 'rpc/rpc.go'), ('handshake', 'session/kx.go'), ('saved ratchets', 'ratchet/disk/disk.go'), ('mailbox files', 'zkserver/account/account.go')],
  'a copy of the released version runs against the libraries and programs of this tree, in all mixes, exchanging generated data and taking over each other\'s saved state; oracle: the other version decodes the same',
  'Sampled values and histories. Where the released version itself is known to fail (empty late messages, default section together with others, resets without directory) it is not asked to.')

P('P33', 'Text goes exactly to whom it is meant for and is shown under who sent it',
  'What a user types for a person or a group, by nick or in its window, reaches exactly that person or exactly the other members of that group, once and unaltered. What is received is shown in the window of its sender or group and under its sender\'s name, and nowhere else. This holds also when several people chose the same nick or the user\'s own nick, when a nick is that of a group or contains unusual characters, after people were deleted, and after the client was restarted.',
  ['inputs', 'histories'], 'all nicks, texts, windows and sequences of commands, arrivals, deletions and restarts',
  'No test runs the client.',
  ['zkclient/mainwindow.go', 'zkclient/zkclient.go', 'zkclient/msg.go', 'zkclient/addressbook.go', 'zkclient/groupchat.go', 'zkclient/push.go'],
  [('msg, query, group message', 'zkclient/mainwindow.go'), ('conversations', 'zkclient/zkclient.go')],
  'random sequences of commands and arrivals at the real client program on a pseudo terminal; an independent end of every ratchet records what each person received, the conversation logs what was shown',
  'Sampled sequences with hostile nicks and texts, about 70 steps on each of six clients in the quick tier.')

P('P34', 'Stolen conversation keys open neither its past nor its later future',
  'Keys a user or a client holds for a conversation at any moment open no message that was sent or received before. Whoever takes a copy of all of them (and of the identity) can read and write in the conversation at most until the robbed side began a new chain of messages and the other side answered it: from then on the copy opens nothing of what either of them sends, and nothing made with it is accepted. No header nonce is used twice, and two conversations of the same people share no keys.',
  ['histories', 'schedules'], 'all moments of a theft in all conversations',
  'The tests never look at what old keys can still do.',
  ['ratchet/ratchet.go', 'zkclient/msg.go', 'zkclient/zkclient.go'], [('Encrypt/Decrypt, root key update', 'ratchet/ratchet.go'), ('saveRatchet', 'zkclient/zkclient.go')],
  'a thief in the harness: copies of the ratchet taken at random moments of random conversations and from the files of a real client see all later messages, search all their keys and derived keys, and forge; positive control: the copies do read before healing',
  'Sampled conversations and moments. The thief is passive before the conversation heals, an active one can keep it from healing.')

P('P35', 'A server stays who it is over all its starts',
  'From the first time anyone can connect to it, or its fingerprints are in its log, a server has the same identity and the same certificate at every later start, and proves both to who connects. This holds whatever happened at its starts: when it was killed at any moment of a start, the first one included, when a file could not be opened, read or written at that time, when the disk was full or descriptors ran out. A start that fails leaves everything as it was, and the next undisturbed start works.',
  ['crash_points', 'faults'], 'all moments and faults of all starts',
  'The tests never start the server.',
  ['zkserver/zkserver.go', 'zkserver/cert.go', 'zkidentity/zkidentity.go'], [('_main: identity and certs', 'zkserver/zkserver.go')],
  'fault and kill injection (strace, resource limits) on starts of the real server program; a client connects, takes the certificate and has the identity proven by a session key exchange, and compares over all starts',
  'Kills before each of the first calls of a kind and faults of each file of the server, sampled in the quick tier; power loss (unsynced data) is not simulated, damage of the files by others is not judged.', 'fault_enumeration')
P('P36', 'A client trusts exactly the server its user accepted',
  'On its first start a client shows the user the fingerprints of the certificate and of the identity key that are then really used, and sends neither the account request nor the token before the user accepted them, nor to a server whose identity is not genuine. The account is requested with exactly the name, nick and token entered. Once a server confirmed an account the client has it, with its keys and the accepted server, however the connection or the client ended after that; before, it has none and can start over. Later the client has a session only with a server that shows the accepted certificate and proves the accepted identity; with another certificate nothing is sent until the user accepts the one last shown. A server that falls silent does not keep the user from leaving.',
  ['inputs', 'histories', 'faults'], 'all servers and impostors a client can meet, all points at which a connection ends',
  'No test starts the client.',
  ['zkclient/welcome.go', 'zkclient/acceptserverfingerprint.go', 'zkclient/zkclient.go', 'zkclient/mainwindow.go'],
  [('welcome window', 'zkclient/welcome.go'), ('finalizeAccountCreation, goOnline, saveServerRecord', 'zkclient/zkclient.go')],
  'the real client program on a pseudo terminal whose screen a terminal emulator reads, against honest, impostor, silent and disconnecting servers written for the monitor; oracle on what is shown, what the servers were sent and what sessions come about',
  'Sampled forms, impostors and cut points. A client that is killed between the confirmation of the server and the saving of its keys loses the account.')

BUILT = ["P%02d" % i for i in range(1, 37)]
for p in PROPS:
    if p['id'] not in BUILT:
        NA[p['id']] = 'monitor not built yet'
