NOT = {}
INFO['P01'] = ('random hostile workloads monitored by an lstat/content oracle and an independent repository decoder', 'exploration',
  'Observed executions only: every generated tree restored identically. Trusts the Linux stat/xattr calls and the kernel filesystem.')
INFO['P02'] = ('differential trace checking of real incremental saves against fresh saves and a git fast-export style history oracle, under a hostile filesystem mutator', 'exploration',
  'Observed histories only. The reference is a brand-new index and save of the same filesystem state by the same code (P01 decides that one).')
INFO['P04'] = ('online monitor: every observed chunk sequence compared with an independent C reference splitter and with other read slicings and input forms', 'exploration',
  'Observed streams only. The reference implementation (lib/c/refsplit.c) is trusted.')
INFO['P20'] = ('AddressSanitizer/UndefinedBehaviorSanitizer build of bup driven by helper fuzzing with model oracles, command workloads and damaged index files', 'exploration',
  'Observed executions only; covers the memory errors ASan and UBSan can see in the compiled helpers.')
INFO['P05'] = ('differential monitoring of every reader front end (cat-file, join, ftp, web, fuse class, vfs seek/read scripts, remote) against the bytes handed to save', 'exploration',
  'Observed reads only; fuse is driven through its filesystem class because nothing can be mounted here.')
INFO['P06'] = ('model-based monitoring: a filesystem model of every save and the vfs root compared with every listing and path resolution the front ends (vfs, ls, ftp, web, fuse class, remote) give', 'exploration',
  'Observed listings and resolutions only. Path names that are git revision syntax (main~1, main^{tree}) are outside the model; fuse is driven through its filesystem class.')
INFO['P07'] = ('conservation oracle over recorded repository states: every collection (and collections killed at injected filesystem events) followed by a full independent decode of everything reachable', 'fault_enumeration',
  'Observed histories and kill points only. A kill is a SIGKILL of the process group at a filesystem call; power loss ordering is P09. The liveness filter may keep some blobs by chance (documented), which the oracle allows.')
INFO['P08'] = ('fault injection: commands killed at injected filesystem events (also mid-write) and random times, then judged by an independent repository decoder, by reads, and by re-running the command against an undisturbed run', 'fault_enumeration',
  'Observed commands and kill points only. A kill is SIGKILL of the whole process group; loss of unflushed data is P09. Left-over git lock files are removed before re-running.')
INFO['P09'] = ('trace specification monitor: an LD_PRELOAD recorder logs every filesystem operation of each command and an online checker tracks which contents and directory entries are not yet durable when a pack, ref or replacement file is published', 'exploration',
  'Observed commands only. A system-call order oracle stands in for power loss; refs themselves are written by git, whose durability settings are not judged.')
INFO['P10'] = ('model-based monitoring: every rm and prune-older run on generated histories is compared, ref by ref and commit by commit, with a reference policy computed from the raw commits by an independent decoder', 'exploration',
  'Observed histories and requests only. Trusts time.localtime for calendar arithmetic; histories are mostly written with git fast-import.')
INFO['P03'] = ('random operation histories (local, remote, interleaved with git maintenance) with an invariant monitor after every command: independent pack/index/tree decoder plus git fsck --strict, verify-pack and rev-list as referees', 'exploration',
  'Observed histories only. Pack indexes with offsets beyond 4 GiB are driven through the index writer directly, not with real packs of that size.')
INFO['P25'] = ('request-driven monitor: after every save, split or tag command all refs and the raw commit are compared with the request, with git check-ref-format as referee for names; users, time zones and dates are injected', 'exploration',
  'Observed requests only. Full names come from an injected getpwuid; branch names containing a slash are judged by their refs because bup cannot browse them.')
INFO['P24'] = ('model-based monitor of every restore: the output is compared with a model of paths, patterns and ownership mappings, and a full snapshot of the surroundings watches for effects outside the output directory, under crafted hostile saves and hostile output directories', 'exploration',
  'Observed restores only. Extended attributes and ACLs are left to P01 where names are mapped; crafted saves are restored as an unprivileged user.')
INFO['P21'] = ('model-based monitor: after every index run the listing, and after every save the decoded tree, is compared path by path with a model of roots, exclusions, device boundaries and strip/graft placement', 'exploration',
  'Observed command lines only. Device boundaries are simulated through reported device numbers; rearrangements that map two paths to one place or interleave may be refused.')
INFO['P11'] = ('model-based monitoring: generated histories of index, midx and bloom creation, growth, removal, staleness and damage, with every answer of long-lived and fresh lookup processes compared with an independent reading of the indexes', 'exploration',
  'Observed histories and object ids only. Pack contents are synthetic in most cases (lookups never read the packs).')
INFO['P18'] = ('fault injection with an exact oracle: generated repositories lose generated sets of objects, packs or metadata entries, and every line and status of the validators is compared with the missing set computed beforehand by an independent decoder', 'fault_enumeration',
  'Observed repositories and losses only. Loose objects and annotated tags are outside (documented limits of the commands).')
INFO['P19'] = ('model-based monitoring of the real encoder, decoder and meta command: generated values, records, archives and file trees against an independent encoder and decoder of the documented format, every truncation and generated damage, and file-system snapshots around the extraction of hostile archives', 'exploration',
  'Observed records and archives only. Damage that yields another well-formed record is only required to be read consistently.')
INFO['P15'] = ('model-based monitoring: generated source and destination repositories and requests, with the resulting refs, new commits and printed ids (or the refusal and unchanged refs) compared with a reference model of the documented transfer methods', 'exploration',
  'Observed histories and requests only; linear histories. Rewriting and repairing transfers belong to P16.')
INFO['P26'] = ('transport monitor: generated programs run through bup mux, a splitting and delaying relay and bup demux, with an independent parse of the framing; DemuxConn driven on complete, truncated and damaged streams against a model; bup on compared with local runs, also with breaking connections and unwritable outputs', 'exploration',
  'Observed programs and streams only. ssh is replaced by a subprocess; after death by a signal only failure is required.')
INFO['P23'] = ('conservation monitor over pack indexes: random histories of edits, saves, splits and gets through every kind of server and cache state; every newly packed object must be new to the repository, and new content bytes are bounded by the edits made since the content was last stored', 'exploration',
  'Observed histories only. The edit bound is statistical (random content, 25 average chunks per edit).')
INFO['P17'] = ('fault-injection monitor: known damage to packs, indexes and recovery files, and failing, dying or lying git, par2 and jobs; exit status and resulting bytes compared with what was done', 'exploration',
  'Observed damage only. --quick cannot see a file replaced by that of another pack; a missing pack is only mentioned (as documented).')
INFO['P22'] = ('fault-injection monitor: every kind of system call failing (LD_PRELOAD) at chosen calls of every command, unwritable outputs, unreadable and vanishing files as an ordinary user; exit status, message, remaining result and existing data judged against the undisturbed run', 'fault_enumeration',
  'Sampled calls, not all. Calls inside libc (stdio) are not disturbed. A failure without any effect on the result may go unreported if it is a read, an unlink or a close of synchronised data.')
INFO['P14'] = ('runtime monitoring of concurrent histories: real commands run at the same time under injected delays and stopped writers, checked offline against an exactly-once and prefix-monotonicity specification', 'exploration',
    'Rounds of concurrent saves, splits, gets, removals, readers and maintenance commands (local and through servers), with one writer held at its n-th filesystem operation; every successful save must be in its history once and complete, nothing older may be lost, readers must see complete saves.')
INFO['P12'] = ('differential runtime monitoring: generated histories of commands run on a local repository and through every kind of server and transport, comparing output, status, restored trees, refs and object sets after each step', 'exploration',
  'Observed histories only. ssh is replaced by a subprocess; Bup-Argv lines and commit times are not compared.')
INFO['P13'] = ('hostile-client monitoring: generated, mutated and directed protocol streams against bup server, bup daemon and the restricted servers inside bup on, with snapshots of the served repository, its neighbours and surroundings judged after every session', 'exploration',
  'Observed streams only. The names of objects the server does not have yet are taken from the client (one known finding: also those it has, on dumb servers). Temporary packs of killed servers may remain.')
