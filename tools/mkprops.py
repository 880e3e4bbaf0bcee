#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand: tools/mkprops.py > properties.jsonl)."""
import json, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mech],
         'observe_at': observe, 'hook_needed': hook}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})

p('P01', 'Saving then restoring a tree reproduces it exactly',
  'Indexing, saving and restoring any filesystem tree yields a tree with the same names, types, file contents, symlink targets, hard-link groups, permission bits, ownership, timestamps and extended attributes. This holds for any names (arbitrary bytes), sizes, nesting and split configuration, and the save neither follows symlinks nor invents or drops entries.',
  ['inputs', 'configurations'],
  'every filesystem tree (names are arbitrary bytes without / and NUL) x save options (index/split/tree-splitting settings, compression)',
  'Tests compare a few fixed sample trees with rsync; names, metadata values, sizes around split boundaries and tree-splitting thresholds are unbounded.',
  ['lib/bup/cmd/save.py', 'lib/bup/cmd/restore.py', 'lib/bup/metadata.py', 'lib/bup/tree.py', 'lib/bup/hashsplit.py', 'lib/bup/index.py'],
  [('tree stack and shalist sorting', 'lib/bup/tree.py'), ('metadata stream ordering', 'lib/bup/cmd/save.py opt metadata store'), ('restore write and apply', 'lib/bup/cmd/restore.py')],
  ['restored directory vs source directory via lstat/readlink/listxattr', 'exit status and stderr of index, save, restore'])

p('P02', 'An incremental save stores the same tree as a save from scratch',
  'After any history of filesystem changes with index updates and saves in between, the tree stored by the latest save equals the tree a brand-new index and save of the same filesystem state would store. Earlier saves of the branch stay byte-for-byte what they were.',
  ['histories'],
  'every sequence of create/modify/delete/rename/type-change/link/chmod/touch steps interleaved with full or partial index runs, saves (including size-limited saves), index invalidations and repository changes',
  'The index is a cache validated by many interacting flags (hash-valid, exists, hard-link database, newest-time cutoffs); tests walk a handful of scripted histories.',
  ['lib/bup/index.py', 'lib/bup/cmd/index.py', 'lib/bup/cmd/save.py', 'lib/bup/hlinkdb.py'],
  [('entry validation and staleness', 'lib/bup/index.py Entry'), ('index merge', 'lib/bup/cmd/index.py'), ('hard link database', 'lib/bup/hlinkdb.py'), ('already-saved shortcut', 'lib/bup/cmd/save.py')],
  ['stored tree ids of incremental vs fresh repository', 'stored metadata and contents read back'],
  state=[('bupindex', 'cached stat data and object ids per path', '$BUP_DIR/bupindex*')])

p('P03', 'A repository is always a valid, closed git repository',
  'After any sequence of bup operations, every ref names an existing object, every object reachable from a ref is present and hashes to its name, trees are correctly ordered with unique names, and every pack and index file is one that git itself accepts.',
  ['histories', 'configurations'],
  'every sequence of repository-changing commands (save, split, get, rm, gc, prune-older, tag, import) x pack-size, compression and tree-split settings',
  'Tests run git fsck after a few scenarios only; pack boundaries, duplicates, tree splitting and large fanouts are configuration dependent.',
  ['lib/bup/git.py', 'lib/bup/tree.py', 'lib/bup/_helpers.c', 'lib/bup/commit.py'],
  [('pack writer', 'lib/bup/git.py PackWriter / LocalPackStore'), ('idx writer', 'lib/bup/git.py PackIdxV2Writer, lib/bup/_helpers.c write_idx'), ('tree encoding', 'lib/bup/git.py tree_encode')],
  ['git fsck, git verify-pack', 'independent pack/idx/tree reader over the repository files'])

p('P04', 'Splitting is lossless, deterministic and bounded',
  'For every byte stream, the concatenation of the chunks that splitting produces is the stream itself, and the chunk sequence is a function of the content and split settings alone: never of how reads were sliced, which input form was used, or what ran earlier. No chunk exceeds the documented maximum, and boundaries are exactly those the documented rolling checksum defines.',
  ['inputs', 'schedules', 'configurations'],
  'every byte stream x every partition of it into reads and files x split bits/fanout/blob limits',
  'Tests check a few fixed buffers; the splitter has buffer-compaction, boundary-carry and EOF paths that depend on read sizes.',
  ['lib/bup/_hashsplit.c', 'lib/bup/bupsplit.c', 'lib/bup/hashsplit.py', 'lib/bup/cmd/split.py'],
  [('rolling checksum', 'lib/bup/bupsplit.c'), ('streaming splitter', 'lib/bup/_hashsplit.c'), ('fanout tree construction', 'lib/bup/hashsplit.py')],
  ['bup split --blobs/--tree/--commit output', 'HashSplitter iterator output', 'independent reference rolling checksum'])

p('P05', 'Reading saved content back, whole or in part, returns the original bytes',
  'Every way of reading saved data (join, cat-file, ftp get, web download with or without a byte range, random-access file reads and seeks) returns exactly the bytes that were saved at those offsets, and reports the right size.',
  ['inputs', 'histories'],
  'every stored stream x every sequence of seeks and reads x every reading front end',
  'Offset arithmetic in chunk trees depends on chunk layout; tests read whole files and a few offsets.',
  ['lib/bup/vfs.py', 'lib/bup/git.py', 'lib/bup/cmd/join.py', 'lib/bup/cmd/web.py', 'lib/bup/cmd/ftp.py', 'lib/bup/cmd/cat_file.py'],
  [('chunk tree walker', 'lib/bup/vfs.py _tree_chunks / _FileReader'), ('object reader', 'lib/bup/git.py CatPipe'), ('range responses', 'lib/bup/cmd/web.py')],
  ['bytes returned by each reader against the model stream'])

p('P06', 'Directory views show exactly what was saved',
  'Listing or resolving any path in a save, through any front end, yields exactly the saved entries with their original names, types, sizes and metadata, whatever their names look like and however large or split the directory is; internal bookkeeping entries never appear and never hide a user entry. Symlinks and dot-dot resolve within the save as in a filesystem.',
  ['inputs', 'configurations'],
  'every saved tree (including names that look like internal ones) x every path expression x listing options and tree-splitting settings',
  'Name mangling and split-directory markers interact with user-chosen names; tests use a few names.',
  ['lib/bup/vfs.py', 'lib/bup/ls.py', 'lib/bup/tree.py', 'lib/bup/git.py', 'lib/bup/cmd/web.py', 'lib/bup/cmd/ftp.py'],
  [('name mangling', 'lib/bup/git.py mangle_name/demangle_name'), ('split tree reading', 'lib/bup/vfs.py tree_items'), ('path resolution', 'lib/bup/vfs.py resolve')],
  ['bup ls / ftp / web output and vfs results against the source tree'])

p('P07', 'Garbage collection keeps everything reachable and removes the rest',
  'After garbage collection at any threshold every object reachable from any ref is still present and readable, refs are unchanged, and later saves work; with threshold zero, packs whose objects are all unreachable are gone. A collection that is interrupted at any moment loses no reachable object.',
  ['histories', 'crash_points'],
  'every repository history (saves, removals, tags, multiple packs sharing objects) x thresholds x interruption points',
  'Liveness is approximated and packs are rewritten in several steps; tests use one or two pack layouts and no interruptions.',
  ['lib/bup/gc.py', 'lib/bup/cmd/gc.py', 'lib/bup/bloom.py', 'lib/bup/git.py'],
  [('mark live objects', 'lib/bup/gc.py find_live_objects'), ('sweep', 'lib/bup/gc.py sweep')],
  ['object sets before/after, git fsck, restore of every ref'])

p('P08', 'A crash at any moment never damages existing saves',
  'If a save, split, get, gc, index or maintenance command is killed at any point, every save that had completed before is still listed, complete and readable, the branch names either the old or the new complete save, and re-running the command afterwards succeeds with the normal result.',
  ['crash_points'],
  'every prefix of the sequence of filesystem mutations each command performs',
  'Tests never kill commands part way; there are hundreds of distinct crash points per command.',
  ['lib/bup/git.py', 'lib/bup/cmd/save.py', 'lib/bup/index.py', 'lib/bup/cmd/index.py', 'lib/bup/midx.py', 'lib/bup/bloom.py', 'lib/bup/gc.py'],
  [('atomic replacement', 'lib/bup/helpers.py atomically_replaced_file'), ('pack finalisation order', 'lib/bup/git.py LocalPackStore.finish_pack'), ('ref update last', 'lib/bup/cmd/save.py')],
  ['repository state after SIGKILL at the n-th mutating system call'],
  hook='LD_PRELOAD shim that kills the process at the n-th mutating system call (no source change)')

p('P09', 'Data is forced to disk before anything refers to it',
  'When a branch or tag is made to point at a new save, every pack and index holding its objects has already been flushed, and the directory entries naming them have been flushed too. Files that replace older versions in place are flushed before the replacement becomes visible.',
  ['crash_points', 'histories'],
  'every command that publishes new objects, and every power-loss point in its system-call trace',
  'Ordering of fsync and rename is invisible to functional tests; only a crash of the machine exposes it.',
  ['lib/bup/git.py', 'lib/bup/helpers.py', 'lib/bup/io.py'],
  [('pack fsync and rename', 'lib/bup/git.py LocalPackStore.finish_pack'), ('ref update', 'lib/bup/git.py update_ref')],
  ['ordered log of write, fsync, rename, link and unlink calls'],
  hook='LD_PRELOAD recorder of file-system calls (no source change)')

p('P10', 'Removing and pruning saves removes exactly the ones asked for',
  'Removing branches or saves, or pruning by age policy, leaves exactly the saves the request and policy define, in order, with their contents, messages and dates unchanged, and touches no other branch or tag. Requests that cannot be carried out change nothing.',
  ['histories', 'inputs', 'configurations'],
  'every branch history (any save times, including ties and out-of-order) x every retention policy or set of removal paths',
  'Policy arithmetic over calendar periods and commit rewriting have unbounded inputs; tests sample one random run.',
  ['lib/bup/cmd/prune_older.py', 'lib/bup/rm.py', 'lib/bup/cmd/rm.py'],
  [('classification', 'lib/bup/cmd/prune_older.py classify_saves'), ('commit rewriting', 'lib/bup/rm.py')],
  ['branch history before and after vs reference policy'])

p('P11', 'Object lookup never gives a wrong answer',
  'Whatever combination of pack indexes, multi-pack indexes and bloom filters a repository has, and however these were created, updated, removed or become stale, an object is reported present exactly when some pack holds it, and its reported location is right.',
  ['histories', 'configurations', 'inputs'],
  'every set of packs x every history of index/midx/bloom creation, growth and deletion x every object id (present, absent, near misses)',
  'Fanout-table edge cases, merges and stale caches depend on object-id distribution and history; tests build one or two small indexes.',
  ['lib/bup/git.py', 'lib/bup/midx.py', 'lib/bup/bloom.py', 'lib/bup/cmd/midx.py', 'lib/bup/cmd/bloom.py', 'lib/bup/_helpers.c'],
  [('PackIdxList', 'lib/bup/git.py'), ('midx merge', 'lib/bup/_helpers.c merge_into'), ('bloom', 'lib/bup/bloom.py')],
  ['exists()/list-idx --find/midx --check/bloom --check vs raw .idx contents'])

p('P12', 'Remote operation gives the same result as local operation',
  'Saving, splitting, getting, restoring, listing or joining through a remote server yields the same objects, refs and output as the same operation on a local repository, whatever the state of the local index cache and whatever mode the server runs in.',
  ['inputs', 'histories', 'configurations'],
  'every operation x data x cache state (fresh, stale, partial, from another repository) x server mode (smart, dumb) x chunking of the transport',
  'The client suggests and caches indexes concurrently with uploads; tests use tiny single-pack exchanges.',
  ['lib/bup/client.py', 'lib/bup/protocol.py', 'lib/bup/repo/remote.py', 'lib/bup/cmd/server.py'],
  [('index cache sync', 'lib/bup/client.py'), ('suggestions', 'lib/bup/protocol.py receive_objects_v2')],
  ['object sets and refs of remote vs local repositories, bup command output'])

p('P13', 'The server only does what a client is entitled to and survives bad clients',
  'For every byte sequence a client sends, the server never changes anything outside the repository it serves, never makes a ref point at something missing, and never corrupts existing data; in restricted modes it refuses every operation outside the allowed set. An update of a ref takes effect only if the ref still has the value the client expected.',
  ['inputs', 'fault_sequences', 'configurations'],
  'every client byte stream (malformed, truncated, hostile, out of order, disconnecting anywhere) x server restriction settings',
  'Tests use only the well-behaved bundled client.',
  ['lib/bup/protocol.py', 'lib/bup/cmd/server.py', 'lib/bup/cmd/on.py', 'lib/bup/cmd/on__server.py', 'lib/bup/cmd/daemon.py'],
  [('command dispatch and checks', 'lib/bup/protocol.py'), ('restricted modes', 'lib/bup/protocol.py, lib/bup/cmd/server.py')],
  ['repository and surrounding filesystem snapshot before/after, server exit and responses'])

p('P14', 'Concurrent commands do not lose saves or objects',
  'When several saves, splits, gets, listings or cache rebuilds run at once on one repository, each command either succeeds completely or reports failure; every save that reported success is in its branch history and complete, and readers never see a partial save.',
  ['schedules'],
  'every interleaving of concurrent bup processes on one repository',
  'Tests run one command at a time.',
  ['lib/bup/git.py', 'lib/bup/cmd/save.py', 'lib/bup/cmd/get.py', 'lib/bup/midx.py', 'lib/bup/bloom.py'],
  [('compare-and-swap ref update', 'lib/bup/git.py update_ref'), ('atomic pack publication', 'lib/bup/git.py')],
  ['history of (start, end, exit status, commit) events vs final branch histories'])

p('P15', 'Transferring saves with get copies exactly what was asked for',
  'For every transfer method, the destination ref ends up exactly as the method defines (fast-forward, append, pick, force-pick, new-tag, replace, unnamed), all objects reachable from it are in the destination, the source is untouched, and unrelated destination refs are untouched. A request the method forbids is refused and changes no ref.',
  ['histories', 'inputs', 'configurations'],
  'every source and destination history x method x source/destination path form x local or remote',
  'Methods x source kinds x destination kinds x histories is a large matrix; tests sample it with fixed small repositories.',
  ['lib/bup/cmd/get.py', 'lib/bup/git.py', 'lib/bup/vfs.py'],
  [('method resolution', 'lib/bup/cmd/get.py'), ('object walk', 'lib/bup/git.py walk_object')],
  ['refs and object sets of both repositories before/after vs reference semantics'])

p('P16', 'Rewriting or repairing saves keeps their content',
  'Rewriting saves into another repository (different split settings) yields saves with the same file contents, directory structure, metadata, dates and messages. Repairing replaces only what is missing, keeps everything that is not, and marks what it replaced.',
  ['inputs', 'configurations', 'fault_sequences'],
  'every saved tree x source and destination split configuration x set of missing objects',
  'Tests rewrite small trees and remove one or two objects.',
  ['lib/bup/rewrite.py', 'lib/bup/repair.py', 'lib/bup/cmd/get.py'],
  [('tree conversion', 'lib/bup/rewrite.py'), ('repair log', 'lib/bup/repair.py')],
  ['restored trees from source vs destination repository'])

p('P17', 'fsck detects any damage and repairs what its recovery data allows',
  'A check of an undamaged repository succeeds; any change, truncation or removal of bytes in a pack makes the check fail with a non-zero exit. When recovery blocks exist and the damage is within what they cover, repair restores the original bytes exactly, and a failed repair is never reported as success.',
  ['fault_sequences', 'inputs'],
  'every pattern of damage (offset, length, kind, several packs, indexes and recovery files) x parallelism x quick or full check',
  'Tests damage a repository in one or two fixed ways.',
  ['lib/bup/cmd/fsck.py', 'lib/bup/cmd/damage.py'],
  [('verification', 'lib/bup/cmd/fsck.py'), ('par2', 'lib/bup/cmd/fsck.py')],
  ['exit status and pack bytes after damage/repair'])

p('P18', 'Integrity validators report exactly what is missing',
  'The validation commands succeed exactly when every link from stored objects, or from refs, leads to a present object, and otherwise fail and name the missing ones. They never modify the repository.',
  ['fault_sequences', 'histories'],
  'every repository x every set of removed objects or packs x refs subset',
  'Tests remove a single object from one repository.',
  ['lib/bup/cmd/validate_object_links.py', 'lib/bup/cmd/validate_ref_links.py', 'lib/bup/cmd/validate_refs.py', 'lib/bup/git.py'],
  [('link walk', 'lib/bup/cmd/validate_object_links.py')],
  ['exit status and report vs independently computed missing set'])

p('P19', 'Metadata records survive encoding, storage and later format growth',
  'Decoding an encoded metadata record yields the same record for every combination of values; records can be streamed, skipped and concatenated, unknown future fields are ignored, and truncated or corrupt input is reported rather than misread. Metadata archives can be created, listed and extracted without touching anything outside the target.',
  ['inputs'],
  'every metadata value combination (ids, modes, extreme and negative times, long names, xattrs, ACLs) and every corruption of its encoding',
  'Values are unbounded integers and byte strings; tests encode a few.',
  ['lib/bup/metadata.py', 'lib/bup/vint.py', 'lib/bup/_helpers.c', 'lib/bup/cmd/meta.py', 'lib/bup/xstat.py'],
  [('variable length integers', 'lib/bup/vint.py, lib/bup/_helpers.c'), ('record tags', 'lib/bup/metadata.py')],
  ['decoded vs original records; independent decoder'])

p('P20', 'Native code never corrupts memory or leaks errors',
  'For every input that reaches it, the compiled code performs no out-of-bounds or use-after-free access, no undefined arithmetic and no crash; bad input is reported as an ordinary error.',
  ['inputs', 'configurations'],
  'every argument combination the Python layer can pass and every file or stream content, including pipes, growing files and truncated caches',
  'Ordinary test runs do not notice out-of-bounds reads or undefined arithmetic.',
  ['lib/bup/_helpers.c', 'lib/bup/_hashsplit.c', 'lib/bup/bupsplit.c', 'lib/cmd/bup.c'],
  [('buffer and integer handling', 'lib/bup/_helpers.c'), ('splitter buffers', 'lib/bup/_hashsplit.c')],
  ['AddressSanitizer / UndefinedBehaviorSanitizer reports while running the real workloads'])

p('P21', 'Indexing and saving select and place exactly the paths requested',
  'A save contains exactly the paths under the requested roots minus those matched by the exclusion options (exact paths, regular expressions, files listing them, filesystem boundaries), placed in the save where the strip and graft options say. A prefix matches only whole path components.',
  ['inputs', 'configurations'],
  'every tree x exclusion/strip/graft option combination x set of requested paths',
  'Option interactions and prefix look-alikes are unbounded; tests use a few.',
  ['lib/bup/cmd/index.py', 'lib/bup/drecurse.py', 'lib/bup/helpers.py', 'lib/bup/cmd/save.py'],
  [('recursion and exclusion', 'lib/bup/drecurse.py'), ('strip and graft', 'lib/bup/helpers.py')],
  ['paths in index and save vs reference model'])

p('P22', 'Failures are never silent',
  'If any requested file cannot be read, any output cannot be written, or any disk operation fails, the command exits non-zero and says so; everything else it was asked to save is still saved, and existing data is unharmed.',
  ['fault_sequences'],
  'every single failure (I/O error, no space, unreadable or vanishing file, write error on output) at every system call of each command',
  'Tests do not inject system-call failures.',
  ['lib/bup/cmd/save.py', 'lib/bup/cmd/index.py', 'lib/bup/cmd/restore.py', 'lib/bup/cmd/split.py', 'lib/bup/cmd/join.py', 'lib/bup/git.py', 'lib/bup/helpers.py', 'lib/bup/io.py'],
  [('deferred error collection', 'lib/bup/helpers.py add_error / saved_errors')],
  ['exit status, stderr and repository state after an injected failure at the n-th call'],
  hook='LD_PRELOAD shim that fails the n-th matching call (no source change)')

p('P23', 'Data already stored is not stored again',
  'Saving or splitting content that is already in the repository adds no new file-content objects, and a small local edit to a large file adds only storage proportional to the edit, regardless of what was saved in between or which index caches exist.',
  ['inputs', 'histories'],
  'every stream and edit (insert, delete, overwrite anywhere) x every earlier history x cache state',
  'Tests check one or two duplicate saves; edit locality is a property of every stream.',
  ['lib/bup/hashsplit.py', 'lib/bup/git.py', 'lib/bup/bupsplit.c', 'lib/bup/cmd/split.py', 'lib/bup/cmd/save.py'],
  [('existence check before write', 'lib/bup/git.py PackWriter'), ('content-defined boundaries', 'lib/bup/bupsplit.c')],
  ['new objects per operation from the pack indexes'])

p('P24', 'Restore writes only where told and honours its options',
  'Restoring any save writes only beneath the chosen output directory, even when entries there are symlinks or have hostile names in the save, and the exclusion, sparse, numeric-id and ownership-mapping options have exactly their documented effect. What is written is exactly what the requested paths select.',
  ['inputs', 'configurations'],
  'every saved tree x pre-existing output directory x restore path form and options',
  'Tests restore into empty directories with a few option combinations.',
  ['lib/bup/cmd/restore.py', 'lib/bup/metadata.py', 'lib/bup/vfs.py'],
  [('path selection', 'lib/bup/cmd/restore.py'), ('owner maps', 'lib/bup/cmd/restore.py, lib/bup/metadata.py'), ('sparse writes', 'lib/bup/_helpers.c, lib/bup/helpers.py')],
  ['output and outside directories vs reference model'])

p('P25', 'Every save and tag is recorded where and as requested',
  'A successful save or split advances exactly the named branch by exactly one commit whose parent is the previous tip, with the requested date, a well-formed author and message and the right tree, and any branch name git accepts. Tags name the requested commit and are never overwritten or deleted unless forced or asked; invalid names are refused.',
  ['inputs', 'histories', 'configurations'],
  'every sequence of save/split/tag commands x names, dates, identities and time zones',
  'Dates, identities and names are unbounded; tests use fixed ones.',
  ['lib/bup/cmd/save.py', 'lib/bup/cmd/split.py', 'lib/bup/cmd/tag.py', 'lib/bup/commit.py', 'lib/bup/git.py'],
  [('commit encoding', 'lib/bup/commit.py, lib/bup/git.py'), ('ref validity', 'lib/bup/git.py valid_save_name')],
  ['git log of the branch, refs before/after, bup ls of the branch'])

p('P26', 'Multiplexed command transport is transparent',
  'Running a command through the multiplexing transport (or on a remote host) delivers exactly the bytes it wrote to each output stream, in order, and its exit status, for every interleaving and size of writes; a broken or truncated stream is reported as an error, never as a normal end.',
  ['inputs', 'schedules', 'fault_sequences'],
  'every sequence of writes to both streams, chunking, and truncation point',
  'Tests send one short message.',
  ['lib/bup/helpers.py', 'lib/bup/cmd/mux.py', 'lib/bup/cmd/demux.py', 'lib/bup/cmd/on.py'],
  [('mux framing', 'lib/bup/helpers.py mux / DemuxConn')],
  ['bytes and exit status at the far end'])

for d in P:
    sys.stdout.write(json.dumps(d) + '\n')
