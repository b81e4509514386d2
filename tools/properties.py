"""The properties."""
F = "zielen/filelogic.py"
S = "zielen/commands/sync.py"
PROPERTIES = [
 dict(id="P01", title="After a sync the local and the remote directory agree",
  statement="After any successful sync, every path in the remote directory is in the local directory, either as an identical copy or as a placeholder that leads to it, and every local path that isn't excluded is in the remote directory with the same type and contents.",
  over=["histories", "inputs", "configurations"],
  **{"for": "all histories of edits, deletions, renames, type changes and link operations on either side by several clients, all settings and exclude patterns"},
  tests="The tests run single helper functions or one sync on fixed trees; agreement depends on the whole history and on how every step of a sync composes.",
  files=[S, F, "zielen/userdata.py", "zielen/profile.py"],
  how=[("sync algorithm", "zielen/commands/sync.py SyncCommand.main"), ("update_local/update_remote", F)]),
 dict(id="P02", title="No contents are lost",
  statement="The contents of any file that a user didn't delete or overwrite are, after every command, still in some client's local directory, in the remote directory or in its trash. What goes through a sync, an initialization, a reset or the trash is never destroyed by a change that someone else made.",
  over=["histories", "inputs", "configurations"],
  **{"for": "all histories of user actions and commands of several clients with any settings"},
  tests="Loss shows only after particular combinations of concurrent changes; the tests check a few of them for the final listing only.",
  files=[S, F, "zielen/commands/reset.py", "zielen/commands/init.py"],
  how=[("compute_deleted", F), ("handle_conflicts, rename_clashing_files", F), ("trash_files", F)]),
 dict(id="P03", title="A conflict keeps both versions",
  statement="When a file was changed on both sides since the last sync, the version modified last keeps the name and the other one is kept, unchanged, under a conflict name that no other file had, on both sides. The same holds when a path is a file on one side and a directory on the other: the file gets another name and the directory stays. Nothing else is renamed.",
  over=["histories", "inputs"],
  **{"for": "all histories in which both sides change the same paths, including additions, type changes and files that already have conflict names"},
  tests="Tests cover one conflict between two modified files at a time; several conflicts in one sync, name collisions, and clashes of types aren't reached.",
  files=[F, S, "zielen/utils.py"],
  how=[("handle_conflicts", F), ("rename_clashing_files", F), ("timestamp_path", "zielen/utils.py")]),
 dict(id="P04", title="A change made on one side only takes effect on both",
  statement="A file or directory that was added or modified on one side only, since the last sync of a client, has that version in both directories after its next sync. What wasn't changed on either side stays as it is, and nothing appears that neither side had.",
  over=["histories", "inputs", "configurations"],
  **{"for": "all histories of additions and modifications by any of the clients"},
  tests="Detection depends on modification times, sync times and the recorded rows left by all previous syncs of all clients; tests start from a fresh initialization.",
  files=[F, "zielen/userdata.py", "zielen/profile.py"],
  how=[("compute_added, compute_modified", F), ("time of last sync", "zielen/profile.py ProfileInfoFile")]),
 dict(id="P05", title="Deletions propagate, and only deletions do",
  statement="A path deleted on one side is deleted from the other side by the next sync unless something in it is new or was changed there since. No path is ever removed from either side for another reason, except what everyone excludes.",
  over=["histories", "inputs", "configurations"],
  **{"for": "all histories of deletions of files and directories on either side, combined with changes on the other"},
  tests="The tests delete single files; combinations of deletions with changes below the same directory by other clients aren't reached.",
  files=[F, S, "zielen/userdata.py"],
  how=[("compute_deleted", F), ("rm_local_files, rm_remote_files, _rm_files", F)]),
 dict(id="P06", title="Files deleted as placeholders go to the trash",
  statement="If the trash is in use, a path whose local copy was a placeholder when the user deleted it is moved from the remote directory to the trash with everything in it, once, without overwriting anything that is already there; a path that was kept locally is deleted for good. If the trash is not in use, nothing enters it.",
  over=["histories", "configurations"],
  **{"for": "all histories of deletions with any placement of files, repeated names, and either setting"},
  tests="Tests move single files to an empty trash; name collisions, directories, mixed placement and links aren't covered.",
  files=[F, S], how=[("trash_files", F), ("rm_remote_files", S)]),
 dict(id="P07", title="The trash keeps things for as long as it should",
  statement="Anything in the trash stays there, unchanged, until the configured period has passed since it was put there, and is removed by the first sync after that; with no period it stays forever. Emptying the trash removes everything in it and touches nothing else.",
  over=["histories", "configurations"],
  **{"for": "all ages, periods (including none and zero) and contents of the trash"},
  tests="Tests check one file with one age.",
  files=[F, "zielen/profile.py", "zielen/commands/emptytrash.py"],
  how=[("cleanup_trash", F), ("cleanup_period", "zielen/profile.py"), ("EmptyTrashCommand", "zielen/commands/emptytrash.py")]),
 dict(id="P08", title="Excluded files stay where they are",
  statement="A local file that matches the exclude patterns of a client is never uploaded, deleted or replaced by a placeholder; if a copy was synced before, it stays in the remote directory for as long as some client doesn't exclude it, and is removed from there, but not locally, once all do.",
  over=["histories", "configurations", "inputs"],
  **{"for": "all sets of patterns of several clients, changed at any time, and all histories of edits"},
  tests="Tests use a fixed pattern with one client; the removal rule depends on the patterns that every client last shared.",
  files=[F, S, "zielen/profile.py", "zielen/userdata.py"],
  how=[("check_excluded", "zielen/userdata.py"), ("rm_excluded_files", F), ("all_exclude_matches", "zielen/profile.py")]),
 dict(id="P09", title="The storage limit is respected",
  statement="After a sync, the disk usage of the synced files that are kept in the local directory, of the placeholders for the others, and of excluded local files together doesn't exceed the storage limit, unless the placeholders and excluded files alone already do.",
  over=["histories", "configurations", "inputs"],
  **{"for": "all limits, file sizes, priorities, exclusions and directory structures"},
  tests="Tests use one tree with a handful of sizes.",
  files=[F, S], how=[("prioritize_files, prioritize_dirs", F), ("get_excluded_size", F)]),
 dict(id="P10", title="The files with the highest priority are kept",
  statement="The files kept locally after a sync are exactly those that the documented policy selects: whole directories first, in order of priority (relative to size if so configured), then single files, each if it still fits; all other files are placeholders.",
  over=["histories", "configurations", "inputs"],
  **{"for": "all priorities, sizes, limits and directory structures, with and without taking size into account"},
  tests="Tests select from one fixed tree.",
  files=[F], how=[("prioritize_files", F), ("prioritize_dirs", F), ("compute_stale", F)]),
 dict(id="P11", title="Priorities are accounted for correctly",
  statement="A sync leaves the priority of known files as it is, gives a new local file the highest existing priority if so configured and no priority otherwise, and the priority of a directory is always the sum of those of the files in it.",
  over=["histories", "configurations"],
  **{"for": "all histories of additions, deletions, conflicts, renames and accesses"},
  tests="Tests check single database calls, not the rows after a history of syncs.",
  files=["zielen/profile.py", F, S],
  how=[("add_paths, add_inflated, increment, _update_priority", "zielen/profile.py")]),
 dict(id="P12", title="The databases describe the directories",
  statement="After a sync, both the database of the profile and the one in the remote directory list exactly the files and directories that are in the remote directory, with their types, what is kept locally, and the time at which each was last uploaded.",
  over=["histories", "inputs", "configurations"],
  **{"for": "all histories of edits and syncs of several clients"},
  tests="Tests look at single rows after single calls.",
  files=["zielen/profile.py", "zielen/userdata.py", F],
  how=[("ProfileDBFile", "zielen/profile.py"), ("RemoteDBFile", "zielen/userdata.py"), ("rm_missing_paths", F)]),
 dict(id="P14", title="Initializing a profile moves or adopts the files",
  statement="Initializing a profile from a local directory moves every file that isn't excluded or an unsafe link to the remote directory and leaves a placeholder in its place; initializing one from a remote directory creates a placeholder for each of its files and leaves the files as they are. Afterwards the profile is complete and both databases list the files.",
  over=["histories", "inputs", "configurations"],
  **{"for": "all initial trees, exclude patterns and settings, first clients and later ones, after any history"},
  tests="Tests initialize one fixed tree.",
  files=["zielen/commands/init.py", F], how=[("setup_from_local, setup_from_remote", F), ("InitCommand.main", "zielen/commands/init.py")]),
 dict(id="P15", title="A refused initialization changes nothing",
  statement="Initialization is refused, with an error message, exactly if the name, the settings, the files given to it or one of the directories are invalid, or the profile exists; a refused one changes no file and no profile.",
  over=["inputs", "configurations", "histories"],
  **{"for": "all combinations of invalid names, settings, paths and directory contents"},
  tests="Tests check a few single validation functions.",
  files=["zielen/commands/init.py", "zielen/profile.py"],
  how=[("InitCommand.main", "zielen/commands/init.py"), ("check_value", "zielen/profile.py")]),
 dict(id="P16", title="Resetting a profile brings the files back",
  statement="Resetting a profile replaces every placeholder by the file it stands for (or removes it, if the user doesn't want the files), keeps all local changes, removes the profile, and only removes the remote files if the user didn't ask to keep them and all of them were retrieved. If something would be overwritten it is refused and changes nothing.",
  over=["histories", "configurations", "inputs"],
  **{"for": "all histories before the reset and all its options"},
  tests="Tests reset one fixed tree per option.",
  files=["zielen/commands/reset.py", F], how=[("ResetCommand.main", "zielen/commands/reset.py")]),
 dict(id="P22", title="Symbolic links are synced as links, and only safe ones are",
  statement="A relative link that stays inside the directory is synced as a link with the same target; a link that is absolute or leads outside is never uploaded, followed or changed. No file is read or written through a link.",
  over=["histories", "inputs"],
  **{"for": "all trees with links to files, to directories, to nothing, in loops and out of the tree"},
  tests="Tests have one link of each kind in one tree.",
  files=["zielen/fstools.py", "zielen/userdata.py", F],
  how=[("is_unsafe_symlink", "zielen/fstools.py"), ("symlink_tree, transfer_tree", "zielen/fstools.py")]),
 dict(id="P23", title="Files keep their contents, permissions and times",
  statement="Every file in either directory after a sync has the contents, the permissions and the modification time of a version that a user put at that path (or at the path it was renamed from in a conflict), all three from the same version.",
  over=["histories", "inputs"],
  **{"for": "all histories and all contents, permissions and modification times"},
  tests="Tests compare contents of single transfers.",
  files=["zielen/fstools.py", F], how=[("transfer_tree, shutil.copy2 to a temporary file", "zielen/fstools.py")]),
 dict(id="P25", title="The result of a sync is determined",
  statement="The trees and databases after a sync are a function of those before it, the settings and the patterns: both directories and both databases are exactly what the specified algorithm gives.",
  over=["histories", "inputs", "configurations"],
  **{"for": "all states reachable by histories of user actions and commands of several clients"},
  tests="Tests compare parts of the result in a handful of states.",
  files=[S, F, "zielen/profile.py", "zielen/userdata.py"], how=[("SyncCommand.main", S)]),
 dict(id="P26", title="A command affects only its own client",
  statement="A command on one profile doesn't change the local directory, the database or the status of any other profile.",
  over=["histories", "configurations"],
  **{"for": "all histories of commands of several clients that share a remote directory"},
  tests="Tests have a single profile.",
  files=["zielen/commandbase.py", "zielen/profile.py", F], how=[("select_profile", "zielen/commandbase.py")]),
 dict(id="P13", title="An interrupted sync does no harm",
  statement="If a sync is killed at any moment, no contents are lost, and running it again leads to the directories that it would have led to: nothing is deleted, duplicated or forgotten because of the interruption, and other clients see every change.",
  over=["crash_points", "histories"],
  **{"for": "every call that changes a file or a database, in syncs from all states reachable by histories, followed by syncs of any client"},
  tests="No test interrupts anything.",
  files=[S, F, "zielen/fstools.py", "zielen/profile.py", "zielen/userdata.py"],
  how=[("SyncCommand.main", S), ("replace_with_symlink, transfer_tree", "zielen/fstools.py"), ("database transactions", "zielen/containerbase.py")]),
 dict(id="P27", title="A sync that meets an I/O error says so and does no harm",
  statement="If any call that changes a file or a database fails, once or from then on, a sync either still does all that it should or reports an error; it never loses contents, and once the cause is gone the next sync does all that this one should have done.",
  over=["fault_sequences", "histories"],
  **{"for": "a failure of every call that changes a file or database with EIO, ENOSPC or EACCES, in syncs from all states reachable by histories"},
  tests="No test makes a call fail.",
  files=[S, F, "zielen/fstools.py", "zielen/profile.py", "zielen/userdata.py"],
  how=[("transfer_tree", "zielen/fstools.py"), ("SyncCommand.main", S)]),
 dict(id="P28", title="While a sync runs, every path has an old or a new version",
  statement="At every moment during a sync, or after it is interrupted, a file at any path is a complete version from before or after it, and a path that exists both before and after it exists all the time.",
  over=["crash_points", "histories"],
  **{"for": "every call that changes a file, in syncs from all states reachable by histories"},
  tests="No test looks at the directories while a sync runs.",
  files=["zielen/fstools.py", F],
  how=[("replace_with_symlink", "zielen/fstools.py"), ("transfer_tree", "zielen/fstools.py"), ("update_local", F)]),
 dict(id="P30", title="A remote directory that isn't there is never taken for an empty one",
  statement="As long as the remote directory is gone, or what is at its path is an empty directory, something unrelated, unreadable or a file, sync, empty-trash and reset (unless told not to retrieve files) fail, and neither directory, the profile nor what is at the path of the remote directory changes, however often they are tried. Once it is back, a sync does what it would have done otherwise. If it disappears at any moment during a sync, the sync loses nothing and doesn't claim to have succeeded unless it has, and the next one completes it.",
  over=["fault_sequences", "histories", "crash_points"],
  **{"for": "every form in which the remote directory may be unavailable, before every command and at every moment of a sync, in all states reachable by histories"},
  tests="No test runs a command without its remote directory.",
  files=[S, "zielen/commands/reset.py", "zielen/commands/emptytrash.py", F, "zielen/userdata.py", "zielen/containerbase.py"],
  how=[("safe_path", "zielen/userdata.py"), ("add_exclude_file", "zielen/userdata.py"), ("_transact", "zielen/containerbase.py"), ("ResetCommand.main", "zielen/commands/reset.py")]),
 dict(id="P29", title="Exclude patterns mean what the manual says",
  statement="Which files are excluded by a line of the exclude file is what the manual says, for every pattern and every tree: what comments, asterisks, double asterisks, question marks, brackets, and slashes at the beginning or end match, that hidden files are only matched by patterns with a dot, and that everything in an excluded directory is excluded.",
  over=["inputs", "histories"],
  **{"for": "all patterns up to a length over an alphabet of all special characters, in a tree of awkward names, and random patterns in random histories of several clients"},
  tests="The tests of excluded files use a single pattern without special characters.",
  files=["zielen/profile.py", S, F],
  how=[("ProfileExcludeFile._glob", "zielen/profile.py"), ("_readlines", "zielen/profile.py"), ("all_matches", "zielen/profile.py"), ("all_exclude_matches", "zielen/profile.py")]),
 dict(id="P17", title="An interrupted set-up of a profile can be done again",
  statement="If an init is killed or meets an I/O error at any moment, nothing is lost, every file is in one of the directories as it was, and the profile is either set up completely or can't be used. Running the same init again then completes it, to the same result as one that wasn't interrupted.",
  over=["crash_points", "histories", "configurations"],
  **{"for": "every call that changes a file or a database, in inits of either kind over all trees and settings, followed by attempts to use the profile, the same init and syncs of all clients"},
  tests="No test interrupts an init.",
  files=["zielen/commands/init.py", "zielen/profile.py", "zielen/containerbase.py", F],
  how=[("InitCommand.main", "zielen/commands/init.py"), ("Profile.generate, Profile.write", "zielen/profile.py"), ("setup_from_local, setup_from_remote", F)]),
 dict(id="P18", title="An interrupted reset does no harm",
  statement="If a reset is killed or meets an I/O error at any moment, nothing is lost: nothing is removed from the remote directory before all of it was retrieved, no later sync of any client takes what was removed for files deleted by a user, and the reset can be completed, if need be without the remote directory.",
  over=["crash_points", "histories"],
  **{"for": "every call that changes a file or a database, in resets with all options from all states reachable by histories, followed by resets, syncs and inits of any client"},
  tests="No test interrupts a reset.",
  files=["zielen/commands/reset.py", "zielen/profile.py", "zielen/fstools.py"],
  how=[("ResetCommand.main", "zielen/commands/reset.py"), ("Profile.remove", "zielen/profile.py")]),
 dict(id="P19", title="Commands on one profile exclude each other",
  statement="While a command works on a profile, any other command on it is refused and changes nothing; commands on other profiles aren't. A command acts on the state that the profile and the directories have when it gets its turn, however long ago it was started, and a command that has ended or was killed blocks nobody.",
  over=["schedules", "histories"],
  **{"for": "all schedules of starting, locking, finishing and killing commands of every kind on one profile, with edits and commands on other profiles in between"},
  tests="No test runs more than one command at a time.",
  files=["zielen/commandbase.py", "zielen/commands/init.py", "zielen/profile.py"],
  how=[("lock, unlock, setup_profile", "zielen/commandbase.py"), ("cleanup of a refused initialization", "zielen/commands/init.py")]),
 dict(id="P20", title="Syncing without changes settles, and then changes nothing",
  statement="If nobody changes anything, a client that syncs again changes neither its local directory nor the remote one; once every client has synced, nothing is uploaded, renamed or removed in the remote directory any more, and after two rounds of syncs nothing changes at all and every client has, or links to, the same files.",
  over=["histories", "configurations"],
  **{"for": "all states reachable by histories of user actions and commands of several clients with any settings, followed by rounds of syncs of all clients without changes"},
  tests="Tests run one sync; a pair of clients that keep undoing each other's work, or a sync that repeats its own, is seen only in sequences of syncs.",
  files=[S, F, "zielen/userdata.py"],
  how=[("SyncCommand.main", S), ("compute_added, compute_modified, compute_deleted", F), ("prioritize_files", F)]),
 dict(id="P24", title="The daemon counts every access and starts every sync",
  statement="While the daemon runs, every time that a file in the local or remote directory is opened is added to its priority exactly once, apart from repetitions within a second, even if a sync keeps the database locked meanwhile; priorities are halved every half-life and a directory has those of what is in it. A sync is started whenever the interval, as it is configured now, has passed, and not before. Neither the daemon nor a sync undoes what the other one stores.",
  over=["schedules", "histories", "configurations"],
  **{"for": "all schedules of accesses, of the threads of the daemon and of syncs that use the database for any time, with changes of settings, restarts and edits in between"},
  tests="The daemon isn't tested at all; what it does depends on the clock, on the order of events and on when the database is locked.",
  files=["zielen/daemon.py", "zielen/profile.py", "zielen/containerbase.py", S],
  how=[("main, _adjust, _sync", "zielen/daemon.py Daemon"), ("increment, adjust_all", "zielen/profile.py ProfileDBFile"), ("transactions", "zielen/containerbase.py SyncDBFile")]),
]
