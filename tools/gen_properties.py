#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only because JSONL is painful to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": mech, "where": ", ".join(files)}], "hook_needed": None}})

p("C01", "Unlocked items show exactly what the vault stores",
  "After unlocking with the correct password, every item of a known category in every band file is available exactly once, and its item view (command line and GUI) carries precisely the stored title, URL, notes, timestamps (in local time), trashed flag, login fields and section fields, in stored order. Labels and section titles are capitalised, calendar dates are shown as YYYY-MM-DD, month/year values as YYYY-MM and addresses as one indented line per part; no other value is altered, dropped, duplicated or attributed to another item; the GUI shows all of it whatever its line ends and characters (characters of two cells included), with control characters as blanks.",
  ["inputs"], "for every well-formed OPVault: any number of bands, items, sections and fields, any plaintext lengths, Unicode text, any vault directory name, compact or pretty-printed band files",
  "The tests decode one sample vault and only count items or compare a couple of fields; padding lengths, band merging, field kinds and directory names vary without bound.",
  ["1pass-core/core/service/itemservice.go", "1pass-core/core/service/keyservice.go", "1pass-core/core/domain/datatype.go", "1pass-parse/repo/file/itemrepo.go", "1pass-term/control/cobra/clicontrol.go"],
  "band parsing -> opdata decoding -> item assembly -> printing")
p("C02", "Only the exact master password unlocks a vault",
  "Unlocking succeeds if and only if the supplied password is, character for character, the vault's master password. With any other password (including near misses in case, spacing, length or Unicode form, and vaults whose key material does not belong to the password) the user gets 'invalid password', the vault stays locked and no item data is shown, on the command line and in the GUI alike.",
  ["inputs", "histories"], "for every password/guess pair, every vault key material, and any history of failed attempts before or after",
  "The tests try one right and one wrong password on one vault.",
  ["1pass-core/core/facade/vaultfacade.go", "1pass-core/core/service/keyservice.go", "1pass-app/gui/1passwidget.go", "1pass-term/control/cobra/clicontrol.go"],
  "PBKDF2 derivation and HMAC check on both profile key blobs")
p("C03", "Tampered or corrupted vault data is never presented and never spreads",
  "If the stored ciphertext of an item's overview, details or keys is altered in any way (bit flips, truncation, extension, emptied, reordered blocks, or overviews, details or keys, one or several of them, exchanged with another item's), the altered part shows none of its own or any foreign content: it appears blank, never as altered or garbage text (an alteration of the base64 text that leaves the stored bytes as they were may still show the authentic content). Every other item of the vault is unaffected and the program does not crash; altered profile key blobs make every password be rejected.",
  ["inputs", "fault_sequences"], "for every vault, every blob in it and every byte-level alteration of that blob",
  "No test feeds a corrupted vault; the space of alterations is unbounded.",
  ["1pass-core/core/service/keyservice.go", "1pass-core/core/service/itemservice.go"],
  "encrypt-then-MAC verification before decryption; per-item containment")
p("C04", "Locking closes the vault; unlocking again restores it faithfully",
  "After a lock, and before the next successful unlock, no item, count or item text is obtainable and the GUI screen contains none of the vault's content, whichever screen the lock was issued from. A later unlock with the correct password shows exactly the items then stored on disk, the same as a fresh start would, after any number of lock/unlock cycles and failed attempts.",
  ["histories"], "for every sequence of unlock (right or wrong password), browse, query and lock operations, with the vault changing on disk between unlocks",
  "Tests perform a single lock on one vault; stale state needs particular multi-step histories to show.",
  ["1pass-core/core/facade/vaultfacade.go", "1pass-core/core/service/itemservice.go", "1pass-parse/repo/file/itemrepo.go", "1pass-app/gui/1passwidget.go", "1pass-app/gui/itemswidget.go"],
  "lock clears decoded items and keys and returns to the password prompt")
p("C05", "Listings and overviews never reveal secret values",
  "The item list, the item overview (command line and GUI) and the GUI category and item screens are independent of secret content: two vaults that differ only in field values and notes text produce identical output. Field values and notes text appear only in the details view, after the user explicitly asked for it, and are covered again when the user leaves it.",
  ["inputs", "histories"], "for every vault and every assignment of secret values, every list/overview invocation and every GUI key sequence that is not in the revealed state",
  "A test would have to compare outputs over all secret values; none inspects overview output at all.",
  ["1pass-term/control/cobra/clicontrol.go", "1pass-app/gui/detailswidget.go", "1pass-app/gui/itemswidget.go"],
  "masking of values in the overview rendering; reveal/cover toggling")
p("C06", "Listing, filtering, counting and lookup select exactly the right items",
  "A listing returns exactly the items whose trashed state equals the requested one, whose category equals the requested category (if any, named case-insensitively), and whose title contains the requested text case-insensitively (if any), ordered by category code then title, each once, and an unchanged vault is listed in the same order by every run (equal titles included). Counts equal the length of the matching listing, lookup by UID finds exactly the item with that UID and trashed state or reports that none exists, and an unknown category name is rejected.",
  ["inputs"], "for every vault content and every combination of category, title filter, trashed flag and UID",
  "Tests count three fixed filters on the sample vault and never check order, titles or negatives.",
  ["1pass-parse/repo/file/itemrepo.go", "1pass-core/core/service/itemservice.go", "1pass-term/control/cobra/clicontrol.go", "1pass-core/core/domain/itemcategory.go"],
  "repository filters, sorting, UID lookup, category enumeration")
p("C07", "The vault is never modified and nothing is written outside its own files",
  "Whatever command or GUI session is run, and whether it succeeds, fails or is refused, the vault directory tree is byte-for-byte and entry-for-entry unchanged. The only files created, written, renamed or deleted are the program's own settings and last-check files in its configuration directory and, during a confirmed update only, the update cache directory and the program's own executable.",
  ["inputs", "histories", "fault_sequences"], "for every command, argument, GUI key sequence, vault (intact or corrupt) and configuration state",
  "Tests never observe the file system effects of a command.",
  ["1pass-parse/repo/file/itemrepo.go", "1pass-parse/repo/file/profilerepo.go", "1pass-parse/repo/file/configrepo.go", "1pass-up/component/github/updater.go", "1pass-core/core/service/updateservice.go"],
  "read-only vault access; mutations confined to configuration directory, cache and own binary")
p("C08", "The right vault is opened, and checked before any password is asked",
  "Commands that open a vault (list, overview, details, GUI) use the path given with the vault flag if there is one and the configured default otherwise, and never any other vault. If that path is not a directory holding a 'default/profile.js' file, the command prints an 'invalid vault' message naming the problem path and exits with non-zero status without asking for a password; otherwise (profile file intact) it asks for the password.",
  ["inputs", "configurations"], "for every flag value, configured default and file-system state at these paths (missing, file instead of directory, directory instead of file, symlinks, odd names)",
  "Tests validate three fixed paths at service level; flag/default precedence and the ordering with the prompt are untested.",
  ["1pass-core/core/service/vaultservice.go", "1pass-term/control/cobra/clicontrol.go", "1pass-term/control/gocui/guicontrol.go", "1pass-app/gui/gocui.go", "1pass-app/cli/cobra.go"],
  "vault path resolution and validation before prompting")
p("C09", "Settings survive: what is saved is what later runs read",
  "Saved settings (default vault path, notification flag, timeout, check period) are read back with exactly the same values and types by the saving process and by every later process, whatever characters the path contains. Settings missing from the file take the documented defaults (timeout 1 s, notifications on, period 1 day, no vault), and entries of the file the program does not know are preserved by a save.",
  ["inputs", "histories"], "for every setting value, every prior file content (absent, empty, comments only, subset of keys, extra keys) and every sequence of saves and restarts",
  "Tests save two values of one setting; YAML-hostile paths and partial or empty files are not sampled.",
  ["1pass-parse/repo/file/configrepo.go", "1pass-core/core/service/configservice.go", "1pass-core/core/facade/configfacade.go"],
  "YAML load/merge/save of the settings file")
p("C10", "The configuration dialog applies exactly the valid answers",
  "Running the configuration dialog (explicitly, or automatically before the first vault command when no settings exist) changes exactly the settings validly answered: the path as typed (surrounding blanks ignored) when the user said yes, notifications on y or n in any case, timeout for whole numbers 1 to 30, period for whole numbers 0 to 365. Any other answer to a yes/no or number question (empty, out of range, not a number, end of input) leaves that setting as it was, one line answers one question, and the result is saved.",
  ["inputs", "configurations"], "for every sequence of answer lines, from every prior configuration",
  "The dialog is interactive; no test drives it.",
  ["1pass-term/control/cobra/clicontrol.go", "1pass-core/core/domain/logicval.go", "1pass-app/cli/cobra.go"],
  "prompt/answer parsing and range checks")
p("C11", "Saving settings is all-or-nothing across crashes and I/O errors",
  "If the program is killed or hits an I/O error (disk full, permission, short write) at any point while saving settings, a later run finds either the complete previous settings or the complete new ones, never a truncated, empty or mixed file. When the save could not be done, the program does not claim success.",
  ["crash_points", "fault_sequences"], "for every file-system operation the save performs, and a crash before it, in the middle of it, or an error returned from it",
  "Unit tests cannot stop the process between two system calls or make one fail.",
  ["1pass-parse/repo/file/configrepo.go"],
  "settings file replacement")
p("C12", "Only a newer, confirmed release with a matching checksum is installed",
  "The update command replaces the executable only if the latest published release is newer than the running version, the user answered yes, every HTTPS server contacted presented a valid certificate for its name, and the MD5 of the new executable from the downloaded archive equals the published checksum; then, and only then, the executable's content becomes exactly that of the archived program, still executable, and success is reported. In every other case (not newer, declined, no answer, wrong or empty checksum, missing or damaged download, archive without the program) the executable is untouched and success is not reported.",
  ["inputs", "fault_sequences"], "for every release description, archive, checksum file, server reply and user answer",
  "Tests only check that a bad host fails; no release server is available to them.",
  ["1pass-core/core/service/updateservice.go", "1pass-up/component/github/updater.go", "1pass-term/control/cobra/clicontrol.go"],
  "check, confirm, download, extract, verify, replace")
p("C13", "An update interrupted anywhere leaves a complete working executable",
  "If the update is killed, or any file, network or disk operation in it fails, at any point, the executable at its installed path is either the complete previous program or the complete verified new one with its permissions, and never missing, partial or mixed. A later update run from that state succeeds, whatever leftovers the interrupted one left behind.",
  ["crash_points", "fault_sequences"], "for every operation of the update sequence, and a crash before or inside it, or an error from it",
  "Unit tests cannot crash the process mid-update.",
  ["1pass-core/core/service/updateservice.go", "1pass-up/component/github/updater.go"],
  "cache directory reset, staged download, atomic replacement by rename")
p("C14", "Archive extraction never writes outside its target directory",
  "Unpacking a downloaded archive creates or changes files only inside the extraction directory, whatever entry names, link entries, duplicates or odd entry types the archive contains; well-formed flat archives (as the published releases are) are unpacked with every regular file's exact content. An entry that would land elsewhere is refused or kept inside.",
  ["inputs"], "for every archive: any entry names (absolute, parent references, nested), types, order and sizes, truncated or corrupt streams",
  "The only test archive is a benign one.",
  ["1pass-up/component/github/updater.go"],
  "tar entry to target path mapping")
p("C15", "Update checks respect the notification switch and the check period",
  "With notifications off, no command-line command except 'update' makes any network contact; with notifications on, 'list', 'overview', 'details', 'categories' and 'configure' make a check if and only if no valid last-check record exists or at least the configured number of whole days passed since it (period 0: every run), and the notice is printed exactly when a newer release exists. The last-check record is renewed after a successful check and only then, and a failed check neither renews it nor prints a notice.",
  ["configurations", "histories", "fault_sequences"], "for every notification/period setting, last-check record content and age, server reply and command",
  "Tests check one period with a record they just wrote; no network is observed.",
  ["1pass-core/core/service/updateservice.go", "1pass-up/component/github/updater.go", "1pass-term/control/cobra/clicontrol.go"],
  "period throttle and timestamp file around the release query")
p("C16", "A release is offered if and only if its version is really newer",
  "Versions are compared component by component as numbers (a missing component counts as zero, a leading 'v' is ignored): a release is announced and offered exactly when its version is greater than the running one. Equal, older, empty or non-numeric versions are never offered, and the version shown is the published one.",
  ["inputs"], "for every published version string, relative to the running version",
  "There is no test with any release reply.",
  ["1pass-up/component/github/updater.go", "1pass-core/core/service/updateservice.go"],
  "release tag parsing and comparison")
p("C17", "A failing or hostile update check never breaks or hangs the vault",
  "Whatever the update server does (refuses, errors, sends garbage, incomplete or unexpected JSON, stalls before or in the middle of a reply), vault commands, the configuration dialog and the GUI give exactly the same results and exit status as with no network, apart from the update notice, and are not held up much longer than the configured timeout. The program never crashes because of a reply.",
  ["fault_sequences", "inputs", "schedules"], "for every server behaviour, reply body and timing, for every command and GUI session",
  "Tests have no server; malformed replies and stalls are not sampled.",
  ["1pass-up/component/github/updater.go", "1pass-app/gui/versionwidget.go", "1pass-term/control/cobra/clicontrol.go"],
  "HTTP client timeouts, reply parsing, background check in the GUI")
p("C18", "The GUI acts on what is highlighted and survives any key sequence",
  "In the GUI, the highlighted category is the one opened, the item list shows exactly that category's items (or all, or the trashed ones), each on one row whatever its title contains, and the details pane always describes the highlighted item, revealed or covered as the user chose, with every line of it reachable by scrolling. No sequence of keys, scrolling, locking and unlocking, on any terminal of reasonable size, makes the program crash, get stuck or show one entry while acting on another; Ctrl+Q quits from every screen with status zero and gives the terminal back.",
  ["histories", "inputs"], "for every vault (including empty, only trashed, no trashed, one category, longer than the screen), every key sequence and terminal sizes from 70x12 up",
  "The GUI has no tests; selection bugs need particular scroll/lock/reopen histories.",
  ["1pass-app/gui/1passwidget.go", "1pass-app/gui/itemswidget.go", "1pass-app/gui/detailswidget.go", "1pass-app/gui/gocui.go", "1pass-app/gui/passprompt.go", "1pass-app/gui/errdialog.go"],
  "cursor/origin/index bookkeeping and view lifecycle")
p("C19", "The program is free of data races",
  "In every GUI session, whenever the background update check happens to finish relative to user input, screen refreshes and quitting, no memory is accessed by two threads without synchronisation, and the version line finally shows the outcome of the check exactly once. The same holds for every command-line run.",
  ["schedules"], "for every interleaving of the background update check with the interface loop",
  "Tests are single-threaded and never start the GUI.",
  ["1pass-app/gui/versionwidget.go", "1pass-app/gui/gocui.go"],
  "hand-over of the background check result to the interface loop")
p("C20", "The master password and secrets stay on screen only where asked",
  "The master password typed at any prompt is never echoed or displayed in clear, never written to any file, never passed to another process and never sent over the network, whether it is right or wrong and whatever command or GUI session it is typed in. Likewise decrypted item secrets are never written to a file, passed to another process or sent over the network.",
  ["inputs", "histories"], "for every password, vault, command, GUI session, success or failure path",
  "Tests never look at terminal echo, file contents, processes or network bytes.",
  ["1pass-term/control/cobra/clicontrol.go", "1pass-app/gui/passprompt.go", "1pass-app/gui/1passwidget.go", "1pass-core/core/facade/vaultfacade.go"],
  "no-echo password reading, masked prompt, in-memory decryption only")
p("C21", "Broken or unusual files give an error, never a crash or foreign data",
  "If the vault's profile or band files or the settings file are cut short, empty, unreadable, not well-formed, or lack entries or hold entries of unexpected types, every command either works or ends with an error message and non-zero status; it never crashes, hangs or fails silently, and lists nothing the vault does not store. Items that cannot be read because a band is cut short, unreadable or cannot be listed are never passed over as if they did not exist. An item whose stored record or decrypted content has missing or unexpected parts does not affect any other item, and a timeout, notification or period setting of the wrong type counts as missing.",
  ["inputs", "fault_sequences"], "for every structural damage of profile, band and settings files, item records and item contents, read by every command and the GUI",
  "Tests read one well-formed vault and one well-formed settings file.",
  ["1pass-parse/repo/file/profilerepo.go", "1pass-parse/repo/file/itemrepo.go", "1pass-parse/repo/file/configrepo.go", "1pass-core/core/service/itemservice.go", "1pass-core/core/service/keyservice.go", "1pass-core/core/domain/datatype.go"],
  "parsing of files and item contents with checks before use")
p("C22", "Runs that overlap do not harm each other",
  "When several runs of the program for one user overlap in any way (saving settings, checking for updates, updating, reading a vault; one of them possibly held up for long or killed at any point), every run reads complete settings, namely those before or those saved by one of the runs; every save that is not killed succeeds and the settings finally stored are completely those of one save; the executable is at every moment the complete previous program or a complete verified release, and no run claims an update that is not installed. Vault commands give the same results during another run as alone.",
  ["schedules", "crash_points", "fault_sequences"], "for every interleaving of the file operations of two or more runs and every point at which one of them is held or killed",
  "Tests run one operation at a time in one process.",
  ["1pass-parse/repo/file/configrepo.go", "1pass-core/core/service/updateservice.go", "1pass-up/component/github/updater.go"],
  "temporary files of each run's own, moved into place as a whole")
p("C23", "The GUI works at any terminal size and follows the terminal when it is resized",
  "The GUI starts and keeps working on a terminal of any size, however small, and through any sequence of size changes between and during its screens: it neither ends nor hangs, every key has the effect it would have without the size changes, and Ctrl+Q still quits with status zero. Whenever the terminal has room for the frames (64x13 or more) the screen uses the terminal's current size and shows the state the keys led to: the same screen, the whole category labels, the current entry highlighted and visible, its details as chosen (covered or revealed), and nothing of the vault while it is locked.",
  ["histories", "inputs"], "for every vault, every sequence of keys and resizes, and every terminal size from 1x1 up",
  "The GUI has no tests; the failures need particular sizes or resizes in particular states.",
  ["1pass-app/gui/gocui.go", "1pass-app/gui/1passwidget.go", "1pass-app/gui/itemswidget.go", "1pass-app/gui/detailswidget.go", "1pass-app/gui/passprompt.go", "1pass-app/gui/errdialog.go", "1pass-app/gui/helpwidget.go", "1pass-app/gui/versionwidget.go"],
  "layouts computed from a size with a lower bound, views laid out again and scrolled to the cursor on every redraw")
p("C24", "However a run ends, the terminal is given back as it was found",
  "When the program ends, by itself (with success or any error), with Ctrl+Q, or by an interrupt (Ctrl+C, SIGINT) or termination request (SIGTERM) at the password prompt, a question or any screen of the GUI, the terminal has the settings it had before (echo, line editing, special characters and all other modes) and no screen mode of the program stays on (alternate screen, hidden cursor, keypad and cursor key modes, mouse reports, colours). This includes errors found while the GUI is on (an unreadable or damaged profile or band): their message is readable on the terminal given back. An interrupted command ends at once with a status other than zero and shows nothing of the vault.",
  ["histories", "schedules", "inputs"], "for every command and screen, every way and moment of ending (except SIGKILL, SIGQUIT and suspension) and every initial setting of the terminal",
  "Tests never use a terminal.",
  ["1pass-term/control/cobra/clicontrol.go", "1pass-app/gui/gocui.go", "1pass-app/gui/1passwidget.go", "1pass-app/gui/versionwidget.go", "1pass-parse/repo/file/profilerepo.go", "1pass-parse/repo/file/itemrepo.go"],
  "password read with a signal handler that restores the saved state; terminal library closed on every way out")
p("C25", "A command line does exactly what it says, or is refused without effect",
  "The documented commands and flags mean the same in every spelling the conventions allow: long or short names, value attached or separate, flags in any order and before or after the UID, joined short flags, explicit truth values, an empty vault flag (as if not given), the last one of a repeated flag, and values that look like flags. A command line that says anything else (an unknown or misspelt command or flag, a flag of another command, a missing value or UID, surplus arguments, an impossible truth value) is refused with a message and a status other than zero. Refused lines, calls for help (which list the commands or the command's flags, status zero) and 'version' have no effect: no question or password prompt, no file changed, no network contact, no vault touched, whatever the settings are.",
  ["inputs"], "for every command line of the described kinds, every vault and every state of the settings",
  "Tests call the control layer directly; no test goes through the command line.",
  ["1pass-app/cli/cobra.go", "1pass-app/main.go", "1pass-term/control/cobra/clicontrol.go"],
  "argument validators of the commands, flags bound to one structure, status set when parsing fails")
p("C26", "Other users cannot steer an update or alter what the program keeps",
  "The update works in a directory every user can write to (/tmp). Whatever another unprivileged user does there before and during an update (making the program's directory first, putting files or links of foreseeable names in place, exchanging, removing or renaming everything the permissions allow, at any moment), the installed executable is in the end the old one or the published release, never anything of that user; success is reported only when the release is installed; no file of the victim outside the program's own temporary ones is changed; and the update ends without crash or hang (it may be refused). Nothing the program creates or replaces (settings, last-check record, their directory, the executable) gives other users more rights to write than they had.",
  ["schedules", "histories", "inputs"], "for every interleaving of another user's actions with the file operations of an update, every state of the shared directory, every umask without rights for others to write",
  "Tests run as one user, and the failures need another one to act between two particular operations.",
  ["1pass-core/core/service/updateservice.go", "1pass-up/component/github/updater.go", "1pass-core/core/domain/static.go", "1pass-parse/repo/file/configrepo.go"],
  "directory made by the update itself, exclusively and closed to others, before anything is put there")
p("C27", "A vault synchronised while it is read is shown as it was or as it becomes",
  "When another program (a synchronisation service) changes the vault's files while a command or GUI session reads them, by exchanging whole files, rewriting them in place, or exchanging the whole directory, at any moment, everything shown is wholly one of the stored versions: every band of a listing is the previous or the new one, every item shown is one stored version of it, nothing is mixed and nothing stored in both versions is missing. If what the program met was incomplete, it fails with a message and a status other than zero; it never fails, crashes or hangs when every file was whole at all times. A GUI that is open goes on showing what it opened, and the next unlock or run shows exactly what the synchronisation left.",
  ["schedules", "histories"], "for every interleaving of a synchronisation's steps with the program's reads of the vault",
  "Tests read a vault that never changes; the failures need a change between two particular reads.",
  ["1pass-parse/repo/file/itemrepo.go", "1pass-parse/repo/file/profilerepo.go", "1pass-core/core/facade/vaultfacade.go", "1pass-core/core/service/vaultservice.go", "1pass-core/core/service/itemservice.go"],
  "every file read once and as a whole on each unlock, errors of reading and listing end the run")
p("C28", "A power failure leaves settings and program complete, old or new",
  "If the machine stops (power failure, system crash) at any moment of a save of the settings or of an update, so that everything not yet forced to the disk may be lost although later operations on names are not, the settings file and the installed executable are each completely the previous or completely the new one, never empty, partial or missing, and later saves and updates succeed whatever other files were left behind.",
  ["crash_points", "fault_sequences"], "for every point of a save or update and every loss of data not yet forced to the disk (operations on names keep their order)",
  "Tests never interrupt a save, and a process that is killed does not lose what it has written.",
  ["1pass-parse/repo/file/configrepo.go", "1pass-up/component/github/updater.go", "1pass-core/core/service/updateservice.go"],
  "new content written to another file and forced to the disk before it takes the name")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
