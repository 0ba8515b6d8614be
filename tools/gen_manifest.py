#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
 "C01": ("differential runtime monitor: facade, CLI and GUI output against an independent OPVault writer", "Randomised vaults with independently computed expectations; every field of every item of every observed vault is compared. Trusts the harness's OPVault writer."),
 "C02": ("online acceptance monitor over password/guess histories on CLI, GUI and facade", "Every observed unlock attempt judged by string equality with the vault's password, including near misses and foreign key blobs."),
 "C03": ("runtime monitor under injected data corruption (bit flips, truncation, swaps) with per-item containment oracle", "Every corrupted blob must read as blank and every other item as stored; alterations are sampled, not exhaustive."),
 "C04": ("history checker: lock/unlock/browse/disk-change histories against a reference state machine, GUI screens searched for vault text after lock", "Random multi-step histories on facade and GUI."),
 "C05": ("two-run non-interference monitor plus taint search in every screen", "Pairs of executions that differ only in secret values must give identical listings, overviews and covered screens."),
 "C06": ("runtime oracle: reference selection, order and counts against facade and CLI listings", "Random vaults and filters with an independent reference implementation."),
 "C07": ("file-operation monitor (instrumented os package) with a write policy, plus whole-tree snapshots", "Every mutating file operation of every observed session is judged; writes that bypass package os show only in the snapshots."),
 "C08": ("runtime monitor of opened files, prompts and exit status over generated file-system states", "Decoy vaults detect reads of any vault other than the one asked for."),
 "C09": ("history checker: save/read/restart histories of settings against a reference map, in one process and across processes", "YAML-hostile values and prior files are sampled."),
 "C10": ("runtime dialogue monitor against a reference model of the answers", "Real dialogue over a pipe and a pseudo terminal; resulting settings read back through the program."),
 "C11": ("fault injection at every file operation of a save (kill, short write, I/O error), state checked by a fresh process", "Every operation of the observed saves x every fault kind; process crash, not power loss."),
 "C12": ("end-to-end update monitor against a scripted HTTPS release server, verdict from the executable's bytes and mode", "Release replies, archives, checksums, certificates and answers are sampled over all combinations of fault kinds."),
 "C13": ("fault enumeration over every file operation of an update, then an undisturbed update", "Every operation of the observed updates x every fault kind; process crash, not power loss."),
 "C14": ("file-operation monitor and tree snapshots around extraction of hostile and benign archives", "Generated archives through the real extractor and whole updates."),
 "C15": ("network and file monitor against a reference model of the check schedule", "Dial events, requests, last-check file and notices of every observed run are compared with the model."),
 "C16": ("runtime oracle: version ordering against announced and offered releases, for many running versions", "Reference ordering over big integers; versions sampled around boundaries."),
 "C17": ("paired-run monitor (hostile server vs no network) with a watchdog", "About a hundred server behaviours x commands; timing bound is timeout + 2.5 s, confirmed by repetition."),
 "C18": ("online state-machine monitor of every GUI frame under random key sequences and bursts", "Frames come from a recording terminal library; a few sessions use the real one."),
 "C19": ("Go race detector plus outcome monitor over scheduled interleavings of the background check", "Reported races are real; absence holds for the observed interleavings."),
 "C21": ("runtime monitor on structurally damaged files with the independent vault writer as oracle for everything intact", "Damage of profile, band and settings files, records and sealed contents is sampled; every observed run must end honestly and leave intact items as stored."),
 "C22": ("monitor of settings, executable and outputs under enumerated interleavings: one run held at each file operation while others run, are held or are killed", "Interleavings at the granularity of the program's file operations; settings exhaustive for two runs, updates exhaustive around the installation and sampled elsewhere."),
 "C23": ("online state-machine monitor of GUI frames under random keys and terminal resizes from 1x1 up", "Sessions and sizes are sampled; on sizes without room for all frames only survival, the later state and locked screens are judged."),
 "C24": ("monitor of terminal settings (termios before and after) and of the terminal control sequences written, over runs ended in many ways", "Initial settings, kinds of run, endings and moments are sampled on pseudo terminals with the real terminal library."),
 "C25": ("runtime oracle for random spellings of command lines; effect monitor (files, network, prompts, vault) for refusals, help and version", "Command lines are sampled from a grammar of spellings and faults."),
 "C26": ("monitor of executable, victim's files and permissions while a process of another user acts before every file operation of real updates", "Attacks are sampled at the granularity of the program's file operations, with the rights the kernel of this machine gives an unprivileged user."),
 "C27": ("monitor of outputs and GUI frames of runs held at every read of the vault while a synchronisation changes it, against the versions an independent writer stored", "Interleavings at the granularity of the program's file operations are sampled; listings are judged band by band."),
 "C28": ("offline checker over recorded file operations that derives all disk contents a power failure can leave; a sample is built and given to the real program", "Disk model: operations on names in order, contents of a file lost back to its last sync; every point of every recorded run is judged."),
 "C20": ("taint search in recorded file writes, processes, network bytes, remaining files and the terminal", "High-entropy passwords and secrets, searched in clear, hex, base64 and URL encodings."),
}
checks = []
for k in sorted(T):
    t, n = T[k]
    checks.append({"property": k, "quick_cmd": f"bash run.sh {k} quick", "thorough_cmd": f"bash run.sh {k} thorough", "technique": t,
                   "level": "fault_enumeration" if k in ("C11", "C13", "C22", "C28") else "exploration", "level_note": n})
m = {"version": 1, "setup_cmd": "bash run.sh prewarm", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the monitors are compiled in with 'go build -overlay' (Go standard library os, net, crypto/tls; terminal library replaced with -modfile), generated from the installed toolchain at check time."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
