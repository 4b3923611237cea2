#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand when a check is added)."""
import json, os
T = {
 'C01': 'TLA+ session model (LveSession) checked with TLC; recorded sessions of the real executable with trusted, untrusted and near-miss keys validated against it (TraceLve)',
 'C02': 'TLC explores the session model; every (state, message) pair of its graph is run on the real executable and the recording validated against the model',
 'C03': 'TLC explores the session model; model-derived and random sessions of the real executable validated against it step by step (reply word, number, length, data, license manager calls)',
 'C04': 'session model with the license manager as environment; real sessions with a logging license manager validated call by call',
 'C05': 'session model with a library-wide feature; real sessions of executables built with and without it validated against it',
 'C06': 'Library/MaskCache models (key mask tree, cache refinement) checked with TLC; real sessions over random trees in random request orders validated against the model',
 'C07': 'Library/MaskCache models with tampering actions; every byte and truncation of small files and all misplacements on the real executable, validated against the model',
 'C08': 'message grammar in TLA+ (Grammar); fuzzed messages to an ASan build of the executable, every reply validated against the grammar and the session model',
 'C11': 'session model with path components; escaping and dotted paths on the real executable validated against it',
 'C09': 'TLA+ model of the tool library (ToolApi) checked with TLC; real tool library against a scripted executable that gives every kind of answer, calls, requests and results validated against the model (TraceTool)',
 'C10': 'TLA+ liveness model of the link (Link) and of the tool library; real tool library and real executable with the peer lost at every point of the conversation, recordings validated (TraceTool, TraceGone)',
 'C17': 'composed model of tool library and executable (MCE2E) explored with TLC; call sequences covering its graph and random ones run with the real library and real executable, validated against it (TraceE2E)',
 'C20': 'negotiation part of the composed, tool and session models; version ranges and answers swept on both real sides and validated against the models',
 'C15': 'TLA+ model of the command line (LveCli), all argument lists up to a length explored with TLC; its lists and many more run on the real executable with a logging license manager, validated against it (TraceCli)',
 'C12': 'TLA+ model of packaging (Packaging: stages, container as a function of the source tree and options), all small worlds explored with TLC; its worlds and random libraries packaged with the real packagetool, archives unpacked, decrypted with the executable and validated against it (TracePackage)',
 'C13': 'manifest part of the packaging model; random option values and description files through the real packagetool, manifest.xml parsed back and validated field by field against the model (TracePackage)',
 'C14': 'stage model of packagetool explored with TLC (a container exists exactly with status 0); wrong command lines, unreadable files, full disks and archive failures on the real packagetool as an unprivileged user, status, archive and untouched trees validated against it (TracePackage)',
 'C19': 'packaging and session models composed (MCPackaged) and explored with TLC: every small library packaged, unpacked and read; real containers made by packagetool opened by the real tool library through the shipped executable, an untrusted tool and an executable with other keys, validated against the composition (TraceE2E)',
 'C18': 'TLA+ model of the two programs on a tree of files (CryptPrograms), explored with TLC; histories of encryptions, decryptions, damage, full disks and wrong use with the real programs, every changed file recorded and validated against it (TraceCrypt)',
 'C16': 'TLA+ model of making a key header and recovering the key, and of files between builds (KeyEmbed), explored with TLC over all short keys; those and many more keys through the real obfuscate and randomize_key, the headers compiled and evaluated, and files passed between real builds with equal and nearly equal keys, validated against it (TraceKey)',
 'C21': 'TLA+ model of what can be derived from everything left behind (Disclosure, a closure over keys, masks and boxes), explored with TLC, which also shows that a talkative build would reveal everything; what real sessions, programs and containers wrote is searched for every secret of the build and library and the finds validated against it (TraceDisclosure)',
 'C22': 'TLA+ model of the pipe ends and processes held by a program and its executables (Holdings: what is held is a function of the open sessions; three mistakes refuted) explored with TLC; thousands of repetitions of every kind of session, failing start, call and request with the real tool library and executable, what they hold at marks and all results validated against it (TraceHold)',
 'C23': 'TLA+ model of threads starting and ending executables (Spawn: who holds which pipe end; three mistakes refuted) and of one session (MCE2E, MCTool) explored with TLC; groups of sessions run at the same time in threads of one real program, with delays at the critical calls or under a race detector, each recording validated against the model of a session alone (TraceE2E, TraceTool)',
 'C24': 'TLA+ model of a program and the copies of it that a start makes (Host: buffered output, work at the end, own child, SIGPIPE; four mistakes refuted) explored with TLC; real programs with affairs of their own driving real sessions and failing executables, what they look like from inside after every call and how they end validated by TraceHost',
}
NA = []
def main():
    here = os.path.dirname(os.path.abspath(__file__))
    ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl')) if l.strip()]
    m = {'version': 1, 'setup_cmd': 'python3 setup_check.py',
         'checks': [{'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                     'technique': T[p], 'level': 'model_checking',
                     'level_note': 'exhaustive on the small model; the code is bound by validating recorded runs, so it is checked on the runs made, not on all'} for p in ids if p in T],
         'not_applicable': [{'property': p, 'reason': dict(NA).get(p, 'check not built yet')} for p in ids if p not in T]}
    json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
main()
