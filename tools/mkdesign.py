#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the approach texts below, the harness annotations, the findings and the seeds."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = {
'C01': "Value trees with symbolic payload bytes and 64-bit integers are built with the package's constructors, serialised, split into pieces and read back with the real reader; oracle: the input value, plus an independent serialiser/parser in `harness/pkg/lib/resp.go`. Tests decode literals only.",
'C02': "All byte strings of the bounded lengths as streams (free bytes, or a grammar-shaped prefix with free bytes), in several splits; oracle: the independent RESP parser of `lib/resp.go` decides what must be accepted, with which value and how many bytes.",
'C03': "An engine on the real event bus gets a request array of any command name and arguments (including non-bulk kinds and malformed ones) on populated databases; exactly one response event with the id, well-formed for the reference parser, and a later request is answered. Concurrent clients under schedules.",
'C04': "Histories of commands on a `db.DB` against a reference model (`lib/store.go`, a plain map kept next to it), with symbolic keys, values and indices; replies are compared after each step and all keys are audited at the end.",
'C05': "As C04 for counters, with symbolic 64-bit values written in decimal (the decimal text is a symbolic string whose numeric value the executor tracks) and short symbolic non-numeric strings; oracle: arithmetic with overflow checks done independently.",
'C06': "As C04 against slices; plus the list container itself driven directly (forward, backward and indexed reads agree).",
'C07': "As C04 against a field/value list, duplicates included.",
'C08': "As C04 against sets; map iteration order and random picks are symbolic choices.",
'C09': "A database with data of every type gets one arbitrary command; everything that it does not name is read before and after and compared.",
'C10': "As C09 for every command that reports the access type; also repeated reads, and the engine's log must contain every command that changed something.",
'C11': "An engine with a database file handles symbolic histories; it is stopped, the file parsed and replayed into a fresh engine; all reads must agree. `order` explores the schedules of the log writer.",
'C12': "Records with symbolic fields are packed with the real code, concatenated, cut at every byte, split into reads, and parsed; arbitrary bytes for totality.",
'C13': "The real replica on a message cut at any byte / with an arbitrary length; the real master serving real replicas over the network model, with records still buffered, written meanwhile, stopped meanwhile; the whole server as master and as replica of a scripted master.",
'C14': "Symbolic 64-bit index, ends and size; one path per case; oracle: the definition in exact arithmetic.",
'C15': "All pairs of byte strings up to the bound; oracle: a direct byte loop written as one formula.",
'C16': "Operation sequences on the string container with symbolic texts and amounts; all views compared after each step.",
'C17': "Future/Task under all schedules within the bound, with race detection; oracle: outcome bookkeeping in the harness.",
'C18': "Senders, receiver and closers under schedules; expiry timers fire at any point.",
'C19': "Topics with several subscribers (ready, slow, closed, re-subscribed) under schedules.",
'C20': "Concurrent creations, removals, publications, subscriptions on the bus under schedules, compared with an atomic name set.",
'C21': "Sequential histories with symbolic keys against a model; concurrent histories checked for linearisability of the final state, with race detection.",
'C22': "All outcome vectors of up to the bounded number of handlers with symbolic results; broadcaster under schedules.",
'C23': "Histories on the sorted set container with symbolic scores (IEEE doubles, NaN excluded) and every level draw; oracle: ordered list by (score, member).",
'C24': "The connection object over a scripted peer (pieces, end, stuck peer) under schedules with its expiry timer; deadlock detection decides 'never blocks for ever'.",
'C25': "The whole server (listener, connections, event bus, engine, response worker) over the network model under schedules; replies are compared with the order of the requests, appends show the order of execution.",
'C26': "The whole server in every configuration, stopped in several ways under schedules; the database file is parsed afterwards. Also the engine alone.",
'C27': "The codec of cmd/client on symbolic command lines and reply values; oracle: an independent tokeniser and renderer.",
'C28': "A database file with a record cut at every byte, restart of the whole server, writes, restart; all reads compared. Also two crashes, long records, schedules.",
'C29': "`Config.Parse` on files assembled from options, unknown names and sections with symbolic values, and on short arbitrary files; go-toml's lexer, parser and tree (and `regexp`) are executed from their source, only its reflective `Tree.Unmarshal` is modelled (string, bool, integer fields; names from the tags in the current source's types). Oracle: the options written into the file, and a reference reader of TOML integers.",
'C30': "`InitLog` and all logging functions on symbolic texts, levels and sequences of messages, in both modes, and concurrently; zap (encoders, pools, level filter, sugar) is executed from its source, `runtime.Caller` and stack traces are stubbed. Oracle: the harness parses the log file back (JSON or console lines) and compares it with the messages it gave.",
}
NA = {}
m = json.load(open(root + '/MANIFEST.json'))
for x in m['not_applicable']:
    NA[x['property']] = x['reason']
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
H = {}
for f in sorted(glob.glob(root + '/harness/**/*.go', recursive=True)):
    cur = None
    for line in open(f):
        k = re.match(r'//verif:harness id=(C\d+)\.(\S+)\s*(.*)', line)
        if k:
            cur = dict(name=k.group(2), opts=k.group(3).strip(), bounds='')
            H.setdefault(k.group(1), []).append(cur)
        k = re.match(r'//verif:bounds (.*)', line)
        if k and cur is not None:
            cur['bounds'] += (' ' if cur['bounds'] else '') + k.group(1)
out = open(root + '/tools/design_head.md').read()
out += '# The properties\n\nBounds are what each harness covers; everything outside them is not claimed.\n'
for p in props:
    i = p['id']
    out += '\n## %s — %s\n\n' % (i, p['title'])
    if i not in H:
        out += 'Not applicable: %s\n' % NA.get(i, '')
        continue
    out += A[i] + '\n\n| harness | bounds | options |\n|---|---|---|\n'
    for h in H[i]:
        out += '| %s | %s | %s |\n' % (h['name'], h['bounds'].replace('|', '\\|'), h['opts'])
out += '\n# Findings\n\n`KNOWN_FINDINGS.txt` lists them; all were repaired with `fix:` commits, none is left open.\n\n'
for l in open(root + '/KNOWN_FINDINGS.txt'):
    k = re.match(r'(fixed|known): property=(\S+) (.*)', l)
    if k:
        out += '* %s (%s) %s\n' % (k.group(2), k.group(1), k.group(3))
out += open(root + '/tools/design_tail.md').read()
out += '\n# Planted bugs\n\nEach in `seeded/<id>/`, confirmed in a scratch copy (builds, passes the 73 tests, demonstration fails) and run against the checks.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n'
C = {}
cf = root + '/tools/caught.json'
if os.path.exists(cf):
    C = json.load(open(cf))
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(d))
    s = json.load(open(d))
    out += '| %s | %s | %s | %s |\n' % (n, s['property'], s['needs'].replace('|', '\\|'), ', '.join(C.get(n, ['?'])) or 'not caught')
open(root + '/DESIGN.md', 'w').write(out)
