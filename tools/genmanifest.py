#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that the harness registers."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = set()
for f in glob.glob(os.path.join(V, 'harness', '*_test.go')):
    ids |= set(re.findall(r'ID:\s+`(C\d\d)`', open(f).read()))
NOTES = {
 'C01': ('PBT: generated hierarchies and files against a reference model', 'Thousands of generated hierarchies per run; the expected value comes from a model that shares no code with the implementation.'),
 'C02': ('PBT: merge laws against a reference model, mutation monitoring', 'Laws evaluated over generated nested values through files, in-memory sources and merge.Deep; trusts the model of the laws.'),
 'C03': ('PBT: generated lookup_options against a reference model', 'Assembly and application of lookup_options over generated distributions.'),
 'C04': ('PBT: reference key parser, segments round trip', 'Every generated string is parsed by an independent parser and compared.'),
 'C05': ('PBT: metamorphic relation between dotted lookup and dig, reference model', 'Paths into and past generated structures.'),
 'C06': ('PBT: strings assembled from parts with known expansion', 'The expected expansion is known by construction and does not use the implementation.'),
 'C07': ('PBT: metamorphic relation between alias/lookup and direct lookup', 'Generated worlds where a reference is placed in different surroundings.'),
 'C08': ('PBT: generated reference graphs, cycle oracle', 'Graph reachability decides whether an error is expected; process death is detected and shrunk in a separate process.'),
 'C09': ('PBT: recorded locations against a model of path resolution', 'A recording function shows exactly which locations are consulted.'),
 'C10': ('PBT: generated valid and mutated configurations against an independent validator', 'Accept/reject and exposed contents are compared with a hand written validator.'),
 'C11': ('PBT: stateful scope operations with panics against a stack model', 'Histories of nested scopes, invocations and panics.'),
 'C12': ('PBT: conversion oracle; secret tokens must not occur in texts', 'Generated secrets and surroundings; renderings and explanations are searched for the secret.'),
 'C13': ('PBT: reference model of name, override and default resolution', 'Generated combinations of sources.'),
 'C14': ('PBT: differential lookup with and without explainer; trace oracle', 'The sequence of consulted locations in the explanation is compared with a model.'),
 'C15': ('PBT: histories on one session against fresh sessions', 'Each step of a generated history is compared with the same lookup in a fresh session.'),
 'C16': ('PBT: generated concurrent workloads under the race detector against sequential results', 'Schedules are sampled, not enumerated. Data races are found when both accesses occur, independent of their order.'),
 'C17': ('PBT: generated module paths against a reference model', 'Module directories, case variants, missing modules and keys.'),
 'C18': ('PBT: generated provider lists against a reference model, single-provider differential', 'Generated top level functions and values.'),
 'C19': ('PBT: round trip through independent parsers', 'encoding/json and yaml.v3 parse what is rendered.'),
 'C20': ('PBT: generated request sequences and concurrent batches against the built server (race detector), library oracle', 'The real server is run on the loopback interface.'),
 'C21': ('PBT: generated command lines against a library lookup', 'In-process CLI for most cases, the built binary for exit status and output.'),
 'C22': ('PBT: differential between a scripted plugin process and the same function in process', 'Values and failures are generated.'),
 'C23': ('PBT: generated plugin behaviours and session histories, process table oracle', 'Counts starts and survivors of real processes.'),
 'C24': ('PBT: stateful cache operations against a map model', 'Histories over several sessions and invocations.'),
 'C25': ('PBT: generated documents, differential against an independent JSON value', 'The built binary is run for each document.'),
 'C26': ('PBT: differential between YAML and JSON storage; malformed files', 'Same generated world stored in both ways.'),
 'C27': ('PBT: generated environments against a model', 'Environment variables of the process are set per case.'),
 'C28': ('PBT: fault injection in generated worlds, recovery oracle', 'Faults of all kinds at generated places.'),
 'C29': ('PBT: generated option/environment/file combinations against a precedence model', 'Working directory and options are generated.'),
 'C30': ('PBT: metamorphic relation: defaults written out', 'Generated configurations with and without defaults.'),
 'C31': ('PBT: round trip of explanations', 'Explanations of generated lookups.'),
 'C33': ('PBT: generated TLS options and clients against a model of who is admitted', 'The real server is run on the loopback interface, certificates are made by the check.'),
 'C34': ('PBT: differential between the loader and an evaluator of the published JSON schema', 'Generated valid, almost valid and edited configurations.'),
 'C35': ('PBT: generated output of real plugin processes, equality with what is logged', 'Line lengths around the buffer sizes, endings of sessions, slow logs.'),
 'C32': ('PBT: recorded calls against a model of expected calls', 'Generated options, locations and functions.'),
}
checks = []
for i in sorted(ids):
    tech, note = NOTES[i]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': 'exploration',
                   'level_note': note + ' Sampled inputs: absence of violations is not proved.'})
na = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    if p['id'] not in ids:
        na.append({'property': p['id'], 'reason': 'the check is not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: all checks drive the public API, the command line programs and the REST server. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
