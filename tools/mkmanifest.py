#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'P01': 'differential monitor: DOM observed through libxml2 against an independent reference parser and against the generated tree, under ASan/UBSan',
 'P02': 'round-trip monitor: printed text re-read by the library and by the reference parser, trees compared, under ASan/UBSan',
 'P03': 'round-trip monitor on compact output with line and escape assertions, reference parser as second reader, under ASan/UBSan',
 'P04': 'conversion monitor: XML written and read by expat/libxml2 as independent oracle against the DOM, round trips through XMQ, under ASan/UBSan',
 'P05': 'conversion monitor: HTML tree read by libxml2 alone against the tree after HTMQ round trips, under ASan/UBSan',
 'P06': 'monitor comparing trimmed and untrimmed trees node by node, under ASan/UBSan',
 'P07': 'round-trip monitor: JSON value by the Python json module before and after, under ASan/UBSan',
 'P08': 'output validity monitor: every JSON print parsed by a strict independent JSON parser, content accounted for, under ASan/UBSan',
 'P09': 'inverse-function monitor on the quoting functions with an independent C string reader and the reference parser, under ASan/UBSan',
 'P10': 'metamorphic and differential monitor of quote layouts against the reference indentation rules, under ASan/UBSan',
 'P11': 'line monitor: log lines re-read by library and reference parser and compared with the arguments given, under ASan/UBSan',
 'P12': 'token trace checker: recorded token stream against the bytes, positions and the reference tokenizer, under ASan/UBSan',
 'P13': 'markup stripping monitor: coloured renderings reduced to plain text by independent decoders, under ASan/UBSan',
 'P14': 'verdict monitor: accept/reject, error number and reported position against the reference parser, under ASan/UBSan',
 'P15': 'coverage guided and generated hostile inputs under ASan/UBSan with CPU, memory and progress limits',
 'P16': 'coverage guided and generated hostile inputs under ASan/UBSan with CPU, memory and progress limits',
 'P17': 'coverage guided and generated hostile inputs under ASan/UBSan with CPU, memory and progress limits',
 'P18': 'coverage guided and generated hostile grammars and inputs under ASan/UBSan with CPU, memory and progress limits',
 'P19': 'allocation accounting through malloc/free hooks plus LeakSanitizer and descriptor counting over operation histories and injected faults',
 'P20': 'metamorphic delivery monitor: same bytes through memory, file, pipes and chunks, guard pages around the range, under ASan/UBSan',
 'P21': 'detection monitor against generated documents of known format, declared against undeclared reading, under ASan/UBSan',
 'P22': 'query monitor against an independent XPath evaluation of the observed tree and exact number conversion, under ASan/UBSan',
 'P23': 'history monitor: document and prints compared before and after print histories, second generation formatting compared, under ASan/UBSan',
 'P24': 'model based command sequence monitor: CLI results against the operations computed on an independent tree, under ASan/UBSan',
 'P25': 'fault injection monitor: exit code, messages and output of the CLI under unreadable, invalid, full and closed targets, under ASan/UBSan',
 'P26': 'event log monitor: commands started by for-each record their arguments and environment, compared with the document, under ASan/UBSan',
 'P27': 'differential monitor: verdicts against an independent recogniser of the grammar, under ASan/UBSan',
 'P28': 'differential monitor: document built against an independent derivation and mark semantics, under ASan/UBSan',
 'P29': 'history monitor: results after arbitrary histories against results in a fresh process, under ASan/UBSan with varied heap fill',
 'P30': 'ThreadSanitizer on threads with documents of their own, results compared with single threaded runs',
 'P31': 'output monitor: text and clines output against the values computed from the observed tree, under ASan/UBSan',
 'P32': 'differential monitor: transform and validate through the CLI against libxslt/libxml2 used directly, under ASan/UBSan',
 'P33': 'model based monitor of the containers and UTF-8 coders driven directly, under ASan/UBSan',
 'P34': 'differential monitor: ambiguity reported against an independent derivation counter, under ASan/UBSan',
 'P35': 'output monitor: statistics against counts computed from an independent reading, under ASan/UBSan',
}
NA = {}
def main():
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(V + '/checks/%s.py' % i.lower()):
            checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i, technique=T[i], level='exploration',
                level_note='Held on every execution observed; the evidence file counts them. Nothing is claimed about inputs which were not run.'))
        else: na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
    m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
             notes='Every check builds the instrumented library or tool it needs from /repo into /verif/.build (ignored by git). No hooks in /repo are used.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not claimed')
main()
