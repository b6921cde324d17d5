#!/usr/bin/env python3
"""Writes MANIFEST.json: a property with a checks/cNN.py is claimed, the others are listed as not built."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = 'Trusted: the oracle written in Python from the definition, the compiler and its sanitizers. Seeded random workloads: no claim beyond the executions observed.'
T = {
 'C01': ('online oracle over per-epoch outputs: independent Bellman operator at surface vertices and random beliefs', 'All exact methods and purge options on random small models; a wrong or missing vector shows where the surfaces differ by more than 1e-5 of scale.'),
 'C02': ('offline trace checker over the .alphaN/.pgN sequence: each vector recomputed from its graph line', 'All methods incl. approximate ones on random models.'),
 'C03': ('offline checker over written vectors: usefulness margin by an independent LP', 'A vector is reported only when its margin is clearly below the solver precision.'),
 'C04': ('trace-specification monitor over epoch reports and .alphaN sequences', 'Stop rule recomputed from consecutive written value functions.'),
 'C05': ('differential runtime check of the loader against an independent interpretation of the format', 'Model dumped through the public accessors of the real loader.'),
 'C06': ('fault-seeded model files with exit/message/file oracle, address sanitizer', 'Each file breaks one known rule.'),
 'C07': ('AddressSanitizer+UBSan+MemorySanitizer loader under grammar-based and byte-level mutation', 'Sanitizer verdicts on the executions tried.'),
 'C08': ('AddressSanitizer+UBSan+MemorySanitizer solver runs over an option sweep', 'Sanitizer verdicts on the executions tried.'),
 'C09': ('AddressSanitizer+UBSan runs of both programs on hostile auxiliary inputs', 'Sanitizer verdicts on the executions tried.'),
 'C07': ('mutational and coverage-guided fuzzing of the loader under address, undefined-behaviour and memory sanitizers', 'Inputs found by libFuzzer in one process are judged again in a fresh one.'),
 'C10': ('paired-run monitor comparing saved files byte for byte', ''),
 'C11': ('paired-run monitor of split and unsplit computations', ''),
 'C12': ('paired-run monitor under perturbed environments', ''),
 'C13': ('paired-run monitor of option sources and printed settings', ''),
 'C14': ('option-value fault injection with exit/message/file oracle, address sanitizer', ''),
 'C15': ('metamorphic paired-run monitor', ''),
 'C16': ('trace checker: grid points and point backups recomputed independently', ''),
 'C17': ('trace checker: bounds against independently computed exact values', ''),
 'C18': ('protocol monitor of the belief-update tool against exact Bayes filtering', ''),
 'C19': ('offline checker over written value-function files, address sanitizer', ''),
 'C20': ('offline checker of report files, address sanitizer', ''),
 'C21': ('offline checker: residual against a direct linear solve', ''),
 'C22': ('offline checker of rewritten graphs', ''),
 'C23': ('injected interrupts at chosen epochs and random times, checked against undisturbed runs', ''),
 'C24': ('kills injected at chosen points, recovery file checked against undisturbed runs', ''),
 'C25': ('stress of simultaneous runs with injected delays, files compared with solitary runs', ''),
 'C26': ('linker-wrapped LP calls and region searches over long lists checked against an independent LP solver', ''),
 'C27': ('stateful random operation sequences on the real containers against a sequence model, under sanitizers', ''),
 'C28': ('trace-specification monitor over stdout and files', ''),
 'C29': ('offline execution of the written controllers on the model, exact expectation', ''),
 'C30': ('fault injection by linker-wrapped file and memory calls under AddressSanitizer', ''),
 'C32': ('the real program under a processor clock controlled by the monitor; every reported time explained from the log of readings', ''),
 'C33': ('sequences of generated model files loaded in one sanitized process, meanings compared with an independent interpretation, heap watched', ''),
 'C31': ('live-heap monitor per epoch through wrapped allocation', ''),
}
LEVEL = {'C23': 'fault_enumeration', 'C24': 'fault_enumeration', 'C30': 'fault_enumeration'}
NA = {}
checks, na = [], []
for pid in sorted(T):
    if pid in NA:
        na.append(dict(property=pid, reason=NA[pid]))
    elif os.path.exists(os.path.join(V, 'checks', pid.lower() + '.py')):
        t, n = T[pid]
        checks.append(dict(property=pid, quick_cmd='bin/check %s quick' % pid, thorough_cmd='bin/check %s thorough' % pid,
                           technique='runtime monitoring: ' + t, level=LEVEL.get(pid, 'exploration'), level_note=(n + ' ' + NOTE).strip()))
    else:
        na.append(dict(property=pid, reason='the check of this property is not built yet'))
m = dict(version=1, setup_cmd='python3 lib/build.py plain,asan,msan pomdp-solve,pomdp-tools', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks build its sources unchanged, with sanitizers and linker wrapping.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
