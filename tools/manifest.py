import json
T={
'C01':'exactly-once and linearizability monitor on a hash-chained sequential object, under a controlled scheduler',
'C02':'linearizability monitor on a hash-chained sequential object, under a controlled scheduler',
'C03':'offline linearizability checking of recorded queue histories (WGL and FIFO patterns)',
'C04':'offline linearizability checking of recorded queue histories (WGL and FIFO patterns)',
'C05':'offline linearizability checking of recorded stack histories (WGL and LIFO patterns)',
'C06':'offline linearizability checking of recorded stack histories (WGL and LIFO patterns)',
'C07':'offline per-key linearizability checking of recorded map histories',
'C08':'mutual exclusion, hand-over and arrival-order monitors on lock histories',
'C09':'progress monitor with a suspended thread; own-step counter per operation',
'C10':'hang monitor under fair controlled schedules, oversubscription and fibers',
'C11':'AddressSanitizer and UndefinedBehaviorSanitizer under a controlled scheduler',
'C12':'footprint monitor over long runs with instrumented allocation',
'C13':'shadow model of live objects, content canaries and AddressSanitizer',
'C14':'run-once, identifier and join monitors on groups of threads and fibers',
'C15':'online phase monitor of barrier arrivals and departures',
'C16':'monitor of affinity calls on virtual machines against the documented policy',
'C17':'oracle for each primitive, linearizability of concurrent uses, compiler-view probes',
'C18':'history checkers with edge values',
'C19':'history checkers on two instances used by the same threads',
'C20':'the same monitors on every build configuration',
'C21':'counter of requests executed during one call',
'C22':'reference bit-set model, concurrent updates under a controlled scheduler',
'C23':'range, spread, reproducibility and bound monitors',
'C24':'reference parser on generated command lines',
'C25':'count of executed primitives compared with the reported totals'}
NOTE={}
base='Held on the executions observed; ctrl executions interleave single memory accesses of the real code (release assembly and an instrumented build) under seeded strategies and replay exactly; sequentially consistent, plus simulated x86 store buffers in the release assembly; weaker memory models are not explored. Trusts the scheduling layer, the stand-ins for libnuma/sysconf/affinity and the checkers in /verif/harness.'
misc='Held on the executions observed, with parameters drawn from the seed. Trusts the shadow models in /verif/harness/misc.cpp and the stand-ins for libnuma/sysconf/affinity.'
checks=[]
for k in sorted(T):
    note=NOTE.get(k, base if k in('C01','C02','C03','C04','C05','C06','C07','C08','C09','C10','C18','C19','C20','C21') else misc)
    checks.append(dict(property=k,quick_cmd='python3 lib/check.py '+k,thorough_cmd='python3 lib/check.py %s --tier thorough'%k,technique=T[k],level='exploration',level_note=note))
json.dump(dict(version=1,setup_cmd='python3 lib/build.py',checks=checks,not_applicable=[],
 notes='No hooks in /repo: instrumentation is inserted by the compiler, by rewriting the assembly of a release build, and by link-time stand-ins. Findings: known_findings.txt. Design: DESIGN.md.'),
 open('/verif/MANIFEST.json','w'),indent=1)
