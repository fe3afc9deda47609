import json, os, collections
v=collections.defaultdict(list)
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    v[m['property']].append(d)
t=sum(map(len,v.values()))
o=f'''
## 7. Planted bugs

seeded/ holds {t} changes, written property by property from the statements and the code, each confirmed in a scratch
copy (it builds, the tests pass, its demonstration fails with it and passes without).  Every one of them is caught by
the quick check of its own property; tools/plant/ has their definitions and tools/margin.py runs each against its
check under several seeds.  By check:

| check | catches |
|---|---|
'''
for k in sorted(v): o+=f"| {k} | {', '.join(x[4:] if x.startswith(k) else x for x in v[k])} |\n"
o+='''
Missed at first, and what was strengthened: C20-long, C20-bad-level, C20-rate (long lines and many requests per second
in the log), C11-crlf, C01-long (line ends, very long requests), C10-empty-list, C14-empty-label, C13-empty-payee (empty
values), C12-operating, C12-documents (nested and repeated options), C19-lines, C18-window (several errors, reports of
several lines), C26-messages, C26-answers (early rounds against the last ones, closer tolerance), C22-nul (what may
follow a table), C25-many (up to forty mistakes), C21-verbose, C21-lines (near misses of options; what the launcher says),
C01-id-escape, C02-bom, C02-wide, C02-comment (odd ids, text before and after a request), C05-env, C05-tilde,
C12-plugin-config (environment, odd ledger names and texts), C09-crlf, C19-empty-annotation, C19-context-many (line ends
in synthetic sources, long annotations), C10-label, C11-scale, C11-lowercase (any flag, many digits), C21-deps (odd
values of the build), C26-period (warnings), C05-dir, C05-suffix (neighbours of the ledger), C06-link (a linked log),
C09-dot, C09-ledger (odd names of sources), C22-two (two tables), C11-year, C14-old, C09-long, C11-long, C09-lines,
C15-depth, C15-rows, C17-currencies, C12-plugins, C25-fifty, C11-postings, C13-many, C01-large, C09-synth-many,
C11-digits, C11-meta-many, C21-many (extreme sizes), C05-empty (empty ledgers), C20-tab (tabs in requests), C22-cr
(control characters in cells).
Besides, mutation of every operator, constant, branch and call of the crate (tools/plant/mutate.py): what survives is
equivalent, dead code, or the wording of messages which no property promises.

## 8. Working with it

`bin/check.sh ID` builds and checks; `target/sim/release/simctl replay FILE` repeats a violation, `simctl twice ID SEED`
shows that a run repeats exactly, `simctl soak FROM N` compares N generated ledgers with the
model, `tools/seeds.sh FROM TO` runs every check under those values of VERIF_SEED.  Environment: VERIF_SEED,
VERIF_TIER, SIM_N (scenarios), SIM_SECONDS, SIM_THREADS, SIM_SHRINK.  tools/gen_props.py and tools/gen_manifest.py
write properties.jsonl and MANIFEST.json.
'''
p='/verif/DESIGN.md'
s=open(p).read()
i=s.find('\n## 7. Planted')
if i>=0: s=s[:i]
open(p,'w').write(s.rstrip('\n')+'\n'+o)
