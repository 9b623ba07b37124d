import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append((m['property'],os.path.basename(os.path.dirname(d)),m['needs']))
rows.sort()
t="## Planted bugs and what catches them\n\nEvery bug in `seeded/` is caught in the quick tier by the check of the property it was written for (`tools/catch.sh` runs this).\nThose marked * were missed at first; the check was strengthened (see below).\n\n| check | bug | needs |\n|---|---|---|\n"
star={'best-root-shortcut','sweep-in-batches','root-page','digest-as-message','expires-before-issued','narrow-distance','roots-cached','creators-clock','unknown-revoker','issued-later-giver','busy-ignored','many-certs-cap','revocations-collected','known-trust-shortcut','any-multihash','export-distinct-dates','equal-date-replaces'}
for p,i,n in rows: t+=f"| {p} | {i}{'*' if i in star else ''} | {n} |\n"
t+="""
Strengthened because a planted bug got through: forged copies of statements already in the graph (C06), revocations of equal date and
revocations judged in the graph (C11, C24), peer ids that declare a hash function (C17), queries long after everything else happened (C01–C05,
C08), equal dates (C07), roots without own trust (C08), long messages (C16), roots set after their trusts arrived (C18), calls by the
creator or host with their own clock (C19), revokers unknown to the graph (C11), every SQLite result code (C22), more than 4096 chains (C02),
issue dates after the time (C12), secrets of every length (C17), short signatures under every label (C15), refused forms of the history's own
statements (C25), messages that are digests of others (C16), trusts dated after their expiry (C06), chains of hundreds of trusts (C04), the
label or root itself as host (C27), hundreds of roots, of expired trusts and of imported trusts (C04, C08, C09, C18), lines of 310 peers (C01–C05),
inputs of 128 KiB (C15), roots of the greatest weight (C08), networks of a hundred nodes (C28). Besides these, 27 changed versions of the Aqua and AIR scripts are caught by C23, C26 and C27.

If a change stops only the service from compiling, the properties of the library's own types (C12, C13, C14, C16) are still decided through
`mc-lib/` (the same sources without the service); the other checks then exit 2 (no verdict).

"""
s=open('/verif/DESIGN.md').read()
k='## Planted bugs and what catches them'
e='## Defects found'
if k in s: s=s[:s.index(k)]+s[s.index(e):]
s=s.replace(e,t+e,1)
open('/verif/DESIGN.md','w').write(s)
