#!/usr/bin/env python3
"""Rewrites the "fixed:" lines of known_findings.txt from the fix: commits of /repo (run by hand, not by a check)."""
import subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '7bd9f0e..HEAD'], text=True).split('\n')
rng = [(1,'P10'),(2,'P02'),(10,'P03'),(11,'P01'),(13,'P03'),(18,'P04'),(20,'P05'),(21,'P06'),(22,'P25'),(23,'P26'),(25,'P09'),(28,'P08'),(38,'P12'),(39,'P13'),(40,'P14'),(41,'P13'),(42,'P14'),(45,'P13'),(46,'P14'),(47,'P13'),(48,'P14'),(49,'P17'),(51,'P19'),(59,'P20'),(60,'P19'),(61,'P20'),(62,'P15'),(63,'P16'),(65,'P15'),(69,'P19'),(70,'P15'),(71,'P21'),(73,'P23'),(76,'P22'),(77,'P23'),(78,'P28'),(79,'P29'),(80,'P30'),(82,'P31'),(86,'P32'),(92,'P33'),(96,'P34'),(101,'P35'),(108,'P36'),(109,'P37'),(111,'P38'),(114,'P39'),(117,'P41'),(118,"P40"),(119,"P44"),(120,"P28"),(121,"P44"),(123,"P39"),(124,"P44"),(126,"P28"),(128,"P44"),(129,"P45"),(131,"P46"),(139,"P44"),(140,"P47"),(141,"P15"),(142,"P47"),(144,"P03"),(145,"P07"),(147,"P08"),(149,"P23"),(150,"P46"),(151,"P05"),(152,"P21"),(153,"P37"),(154,"P06"),(155,"P45"),(157,"P30"),(158,"P44"),(159,"P03"),(160,"P02"),(161,"P25"),(163,"P39")]
extra = {}
exec(open(f'{HERE}/tools/fixed_more.py').read()) if os.path.exists(f'{HERE}/tools/fixed_more.py') else None
out = []
n = 0
for l in log:
    if not l: continue
    n += 1; h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    p = extra.get(h) or [x for a, x in rng if a <= n][-1]
    out.append(f'fixed: property={p} {h} {s[5:]}\n')
f = f'{HERE}/known_findings.txt'
keep = [l for l in open(f) if not l.startswith('fixed:')]
open(f, 'w').writelines(keep + out)
print(len(out), 'fixed')
