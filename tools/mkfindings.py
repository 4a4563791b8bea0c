#!/usr/bin/env python3
"""writes known_findings.txt from the fix commits of /repo (run by hand, not by checks)"""
import subprocess
P={'4507a69':'C09','d243e4f':'C01','e760d1b':'C01','5794e28':'C02','e2ce73c':'C02','1fb5ae7':'C02','2d19b70':'C25','5624156':'C25','18aa3cd':'C25','101c254':'C16','d24df5c':'C17','0c92c57':'C23','3760b76':'C18','e2787f0':'C15','1e4b2c2':'C15','b9fc706':'C20','2803361':'C33','57a67d7':'C01','2dac566':'C01','c061a1b':'C31','bdb75f6':'C31','4a5b309':'C07','e1e7b5d':'C10','c89a15d':'C11','0eaee46':'C10','ed40437':'C41','c41604f':'C04','d48b608':'C24','ef833c5':'C26','6d83494':'C08','52f6f7a':'C13','9df4ad0':'C14','658d379':'C34','a8b4a9e':'C23','1ba32e8':'C21','21841a5':'C19','589955e':'C39','8969f7a':'C40','5a5064a':'C14','25635a8':'C01'}
out=["# Genuine defects of IfanTsai/metis found by this work. 'fixed:' entries suppress nothing.",
"# A defect recorded instead of repaired would be a line 'known: property=<id> key=<obligation key> <what fails>'."]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','d42621b..HEAD'],text=True).splitlines():
    h,s=l.split(' ',1)
    if s.startswith('fix: '): out.append(f"fixed: property={P[h]} {h} before: the pinned tree failed to \"{s[5:]}\"")
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
