#!/usr/bin/env python3
# Writes known_findings.txt from the fix commits in /repo and the list below.
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OF = {"f3ee25f":"H02","23761f8":"C04","70454fd":"H02","8d02c07":"H02","88c2ccf":"H02","2035fa6":"C04","81f5fbc":"C04","c995632":"C04","5c9293c":"C04","f316f68":"A01","e187250":"H02","4e799b7":"H02","d29319e":"H02","a35f83e":"R02","974d6fc":"H02","b515e8d":"A01","23fc57c":"A02","1499836":"R03","9682fdd":"H02","bed2063":"H02","40e949f":"A01","780ff40":"R03","7f05fdf":"A02","cdcdf33":"W01","042d242":"H02","36138dc":"H02","4cd97df":"C04","f8afb86":"C03","a957658":"C02","0971284":"G03","0ce95ce":"A02","308ed15":"S01","6b130f9":"H02","f7a7de4":"A01","1c66240":"H01","f7a49d7":"R01","79d024d":"C04","69bc5d2":"A01","f2e99b4":"A01","e30f10b":"H02","ab73a67":"C04","69f666f":"C04","91c16c5":"C04","3b13282":"C04","bf7e818":"C04","cc8c458":"R03","d74cd79":"R03","9ca9c57":"R01","2d4f26b":"R03","084ada6":"R01","56dc65d":"H02","016a49e":"H02","3798cb5":"H02","f72f243":"H02"}
EXTRA = {}
KNOWN = [  # (property, class, what)
]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "9b32698..HEAD"], capture_output=True, text=True).stdout.split("\n")
o = ["# Genuine defects of johnkerl/spffl found by these checks.",
     "# 'fixed:' lines are history and suppress nothing; 'KNOWN' lines name one class of failure each.",]
for l in log:
    if " fix: " not in l: continue
    h, _, t = l.partition(" fix: "); o.append("fixed: property=%s %s %s" % (OF[h], h, t))
for p, c, w in KNOWN: o.append("KNOWN property=%s class=%s %s" % (p, c, w))
open(os.path.join(V, "known_findings.txt"), "w").write("\n".join(o) + "\n")
