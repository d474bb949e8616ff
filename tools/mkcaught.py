import json
# planted bug: (checks that report it, note)
C={}
import os
for d in sorted(os.listdir('/verif/seeded')):
    C[d]=json.load(open('/verif/seeded/%s/meta.json'%d))['property']
NOTE={'C09-occ':'missed at first; caught since occupancies above one and zero are generated',
'C23-update':'missed at first; caught since combined stamps are checked in processes whose clock rolls over'}
for k,v in NOTE.items():
    if k in C: C[k]+=' (%s)'%v
json.dump(C,open('/verif/tools/caught.json','w'),indent=1)
