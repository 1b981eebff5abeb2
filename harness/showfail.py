import json, sys, glob, os, collections
f = sorted(glob.glob('/verif/replays/%s-*.json' % sys.argv[1]), key=os.path.getmtime)[-1]
d = json.load(open(f))
print(f, d['n_failures'])
print(collections.Counter(x['clause'] for x in d['failures']))
if len(sys.argv) > 2:
    for x in d['failures']:
        if x['clause'] == sys.argv[2]:
            print(str(x['what'])[:3000]); break
