"""prints the list of planted bugs by property, for DESIGN.md section 7"""
import glob, json, os, collections
d = collections.defaultdict(list)
for m in glob.glob(os.path.join(os.path.dirname(__file__), '..', 'seeded', '*', 'meta.json')):
    d[json.load(open(m))['property']].append(m.split('/')[-2])
print('; '.join('%s: %s' % (p, ' '.join(sorted(d[p], key=lambda b: (len(b), b)))) for p in sorted(d)) + '.')
